"""Seeded generation of definitions and edit histories.  Every operation is tried on a reference
definition first, so that a history consists of edits PyNite documents as legal and, where the profile
asks for it, leaves a definition that is certainly stable.  The generator is never an oracle."""
import copy
from sim.core import Rng
from sim.spec import Spec, Inapplicable, DOFS
from sim import geom

CASES = ('D', 'L', 'W', 'Case 1')
TAGS = ('strength', 'service', 'x', 'max', 'strength-2')        # some contain one another
RELEASES = (
    [0,0,0,0,1,1, 0,0,0,0,0,0], [0,0,0,0,0,0, 0,0,0,0,1,1], [0,0,0,0,1,1, 0,0,0,0,1,1],
    [0,0,0,0,0,1, 0,0,0,0,0,0], [0,0,0,0,1,0, 0,0,0,0,0,0], [0,0,0,0,0,1, 0,0,0,0,0,1],
    [0,0,0,1,0,0, 0,0,0,0,0,0], [1,0,0,0,0,0, 0,0,0,0,0,0], [0,0,0,0,0,0, 0,0,0,1,1,1],
)
PROFILE = dict(nodes=(3, 6), spacing=(60, 96, 100, 120), extra=(0, 2), tc=0.45, springs=0.35, sprsup=0.45, enf=0.3,
               rel=0.4, aux=0.3, sec=0.3, panels=0.3, mesh=0.2, combos=(0, 4), autonames=0.3, loads=(3, 7), oneway=0.5,
               selfw=0.25, stable=True, internal=0.4, tags=0.5, midpoints=0.3, small_mesh=False, shared=.2)

EDITS = dict(node=2, aux=.5, spring=1, member=2, panel=.7, mesh=.4, opening=.3, sup=1.5, spr=1, enf=1, rel=1, combo=1.5, nload=2,
             mpt=1.5, mdist=1.5, selfw=.4, pressure=.6, delloads=.3, delnode=.7, delaux=.4, delspring=.6, delmember=.8,
             merge=.3, rename=.3, mat=.2, sec=.2)
DIRECT = dict(setm=1, setk=.6, setn=.8, setq=.4, setf=.8)

class Gen:
    def __init__(self, rng, **profile):
        self.r = rng
        self.p = dict(PROFILE); self.p.update(profile)
        self.spec = Spec()
        self.ops = []
        self.k = 0
        self.freed = {}
        self.step = self.r.pick(self.p['spacing'])
        self.auto = self.r.chance(self.p['autonames'])      # automatic names, or explicit ones that look like them

    # ---- plumbing ----------------------------------------------------------------------------
    def h(self, prefix):
        self.k += 1
        return '%s%d' % (prefix, self.k)

    def nm(self, prefix, h):
        """Explicit name, automatic name, or the name of something deleted before."""
        if self.auto and self.r.chance(.5): return None
        fr = self.freed.get(prefix)
        if fr and self.r.chance(0.5): return fr.pop()
        if prefix in 'pq' and self.r.chance(1.5*self.p['shared']): return self.r.pick(['A', 'B', 'P1', 'Q1'])
        if self.r.chance(self.p['shared']): return self.r.pick(['A', 'B', 'C', 'D', 'Combo 1', 'Case 1'])     # one name for things of several kinds
        if not self.auto and self.r.chance(0.25): return '%s%d' % (dict(n='N', m='M', s='S', p='P', q='Q', a='AN').get(prefix, prefix.upper()), self.r.randrange(1, 12))
        return 'u'+h

    def _apply(self, spec, op):
        from sim.world import NEW_KIND, World
        self._w = getattr(self, '_w', None) or World.__new__(World)
        self._w.spec = spec
        self._w._check(op)
        if op[0] in NEW_KIND: spec.apply(op, op[2] or '~'+op[1])
        else: spec.apply(op)
        if op[0] == 'gen': geom.predict_mesh(spec, op[1])

    def emit(self, *ops, check=True, stable=None):
        """Commit the operations if the definition stays valid (and stable); True on success."""
        trial = self.spec.copy()
        try:
            for op in ops: self._apply(trial, op)
        except Inapplicable:
            return False
        if check and not geom.valid(trial): return False
        if stable is None: stable = self.p['stable'] and self._based
        if check and stable and not geom.surely_stable(trial): return False
        self.spec = trial
        self.ops.extend(ops)
        return True

    _based = False

    # ---- pieces --------------------------------------------------------------------------------
    def point(self):
        r, s = self.r, self.step
        c = [s*r.randrange(3), s*r.randrange(3), s*r.randrange(2)]
        if r.chance(self.p['midpoints']): c[r.randrange(3)] += s/2
        return c

    def any_node(self, mesh=True):
        hs = [h for h in self.spec.nodes if mesh or '.' not in h]
        return self.r.pick(hs) if hs else None

    def any_of(self, kind, pred=lambda e: True):
        hs = [h for h, e in getattr(self.spec, kind).items() if pred(e)]
        return self.r.pick(hs) if hs else None

    def props(self):
        r = self.r
        return dict(A=r.num(5, 20, 2), Iy=r.num(100, 600, 1), Iz=r.num(100, 900, 1), J=r.num(50, 400, 1))

    def op_mat(self):
        r = self.r; h = self.h('mt')
        return ['mat', h, 'u'+h if r.chance(.9) else None, r.pick([29000.0, 29000.0, 10000.0, 3600.0]), r.pick([11200.0, 11200.0, 4000.0]),
                r.pick([0.3, 0.2, 0.25]), r.pick([0.0, 0.0003, 0.0001])]

    def op_sec(self):
        h = self.h('sc'); p = self.props()
        return ['sec', h, 'u'+h, p['A'], p['Iy'], p['Iz'], p['J'], self.any_of('mats')]

    def op_node(self):
        h = self.h('n'); return ['node', h, self.nm('n', h)]+self.point()

    def op_aux(self):
        h = self.h('a'); s = self.step; r = self.r
        return ['aux', h, self.nm('a', h), s*r.num(-3, 5, 1), s*r.num(-3, 5, 1), s*r.num(-3, 5, 1)]

    def op_member(self, i, j, tc=None):
        r = self.r; h = self.h('m')
        sec = self.any_of('secs') if self.spec.secs and r.chance(0.5) else None
        aux = self.any_of('aux') if self.spec.aux and r.chance(0.5) else None
        t = c = False
        if tc is None: tc = r.chance(self.p['tc']*0.5)
        if tc:
            t = r.chance(0.6); c = not t
        return ['member', h, self.nm('m', h), i, j, self.any_of('mats'), None if sec else self.props(), aux, t, c, sec]

    def op_spring(self, i, j):
        r = self.r; h = self.h('s')
        t = c = False
        if r.chance(self.p['oneway']): t = r.chance(.5); c = not t
        return ['spring', h, self.nm('s', h), i, j, r.num(20, 300, 1), t, c]

    def two_nodes(self):
        hs = list(self.spec.nodes)
        if len(hs) < 2: return None
        a = self.r.pick(hs); b = self.r.pick([h for h in hs if h != a])
        return a, b

    def op_sup(self, h, full=None):
        r = self.r
        v = r.pick([[1]*6, [1]*6, [1,1,1,0,0,0], [1,1,1,1,0,0], [0,1,0,0,0,0], [1,1,0,0,0,0], [0,0,1,1,1,0], [0]*6]) if full is None else full
        return ['sup', h, [bool(x) for x in v]]

    def op_spr(self, h):
        r = self.r; n = self.spec.nodes[h]
        free = [d for i, d in enumerate(DOFS) if not n['sup'][i] and d not in n['enf']]
        if not free: return None
        d = r.pick(free)
        if d in n['spr'] and r.chance(0.3): return ['spr', h, d, None, None]
        k = r.num(5, 200, 1) if d[0] == 'D' else r.num(500, 20000, 0)
        return ['spr', h, d, k, r.pick(['+', '-']) if r.chance(self.p['oneway']) else None]

    def op_enf(self, h):
        r = self.r; n = self.spec.nodes[h]
        sup = [d for i, d in enumerate(DOFS) if n['sup'][i] and d not in n['spr']]
        if not sup: return None
        d = r.pick(sup)
        if d in n['enf'] and r.chance(.4): return ['enf', h, d, None]
        return ['enf', h, d, r.num(-.5, .5, 3) if d[0] == 'D' else r.num(-.004, .004, 5)]

    def case(self): return self.r.weighted([('D', 3), ('L', 3), ('W', 2), ('Case 1', 3)])

    def op_nload(self, h):
        r = self.r; d = r.pick(['FX', 'FY', 'FZ', 'FX', 'FY', 'MX', 'MY', 'MZ'])
        P = r.num(-12, 12, 2) if d[0] == 'F' else r.num(-200, 200, 1)
        return ['nload', h, d, P or 1.0, self.case()]

    def op_mpt(self, m):
        r = self.r; L = self.spec.length(self.spec.members[m])
        d = r.pick(['Fx', 'Fy', 'Fz', 'Fy', 'Fz', 'FX', 'FY', 'FZ', 'Mx', 'My', 'Mz', 'MX', 'MZ'])
        P = r.num(-10, 10, 2) if d[0] == 'F' else r.num(-150, 150, 1)
        x = r.weighted([(round(L*r.pick([.25, .3, .5, .7]), 3), 5), (0.0, .5)])
        return ['mpt', m, d, P or 1.0, min(x, L), self.case()]

    def op_mdist(self, m):
        r = self.r; L = self.spec.length(self.spec.members[m])
        d = r.pick(['Fx', 'Fy', 'Fz', 'Fy', 'Fz', 'FX', 'FY', 'FZ'])
        w1 = r.num(-.2, .2, 3) or .1
        w2 = w1 if r.chance(.5) else r.num(-.2, .2, 3)
        x1, x2 = r.pick([(None, None), (None, None), (0.0, round(L*.6, 3)), (round(L*.25, 3), None), (round(L*.2, 3), round(L*.7, 3))])
        return ['mdist', m, d, w1, w2, x1, x2, self.case()]

    def op_pressure(self):
        p, q = self.any_of('plates'), self.any_of('quads')
        if p and (not q or self.r.chance(.5)): return ['pp', p, self.r.num(-.02, .02, 4) or .01, self.case()]
        if q: return ['qp', q, self.r.num(-.02, .02, 4) or .01, self.case()]

    def op_combo(self, name=None):
        r = self.r
        if name is None:
            old = list(self.spec.combos)
            name = r.pick(old) if old and r.chance(.3) else r.pick(['1.4D', '1.2D+1.6L', 'D+W', 'svc', 'c%d' % r.randrange(9), 'Combo 1'])
        f = {}
        for c in CASES:
            if r.chance(.6): f[c] = r.num(.4, 1.8, 2)*(1 if r.chance(.8) else -1)
        if not f: f[r.pick(CASES)] = 1.0
        tags = [t for t in TAGS if r.chance(.3)] if r.chance(self.p['tags']) else None
        return ['combo', name, f, tags]

    def ops_panel(self):
        """A panel on an axis-parallel rectangle of the lattice, entered with the nodes it needs."""
        r, s = self.r, self.step
        kind = r.pick(['plate', 'quad'])
        ax = r.pick([(0, 1), (0, 2), (1, 2)])
        o = [s*r.randrange(2), s*r.randrange(2), s*r.randrange(2)]
        pts = []
        for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
            p = list(o); p[ax[0]] += a*s; p[ax[1]] += b*s; pts.append(p)
        ops = []; refs = []
        for p in pts:
            hit = None
            for h, n in self.spec.nodes.items():
                if abs(n['X']-p[0]) + abs(n['Y']-p[1]) + abs(n['Z']-p[2]) < 1e-6: hit = h
            if hit is None:
                hit = self.h('n'); ops.append(['node', hit, self.nm('n', hit)]+p)
            refs.append(hit)
        h = self.h('p' if kind == 'plate' else 'q')
        ops.append([kind, h, self.nm(kind[0], h)]+refs+[r.num(1, 6, 2), self.any_of('mats'), r.pick([1, 1, 1, .5]), r.pick([1, 1, 1, .7])])
        return ops

    def ops_mesh(self, gen=None):
        """A mesh away from the rest, with its supports, and perhaps a member tying it to the frame."""
        r, s = self.r, self.step
        h = self.h('ms'); mat = self.any_of('mats')
        kind = r.weighted([('rect', 5), ('annulus', 1.5), ('frustrum', 1), ('cylinder', 1.5)])
        off = [s*(6+3*len(self.spec.meshes)), 0, s*r.randrange(2)]
        et = r.pick(['Quad', 'Rect'])
        if kind == 'rect':
            w, ht = s*r.pick([1, 2]), s*r.pick([1, 2])
            kw = dict(mesh_size=s*r.pick([1, .75, 2]), width=w, height=ht, thickness=r.num(1, 5, 2), mat=mat, kx_mod=r.pick([1, 1, .6]), ky_mod=1,
                      origin=off, plane=r.pick(['XY', 'YZ', 'XZ']), element_type=et)
            if r.chance(.4): kw['x_control'] = [round(w*r.pick([.3, .5, .6]), 3)]
            if r.chance(.3): kw['y_control'] = [round(ht*r.pick([.3, .5, .6]), 3)]
        elif kind == 'annulus':
            ri = s; kw = dict(mesh_size=2*3.1416*ri/r.pick([6, 7]), outer_radius=ri*r.pick([2.1, 2.4]), inner_radius=ri, thickness=r.num(1, 5, 2),
                              mat=mat, origin=off)
        elif kind == 'frustrum':
            ri = s; kw = dict(mesh_size=2*3.1416*ri/r.pick([6, 7]), large_radius=ri*r.pick([2.1, 2.4]), small_radius=ri, height=s,
                              thickness=r.num(1, 5, 2), mat=mat, origin=off)
        else:
            kw = dict(mesh_size=s*r.pick([.9, .5]), radius=s*.8, height=s*r.pick([1, 1.6]), thickness=r.num(1, 5, 2), mat=mat, num_elements=r.pick([5, 6, None]),
                      element_type=et, origin=[off[0], off[1], off[2]])
            if kw['mesh_size'] < .6*s: kw.update(height=s, num_elements=5)
        if self.p['small_mesh'] and kind == 'rect': kw['mesh_size'] = s*2
        if self.p['small_mesh'] and kind == 'cylinder': kw.update(mesh_size=s*.9, height=s, num_elements=5)
        ops = [['mesh', h, 'u'+h if r.chance(.7) else None, kind, kw]]
        if not self.p['small_mesh'] and kind == 'rect' and r.chance(.35) and kw['width'] >= 2*s-1e-9 and kw['height'] >= s:
            ops.append(['opening', h, 'op'+h, round(kw['width']*.55, 3), round(kw['height']*.3, 3), round(kw['width']*.25, 3), round(kw['height']*.3, 3)])
        return ops, h, kind

    def support_mesh(self, spec, h, kind):
        m = spec.meshes[h]; ops = []
        nn = len(m['gen_nodes'])
        P = [geom.xyz(spec, x) for x in m['gen_nodes']]
        if kind == 'rect':
            ax = dict(XY=1, YZ=1, XZ=2)[m['kw'].get('plane', 'XY')]
            lo = min(p[ax] for p in P)
            pick = [i for i in range(nn) if abs(P[i][ax]-lo) < 1e-9]
        else:
            per = 0
            while per < nn and abs(P[per][1]-P[0][1]) < 1e-9 and (kind == 'cylinder' or abs(((P[per]-m_origin(m))[[0, 2]]**2).sum()**.5-((P[0]-m_origin(m))[[0, 2]]**2).sum()**.5) < 1e-6): per += 1
            pick = list(range(per))
        full = self.r.chance(.6)
        return [['sup', ['mnode', h, i], [True]*6 if full else [True, True, True, False, False, False]] for i in pick]

    def add_mesh(self, generate=True, tie=0.5):
        got = self.ops_mesh()
        if not got: return False
        ops, h, kind = got
        ops = ops+([['gen', h]] if generate else [])
        trial = self.spec.copy()
        try:
            for op in ops: self._apply(trial, op)
        except Inapplicable: return False
        if not generate:
            return self.emit(*ops)
        ops = ops + self.support_mesh(trial, h, kind)
        if self.r.chance(tie):
            frame = [x for x in self.spec.nodes if '.' not in x]
            if frame:
                mm = self.op_member(self.r.pick(frame), ['mnode', h, len(trial.meshes[h]['gen_nodes'])-1], tc=False); mm[7] = None
                ops.append(mm)
        ok = self.emit(*ops)
        if not ok and self.p['stable']:
            ops = [o for o in ops if o[0] != 'member']
            for o in ops:
                if o[0] == 'sup': o[2] = [True]*6
            ok = self.emit(*ops)
        return ok

    # ---- the starting definition --------------------------------------------------------------
    def base(self):
        r, p = self.r, self.p
        start = len(self.ops)
        for _ in range(r.randrange(1, 3)): self.emit(self.op_mat(), check=False)
        if r.chance(p['sec']): self.emit(self.op_sec(), check=False)
        if r.chance(p['aux']): self.emit(self.op_aux(), check=False)
        n = r.randrange(p['nodes'][0], p['nodes'][1]+1)
        tries = 0
        while len(self.spec.nodes) < n and tries < 60:
            tries += 1
            op = self.op_node()
            if not self.spec.nodes: self.emit(op); continue
            other = self.any_node()
            mem = self.op_member(op[1], other, tc=False)
            if r.chance(.5): mem[3], mem[4] = mem[4], mem[3]
            self.emit(op, mem)
        if r.chance(p['internal']):      # a node in the middle of a member
            m = self.any_of('members')
            if m:
                a, b = geom.xyz(self.spec, self.spec.members[m]['i']), geom.xyz(self.spec, self.spec.members[m]['j'])
                f = r.pick([.5, .25, .75]); c = a+f*(b-a); h = self.h('n')
                self.emit(['node', h, self.nm('n', h)]+[float(round(x, 6)) for x in c])
        for _ in range(r.randrange(p['extra'][0], p['extra'][1]+1)):
            ij = self.two_nodes()
            if ij: self.emit(self.op_member(*ij))
        if r.chance(p['panels']):
            for _ in range(r.randrange(1, 3)): self.emit(*self.ops_panel())
        if r.chance(p['tc']):
            for _ in range(r.randrange(1, 3)):
                ij = self.two_nodes()
                if ij: self.emit(self.op_member(*ij, tc=True))
        if r.chance(p['springs']):
            for _ in range(r.randrange(1, 3)):
                ij = self.two_nodes()
                if ij: self.emit(self.op_spring(*ij))
        if r.chance(p['internal']*.6):      # a node on a one-way member, held by something else
            m = self.any_of('members', lambda e: e['t'] or e['c'])
            if m:
                a, b = geom.xyz(self.spec, self.spec.members[m]['i']), geom.xyz(self.spec, self.spec.members[m]['j'])
                op = ['node', self.h('n'), None]+[float(round(x, 9)) for x in a+r.pick([.5, .25, .75])*(b-a)]
                op[2] = self.nm('n', op[1])
                o = self.any_node()
                if r.chance(.3): self.emit(op, self.op_sup(op[1], [1]*6))
                elif o not in (self.spec.members[m]['i'], self.spec.members[m]['j']): self.emit(op, self.op_member(o, op[1], tc=False))
        # supports until certainly stable
        order = list(self.spec.nodes); r.shuffle(order)
        for _ in range(r.randrange(0, 2)):
            self.emit(self.op_sup(r.pick(order)))
        full = [1]*6 if r.chance(.6) else [1, 1, 1, 0, 0, 0]
        for k, h in enumerate(order):
            bad = geom.unstable(self.spec)
            if not bad: break
            if not any(h in c for c in bad): continue
            self.emit(self.op_sup(h, full))
        for h in order:
            bad = geom.unstable(self.spec)
            if not bad: break
            if not any(h in c for c in bad): continue
            self.emit(self.op_sup(h, [1]*6))
        self._based = True
        if p['stable'] and not geom.surely_stable(self.spec): raise RuntimeError('unstable base')
        if r.chance(p['mesh']): self.add_mesh()
        if r.chance(p['rel']):
            for _ in range(r.randrange(1, 3)): self.tryedit('rel')
        if r.chance(p['sprsup']):
            for _ in range(r.randrange(1, 3)): self.tryedit('spr')
        if r.chance(p['enf']): self.tryedit('enf')
        for _ in range(r.randrange(p['loads'][0], p['loads'][1]+1)):
            self.tryedit(r.weighted([('nload', 3), ('mpt', 2), ('mdist', 2), ('pressure', 1)]))
        if r.chance(p['selfw']): self.tryedit('selfw')
        self.load_something('Case 1' if r.chance(.6) else None)
        for _ in range(r.randrange(p['combos'][0], p['combos'][1]+1)): self.emit(self.op_combo())
        return self.ops[start:]

    def load_something(self, case=None):
        free = [h for h, n in self.spec.nodes.items() if not all(n['sup'][:3])]
        h = self.r.pick(free) if free else self.any_node()
        op = self.op_nload(h)
        if case: op[4] = case
        self.emit(op)

    # ---- edits -----------------------------------------------------------------------------------
    def make(self, kind):
        """Operations for one edit of this kind, or None."""
        r, s = self.r, self.spec
        if kind == 'node':
            op = self.op_node(); o = self.any_node()
            if o is None: return [op]
            return [op, self.op_member(o, op[1], tc=False)] if r.chance(.7) or not self.p['stable'] else [op, self.op_sup(op[1], [1]*6)]
        if kind == 'aux': return [self.op_aux()]
        if kind == 'mat': return [self.op_mat()]
        if kind == 'sec': return [self.op_sec()] if s.mats else None
        if kind == 'spring':
            ij = self.two_nodes(); return [self.op_spring(*ij)] if ij else None
        if kind == 'member':
            ij = self.two_nodes(); return [self.op_member(*ij)] if ij else None
        if kind == 'panel': return self.ops_panel()
        if kind == 'sup': return [self.op_sup(self.any_node())]
        if kind == 'spr': o = self.op_spr(self.any_node()); return [o] if o else None
        if kind == 'enf': o = self.op_enf(self.any_node()); return [o] if o else None
        if kind == 'rel':
            m = self.any_of('members', lambda e: not e['t'] and not e['c'])
            if not m: return None
            v = r.pick(RELEASES) if r.chance(.75) else [0]*12
            return [['rel', m, [bool(x) for x in v]]]
        if kind == 'combo': return [self.op_combo()]
        if kind == 'nload': return [self.op_nload(self.any_node())]
        if kind == 'mpt': m = self.any_of('members'); return [self.op_mpt(m)] if m else None
        if kind == 'mdist': m = self.any_of('members'); return [self.op_mdist(m)] if m else None
        if kind == 'selfw': return [['selfw', r.pick(['FX', 'FY', 'FZ']), r.pick([-1.0, 1.0, -.5]), self.case()]]
        if kind == 'pressure': o = self.op_pressure(); return [o] if o else None
        if kind == 'delloads': return [['delloads']]
        if kind == 'delnode': h = self.any_node(); return [['delnode', h]]
        if kind == 'delaux': h = self.any_of('aux'); return [['delaux', h]] if h else None
        if kind == 'delspring': h = self.any_of('springs'); return [['delspring', h]] if h else None
        if kind == 'delmember': h = self.any_of('members'); return [['delmember', h]] if h else None
        if kind == 'merge': return [['merge', r.pick([.001, .01])]]
        if kind == 'rename': return [['rename']]
        if kind == 'setm':
            m = self.any_of('members', lambda e: e['sec'] is None)
            return [['setm', m, r.pick(['A', 'Iy', 'Iz', 'J']), r.num(50, 400, 1) if r.chance(.6) else r.num(8, 60, 1)]] if m else None
        if kind == 'setk': h = self.any_of('springs'); return [['setk', h, r.num(20, 300, 1)]] if h else None
        if kind == 'setn':
            h = self.any_node(mesh=False)
            if not h: return None
            a = r.pick(['X', 'Y', 'Z']); return [['setn', h, a, float(s.nodes[h][a])+self.step*r.pick([-.3, -.2, .2, .35])]]
        if kind == 'setq': h = self.any_of('quads'); return [['setq', h, r.num(1, 6, 2)]] if h else None
        if kind == 'setf':
            if not s.combos: return None
            return [['setf', r.pick(list(s.combos)), r.pick(CASES), r.num(-1.5, 1.8, 2)]]
        if kind == 'opening': return None
        raise ValueError(kind)

    def tryedit(self, kind, n=6):
        """Emit one edit of this kind; returns the operations or None."""
        a = len(self.ops)
        for _ in range(n):
            if kind == 'mesh':
                if len(self.spec.meshes) >= 2 or not self.spec.mats: return None
                if self.add_mesh(): return self.ops[a:]
                continue
            if kind in ('nload', 'sup', 'spr', 'enf', 'delnode') and not self.spec.nodes: return None
            if kind in ('member', 'panel') and not self.spec.mats: return None
            ops = self.make(kind)
            if not ops: return None
            pre = self._names_of(ops)
            if self.emit(*ops):
                for k, nmv in pre: self.freed.setdefault(k, []).append(nmv)
                return self.ops[a:]
        return None

    def _names_of(self, ops):
        out = []
        for op in ops:
            k = dict(delnode=('n', 'nodes'), delaux=('a', 'aux'), delspring=('s', 'springs'), delmember=('m', 'members')).get(op[0])
            if k:
                e = getattr(self.spec, k[1]).get(op[1])
                if e and not e['name'].startswith('~'): out.append((k[0], e['name']))
        return out

    def edit(self, weights=None, n=12):
        """One random edit that keeps the profile's guarantees; list of operations (never empty)."""
        weights = weights or EDITS
        for _ in range(n):
            k = self.r.weighted(list(weights.items()))
            ops = self.tryedit(k)
            if ops: return ops
        ops = self.tryedit('combo') or self.tryedit('nload')
        return ops or []

    # ---- particular situations -------------------------------------------------------------------
    def reload(self):
        """Every load is taken away and entered again in the same order and direction, with other values or places."""
        r, s = self.r, self.spec; ops = [['delloads']]
        f = r.pick([-1.0, .5, 2.0, 3.0]); place = r.chance(.6); value = not place or r.chance(.5)
        g = lambda v: round(v*f, 6) if value else v
        for h, n in s.nodes.items():
            for d, P, c in n['loads']: ops.append(['nload', h, d, g(P), c])
            for d, v in n['enf'].items(): ops.append(['enf', h, d, g(v)])
        for h, m in s.members.items():
            L = s.length(m)
            for d, P, x, c in m['pt']: ops.append(['mpt', h, d, g(P), round(L*r.pick([.2, .4, .6, .8]), 3) if place else x, c])
            for d, w1, w2, x1, x2, c in m['dist']: ops.append(['mdist', h, d, g(w1), g(w2), x1, x2 if not place or x2-x1 < .2*L else round(x1+(x2-x1)*.6, 3), c])
        for kind, q in (('plates', 'pp'), ('quads', 'qp')):
            for h, e in getattr(s, kind).items():
                for v, c in e['pr']: ops.append([q, h, g(v), c])
        return self.emit(*ops)

    def withdraw(self):
        """One edit that takes something away again: an imposed displacement, a support, a support spring, a release."""
        r, s = self.r, self.spec; can = []
        for h, n in s.nodes.items():
            can += [['enf', h, d, None] for d in n['enf']]+[['spr', h, d, None, None] for d in n['spr']]
            if any(n['sup']): can.append(['sup', h, [x and r.chance(.6) for x in n['sup']]])
        can += [['rel', h, [False]*12] for h, m in s.members.items() if any(m['rel'])]
        r.shuffle(can)
        for op in can[:8]:
            if self.emit(op): return True
        return False

    def near_nodes(self):
        """Two nodes almost at one place along a member, the farther one sometimes entered first."""
        r = self.r; m = self.any_of('members')
        if not m: return False
        e = self.spec.members[m]; a, b = geom.xyz(self.spec, e['i']), geom.xyz(self.spec, e['j'])
        f = r.pick([.31, .44, .62, .5]); fs = [f, f+r.pick([.004, .006, .009])]
        if r.chance(.5): fs.reverse()
        ops = []
        for x in fs:
            h = self.h('n'); ops.append(['node', h, self.nm('n', h)]+[float(round(v, 9)) for v in a+x*(b-a)])
        if not self.emit(*ops): return False
        for o in ops:
            if r.chance(.5): self.emit(self.op_nload(o[1]))
        return True

    def equal_springs(self):
        """Several springs of one stiffness at one node."""
        r = self.r; hs = [h for h in self.spec.nodes if not all(self.spec.nodes[h]['sup'])]
        if not hs: return False
        h = r.pick(hs); n = self.spec.nodes[h]
        k = r.num(5, 200, 1); done = False
        for i in range(6):
            if n['sup'][i] or DOFS[i] in n['enf'] or r.chance(.25): continue
            done |= self.emit(['spr', h, DOFS[i], k if i < 3 or r.chance(.3) else 100*k, r.pick(['+', '-']) if r.chance(.2) else None])
        return done

    # ---- faults in the definition: an unstable model, and its repair ----------------------------
    def destabilise(self):
        """Operations that make the definition exactly unstable, and the ones that repair it."""
        r = self.r; h = self.h('x')
        s = self.step
        p = [s*r.pick([4.3, 5.1]), s*r.pick([.7, 3.3]), s*r.pick([-1.7, 2.6])]
        bad = [['node', h, 'u'+h]+p]
        if r.chance(.6): bad.append(['nload', h, r.pick(['FX', 'FY', 'FZ', 'MX']), 2.0, self.case()])
        good = [['delnode', h]] if r.chance(.6) else [['sup', h, [True]*6]]
        return bad, good

def twin(steps, r):
    """Another history that makes the same calls under the same names, with other numbers."""
    out = copy.deepcopy(steps)
    f = lambda *a: r.pick(a)
    far = [f(0, 0, 37.0), f(0, 0, -21.0), f(0, 0, 13.0)]        # the whole model elsewhere
    what = {k for k in ('loads', 'mat', 'sec', 'aux', 'combo', 'springs', 'place', 'sup', 'thick') if r.chance(.45)} or {'aux', 'sec', 'mat'}
    for op in out:
        k = op[0]
        if k in ('nload', 'mpt'):
            if 'loads' in what: op[3] = round(op[3]*f(-1.7, .3, 2.2, 1), 4)
        elif k == 'mdist':
            if 'loads' in what: c = f(-1.3, .4, 2); op[3] = round(op[3]*c, 5); op[4] = round(op[4]*c, 5)
        elif k in ('pp', 'qp', 'selfw'):
            if 'loads' in what: op[2] = round(op[2]*f(-1, .5, 2), 5)
        elif k == 'enf':
            if 'loads' in what and op[3] is not None: op[3] = round(op[3]*f(-1, .5, 2), 6)
        elif k == 'mat':
            if 'mat' in what: op[3] = f(29000.0, 10000.0, 17000.0); op[6] = f(op[6], .0002, .0)
        elif k == 'sec':
            if 'sec' in what: op[3:7] = [round(v*f(1, .6, 1.7), 3) for v in op[3:7]]
        elif k == 'member':
            if 'sec' in what and op[6]: op[6] = {a: round(v*f(1, .6, 1.7), 3) for a, v in op[6].items()}
        elif k == 'aux':
            if 'aux' in what: op[3:6] = [round(v+f(-150, 60, 240), 3) for v in op[3:6]]
            elif 'place' in what: op[3:6] = [v+d for v, d in zip(op[3:6], far)]
        elif k == 'combo':
            if 'combo' in what: op[2] = {c: round(v*f(.5, 1, -1, 2), 3) for c, v in op[2].items()}
        elif k == 'spring':
            if 'springs' in what: op[5] = round(op[5]*f(.5, 1, 3), 2)
        elif k == 'spr':
            if 'springs' in what and op[3] is not None: op[3] = round(op[3]*f(.5, 1, 3), 2)
        elif k == 'node':
            if 'place' in what: op[3:6] = [v+d for v, d in zip(op[3:6], far)]
        elif k in ('plate', 'quad'):
            if 'thick' in what: op[7] = round(op[7]*f(.7, 1.5), 3)
        elif k == 'mesh':
            if 'thick' in what: op[4]['thickness'] = round(op[4]['thickness']*f(.7, 1.5), 3)
        elif k == 'sup':
            if 'sup' in what and r.chance(.3): op[2] = [True]*6
        elif k == 'q': op[1] = r.getrandbits(32)
    return out

def m_origin(m):
    import numpy as np
    return np.array(m['kw'].get('origin') or [0, 0, 0], float)

# ---- analysis options --------------------------------------------------------------------------------
def analysis(r, pdelta=True, linear=True, tags=0.25, spec=None):
    kind = r.weighted([('general', 5)]+([('linear', 3)] if linear else [])+([('pdelta', 2)] if pdelta else []))
    o = {}
    if r.chance(.5): o['sparse'] = r.chance(.5)
    if r.chance(.5): o['check_stability'] = r.chance(.5)
    if kind != 'pdelta' and r.chance(.25): o['check_statics'] = True
    if r.chance(.2): o['log'] = True
    if r.chance(tags):
        o['combo_tags'] = [t for t in TAGS if r.chance(.3)] or [r.pick(TAGS)]
        if spec is not None and not any(c['tags'] and set(c['tags']) & set(o['combo_tags']) for c in spec.combos.values()): del o['combo_tags']
    return ['an', kind, o]

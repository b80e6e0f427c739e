"""P18: the answer does not depend on where a structure stands, which way it faces, the units, or which end comes first."""
import math
import numpy as np
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, posed, observe as ob
from sim.refsolver import axes
from sim.world import World, selected, analyze
from sim.spec import DOFS
from props.p11 import panel_bad, orphan
from props.common import REAL
ID = 'P18'
TITLE = 'The answer does not depend on position, compass direction, units or end order'
RUNS = dict(quick=450, thorough=20000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['turns are quarter turns about the vertical axis, of structures in which no vertical member relies on the default orientation of its cross section '
               '(the library fixes that one by compass direction, as documented)',
               'units are those in use: inch, foot, millimetre, metre; pound, kip, newton, kilonewton',
               'after a second-order analysis the inner forces of a member entered from its other end are not compared',
               'differences decided by round-off (one-way parts within it of switching, condition above 1e10, sensitivity to a change of 1e-9) are counted and not judged']
TOL = 2e-6
AX = 'XYZ'

def turn(k):
    """Quarter turns about Y."""
    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]], float)

class Turned:
    """Translates operations and results between a structure and its moved, turned, rescaled twin."""
    def __init__(self, a):
        self.R = turn(a['turn']); self.k = a['turn']; self.d = np.array(a['move'], float); self.s, self.f = a['length'], a['force']
        self.flip, self.spin = set(a['flip']), set(a['spin'])
        self.sign = {}
    def point(self, p): return [float(v) for v in self.R@np.array(p, float)*self.s+self.d]
    def axis(self, a):
        """('Y', -1) for the global axis `a`"""
        v = self.R[:, AX.index(a)]; j = int(np.argmax(np.abs(v)))
        return AX[j], (1 if v[j] > 0 else -1)
    def signs(self, s, m):
        """(sx, sy, sz) of the member's own axes, or None when they are not parallel."""
        e = s.members[m] if isinstance(m, str) else m
        t0 = axes(s, e)@self.R.T
        t1 = self.axes1(s, e, m)
        d = np.sum(t0*t1, axis=1)
        return tuple(1 if x > 0 else -1 for x in d) if np.all(np.abs(np.abs(d)-1) < 1e-6) else None
    def axes1(self, s, e, h):
        """Axes of the member in the twin."""
        class V: pass
        v = V(); v.nodes, v.aux = {}, {}
        for n in (e['i'], e['j']):
            p = self.point([s.nodes[n][c] for c in AX]); v.nodes[n] = dict(zip(AX, p))
        if e['aux'] is not None: v.aux[e['aux']] = dict(zip(AX, self.point([s.aux[e['aux']][c] for c in AX])))
        g = dict(e)
        if h in self.flip: g['i'], g['j'] = e['j'], e['i']
        return axes(v, g)

    # ---- operations
    def ref(self, r):
        return ['at']+self.point(r[1:4]) if isinstance(r, (list, tuple)) and r[0] == 'at' else r
    def load(self, d, P, unit):
        """direction and value of a load in a global direction"""
        a, sg = self.axis(d[1]); return d[0]+a, sg*P*unit
    def op(self, op, s):
        k = op[0]; o = list(op); f, u = self.f, self.s
        if k in ('node', 'aux'): o[3:6] = self.point(op[3:6])
        elif k == 'mat': o[3:7] = [op[3]*f/u**2, op[4]*f/u**2, op[5], op[6]*f/u**3]
        elif k == 'sec': o[3:7] = [op[3]*u**2]+[v*u**4 for v in op[4:7]]
        elif k == 'spring':
            o[3:5] = [self.ref(r) for r in op[3:5]]; o[5] = op[5]*f/u
            if op[1] in self.flip: o[3], o[4] = o[4], o[3]
        elif k == 'member':
            o[3:5] = [self.ref(r) for r in op[3:5]]
            if op[6]: o[6] = {a: v*u**(2 if a == 'A' else 4) for a, v in op[6].items()}
            if op[1] in self.flip: o[3], o[4] = o[4], o[3]
        elif k in ('plate', 'quad'):
            o[3:7] = [self.ref(r) for r in op[3:7]]; o[7] = op[7]*u
            if op[1] in self.spin: o[3:7] = o[5:7]+o[3:5]
        elif k == 'mesh':
            kw = dict(op[4])
            for a in ('mesh_size', 'width', 'height', 'thickness', 'outer_radius', 'inner_radius', 'large_radius', 'small_radius', 'radius'):
                if a in kw: kw[a] = kw[a]*u
            for a in ('x_control', 'y_control'):
                if a in kw: kw[a] = [v*u for v in kw[a]]
            kw['origin'] = self.point(kw.get('origin') or [0, 0, 0])
            o[4] = kw
        elif k == 'opening': o[3:7] = [v*u for v in op[3:7]]
        elif k == 'sup':
            o[1] = self.ref(op[1]); v = [False]*6
            for i in range(6):
                j = AX.index(self.axis(AX[i % 3])[0])+3*(i//3); v[j] = op[2][i]
            o[2] = v
        elif k in ('spr', 'enf'):
            o[1] = self.ref(op[1]); a, sg = self.axis(op[2][1]); o[2] = op[2][0]+a
            rot = op[2][0] == 'R'
            if op[3] is not None: o[3] = (op[3]*(f*u if rot else f/u)) if k == 'spr' else sg*op[3]*(1 if rot else u)
            if k == 'spr' and op[4] in ('+', '-') and sg < 0: o[4] = '-' if op[4] == '+' else '+'
        elif k == 'rel':
            o[1] = self.ref(op[1]); m = s.ref('members', op[1])
            if m in self.flip: o[2] = list(op[2][6:])+list(op[2][:6])
        elif k == 'nload':
            o[1] = self.ref(op[1]); o[2], o[3] = self.load(op[2], op[3], f if op[2][0] == 'F' else f*u)
        elif k in ('mpt', 'mdist'):
            m = s.ref('members', op[1]); e = s.members[m]; L = s.length(e); d = op[2]
            L1 = float(np.linalg.norm(np.array(self.point([s.nodes[e['i']][c] for c in AX]))-np.array(self.point([s.nodes[e['j']][c] for c in AX]))))
            if d[1] in AX: dd, sg = self.axis(d[1])[0], self.axis(d[1])[1]; dd = d[0]+dd
            else:
                t = self.signs(s, m)
                if t is None: raise Skip('member axes turned')
                dd, sg = d, t['xyz'.index(d[1])]
            back = m in self.flip
            pos = lambda x: min(max((L-x if back else x)*u, 0.0), L1) if not (x == 0 and not back) else 0.0
            o[2] = dd
            if k == 'mpt': o[3], o[4] = sg*op[3]*(f if d[0] == 'F' else f*u), pos(op[4])
            else:
                o[3], o[4] = sg*op[3]*f/u, sg*op[4]*f/u
                x1, x2 = op[5], op[6]
                if back:
                    o[3], o[4] = o[4], o[3]
                    o[5], o[6] = None if x2 is None else pos(x2), None if x1 is None else pos(x1)
                else: o[5], o[6] = None if x1 is None else pos(x1), None if x2 is None else pos(x2)
        elif k == 'selfw':
            a, sg = self.axis(op[1][1]); o[1], o[2] = 'F'+a, sg*op[2]
        elif k in ('pp', 'qp'): o[2] = op[2]*f/u**2
        elif k == 'delnode': o[1] = self.ref(op[1])
        elif k == 'merge': o[1] = op[1]*u
        elif k == 'setm': o[3] = op[3]*u**(2 if op[2] == 'A' else 4)
        elif k == 'setk': o[2] = op[2]*f/u
        elif k == 'setn':
            o[1] = self.ref(op[1]); a, sg = self.axis(op[2]); o[2] = a
            o[3] = float(sg*op[3]*u+self.d[AX.index(a)])
        elif k == 'setq': o[2] = op[2]*u
        return o

def parallel(s, e):
    p = [geom.xyz(s, e[c]) for c in 'ijmn']
    u, v = p[1]-p[0], p[2]-p[3]
    return np.linalg.norm(u/np.linalg.norm(u)-v/np.linalg.norm(v)) < 1e-9

UNITS = [(1.0, 1.0), (1.0, 1000.0), (1/12, 1.0), (1/12, 1000.0), (25.4, 4448.2216), (.0254, 4.4482216), (.0254, 4448.2216), (25.4, 4.4482216), (.3048, .45359237)]

def choose(g, r):
    s = g.spec
    a = dict(turn=0, move=[0, 0, 0], length=1.0, force=1.0, flip=[], spin=[])
    upright = [m for m, e in s.members.items() if e['aux'] is None and abs(s.nodes[e['i']]['X']-s.nodes[e['j']]['X']) < 1e-6 and abs(s.nodes[e['i']]['Z']-s.nodes[e['j']]['Z']) < 1e-6]
    while True:
        if r.chance(.45): a['move'] = [float(r.pick([0, 37, -21.5, 250.3, r.num(-900, 900, 2)])), float(r.pick([0, 0, 12, -144.7])), float(r.pick([0, 19, -33.4, 610.1]))]
        if r.chance(.5): a['length'], a['force'] = r.pick(UNITS)
        if r.chance(.5) and not s.meshes: a['turn'] = r.pick([2] if upright else [1, 2, 3])
        if r.chance(.5): a['flip'] = sorted([m for m in list(s.members)+list(s.springs) if r.chance(.5)])
        if r.chance(.4): a['spin'] = sorted([p for p in list(s.plates)+list(s.quads) if '.' not in p and r.chance(.6)])
        if a['flip'] or a['turn'] or any(a['move']) or (a['length'], a['force']) != (1.0, 1.0): return a

def generate(r, tier):
    g = Gen(r, combos=(0, 3), nodes=(3, 6), panels=.3, mesh=.12 if r.chance(.6) else 0, small_mesh=True, sprsup=.5, oneway=.4, tc=.3, enf=.35, internal=.5, aux=.6, rel=.4, selfw=.3, loads=(4, 9))
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT); w.update(mesh=0, merge=.2)
    for k in range(r.randrange(0, 3 if tier == 'quick' else 8)):
        if r.chance(.15): steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        steps.append(analysis(r, spec=g.spec))
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 3])
        for _ in range(r.randrange(0, 5)): g.edit(w)
    steps.append(analysis(r, spec=g.spec))
    steps.insert(0, ['twin', choose(g, r)])
    return dict(steps=steps)

class P18(Run):
    T = None
    def do_twin(self, op):
        self.T = Turned(op[1]); self.v = World(); self.entered = {}
        a = op[1]
        for k in ('turn', 'flip', 'spin'):
            if a[k]: self.st.inc('twin: '+k)
        if any(a['move']): self.st.inc('twin: moved')
        if (a['length'], a['force']) != (1.0, 1.0): self.st.inc('twin: other units')

    def edit(self, op):
        if self.T is None: raise Skip('no twin')
        try: o = self.T.op(op, self.spec) if self.refs_ok(op) else None
        except KeyError: o = None
        r = super().edit(op)
        if r != 'ok': return r
        if o is None: raise Skip('not translated')
        q = self.v.do(o)
        if q == 'inapplicable': raise Skip('inapplicable to the twin')
        if q != 'ok': raise Violation('legal-edit-refused', '%s is accepted, but %s raises %r' % (op, o, q))
        if op[0] in ('mpt', 'mdist', 'selfw'):
            for h, e in self.spec.members.items():
                if (e['pt'] or e['dist']) and abs(self.spec.length(e)-self.entered.get(h, 0)) > 1e-9: self.entered[h] = -1.0
        if op[0] == 'member':
            self.T.sign[op[1]] = self.T.signs(self.spec, op[1])
            self.entered[op[1]] = self.spec.length(self.spec.members[op[1]])
        return r

    def refs_ok(self, op):
        from sim.spec import Inapplicable
        try: self.w._check(op); return True
        except Inapplicable: return False

    def analysed(self, kind, opts, e):
        if self.T is None: raise Skip('no twin')
        T, s, t = self.T, self.spec, self.v.spec
        o = {k: v for k, v in opts.items() if k != 'log'}
        e1 = analyze(self.v.model, kind, o)
        self.v.absorb(); self.v.note_default_combo()
        if not geom.valid(s) or any(panel_bad(s)): self.st.inc('not judged: outside the documented domain'); return
        if not all(x['generated'] for x in s.meshes.values()): self.st.inc('not judged: mesh not generated'); return
        for m in s.members:
            g = T.signs(s, m)
            if g is None or g != T.sign.get(m): self.st.inc('not judged: member axes turned by an edit'); return
            if m in T.flip and (s.members[m]['pt'] or s.members[m]['dist']) and abs(s.length(s.members[m])-self.entered.get(m, 0)) > 1e-9:
                self.st.inc('not judged: loads measured from an end that has moved'); return
        if set(s.nodes) != set(t.nodes) or set(s.quads) != set(t.quads) or set(s.plates) != set(t.plates):
            raise Violation('mesh', 'the meshes of the twin have other parts: %d nodes against %d' % (len(t.nodes), len(s.nodes)))
        what = 'the same %s analysis of the structure %s: ' % (kind, self.told())
        if (e is None) != (e1 is None):
            self.unless_ambiguous(kind, opts, 'outcome', what+'%s, originally %s' % tuple('success' if x is None else 'failure (%r)' % x for x in (e1, e))); return
        if e is not None: self.st.inc('failures compared'); return
        combos = selected(s, opts)
        a, b = self.views(combos, kind)
        self.log.add('  twin', ob.digest(a))
        self.st.inc('values compared', len(a)); self.st.inc('twins compared')
        d = ob.compare(a, b, ob.lc(s), TOL, skip=lambda k: k[3] == 'active')
        if d: self.unless_ambiguous(kind, opts, 'results', what+d)

    def told(self):
        T = self.T; out = []
        if T.k: out.append('turned by %d degrees' % (90*T.k))
        if T.d.any(): out.append('moved by %s' % T.d.tolist())
        if (T.s, T.f) != (1, 1): out.append('in other units (length %g, force %g)' % (T.s, T.f))
        if T.flip: out.append('with %s entered from the other end' % sorted(T.flip))
        if T.spin: out.append('with panels %s entered from the opposite corner' % sorted(T.spin))
        return ', '.join(out)

    def unless_ambiguous(self, kind, opts, cls, detail):
        s = self.spec
        if cls == 'outcome' and any(orphan(s, h) for h in s.nodes): raise Violation(cls, detail)
        if not geom.surely_stable(s): self.st.inc('not judged: nearly singular'); return
        why = posed.ambiguous(s, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'max_iter')}, TOL)
        if why: self.st.inc('not judged: '+why); return
        raise Violation(cls, detail)

    def views(self, combos, kind):
        T, s, t, m0, m1 = self.T, self.spec, self.v.spec, self.model, self.v.model
        f, u = T.f, T.s
        a, b = {}, {}
        ms = list(s.members); deep = set(ms[-2:])
        for c in combos:
            for h, n in s.nodes.items():
                p, q = m0.nodes[n['name']], m1.nodes[t.nodes[h]['name']]
                for names, kinds, unit in ((ob.DIS[:3], ob.DISP, u), (ob.DIS[3:], ob.ROT, 1), (ob.RXN[:3], ob.FORCE, f), (ob.RXN[3:], ob.MOMENT, f*u)):
                    w = T.R.T@np.array([float(getattr(q, x)[c]) for x in names])/unit
                    for i, x in enumerate(names):
                        a[c, 'node', h, x] = (kinds, float(getattr(p, x)[c])); b[c, 'node', h, x] = (kinds, float(w[i]))
            for h, e in s.springs.items():
                a[c, 'spring', h, 'axial'] = (ob.FORCE, float(m0.springs[e['name']].axial(c)))
                b[c, 'spring', h, 'axial'] = (ob.FORCE, float(m1.springs[t.springs[h]['name']].axial(c))/f)
            for h, e in s.members.items():
                sx, sy, sz = T.sign[h]
                p, q = m0.members[e['name']], m1.members[t.members[h]['name']]
                if kind == 'pdelta' and sx < 0: continue
                L, L1 = s.length(e), t.length(t.members[h])
                if s.length(e) <= 0: continue
                jumps = [x[2] for x in e['pt']]+[float(np.linalg.norm(geom.xyz(s, k)-geom.xyz(s, e['i']))) for k in geom.internal_nodes(s, e)]
                k = (c, 'member', h)
                for fr in (0, .12, .37, .5, .71, .88, 1):
                    x = min(fr*L, p.L()); y = min((1-fr)*L1 if sx < 0 else fr*L1, q.L())
                    if any(abs(x-j) < 1e-4*L for j in jumps): continue
                    for nm, g, sg, unit, sk in (
                        ('shear Fy', lambda o, z: o.shear('Fy', z, c), sx*sy, f, ob.FORCE), ('shear Fz', lambda o, z: o.shear('Fz', z, c), sx*sz, f, ob.FORCE),
                        ('moment Mz', lambda o, z: o.moment('Mz', z, c), sy, f*u, ob.MOMENT), ('moment My', lambda o, z: o.moment('My', z, c), sz, f*u, ob.MOMENT),
                        ('axial', lambda o, z: o.axial(z, c), 1, f, ob.FORCE), ('torque', lambda o, z: o.torque(z, c), 1, f*u, ob.MOMENT),
                        ('deflection dx', lambda o, z: o.deflection('dx', z, c), sx, u, ob.DISP), ('deflection dy', lambda o, z: o.deflection('dy', z, c), sy, u, ob.DISP),
                        ('deflection dz', lambda o, z: o.deflection('dz', z, c), sz, u, ob.DISP), ('rel_deflection dy', lambda o, z: o.rel_deflection('dy', z, c), sy, u, ob.DISP),
                        ('rel_deflection dz', lambda o, z: o.rel_deflection('dz', z, c), sz, u, ob.DISP)):
                        a[k+('%s at %.2f' % (nm, fr),)] = (sk, float(g(p, x))); b[k+('%s at %.2f' % (nm, fr),)] = (sk, sg*float(g(q, y))/unit)
                if kind == 'pdelta': continue
                for nm, ar, sg, unit, sk in (('shear', ('Fy',), sx*sy, f, ob.FORCE), ('shear', ('Fz',), sx*sz, f, ob.FORCE), ('moment', ('Mz',), sy, f*u, ob.MOMENT),
                                             ('moment', ('My',), sz, f*u, ob.MOMENT), ('axial', (), 1, f, ob.FORCE), ('torque', (), 1, f*u, ob.MOMENT)):
                    for w in ('max', 'min'):
                        o = w if sg > 0 else {'max': 'min', 'min': 'max'}[w]
                        a[k+('%s_%s%s' % (w, nm, ar),)] = (sk, float(getattr(p, w+'_'+nm)(*ar, c)))
                        b[k+('%s_%s%s' % (w, nm, ar),)] = (sk, sg*float(getattr(q, o+'_'+nm)(*ar, c))/unit)
                if h in deep and sx > 0:
                    for ar, sg in (('dy', sy), ('dz', sz)):
                        for w in ('max', 'min'):
                            o = w if sg > 0 else {'max': 'min', 'min': 'max'}[w]
                            a[k+('%s_deflection %s' % (w, ar),)] = (ob.DISP, float(getattr(p, w+'_deflection')(ar, c)))
                            b[k+('%s_deflection %s' % (w, ar),)] = (ob.DISP, sg*float(getattr(q, o+'_deflection')(ar, c))/u)
            for coll in ('plates', 'quads'):
                for h, e in getattr(s, coll).items():
                    p, q = getattr(m0, coll)[e['name']], getattr(m1, coll)[getattr(t, coll)[h]['name']]
                    k = (c, coll[:-1], h); back = h in T.spin
                    F, G = np.asarray(p.F(c), float).ravel(), np.asarray(q.F(c), float).ravel()
                    for nd in range(4):
                        j = (nd+2) % 4 if back else nd
                        for d0, sk, unit in ((0, ob.FORCE, f), (3, ob.MOMENT, f*u)):
                            w = T.R.T@G[6*j+d0:6*j+d0+3]/unit
                            for i in range(3):
                                n_ = 6*nd+d0+i; a[k+('F%d' % n_,)] = (sk, float(F[n_])); b[k+('F%d' % n_,)] = (sk, float(w[i]))
                    if back and not parallel(s, e): continue
                    mid = (lambda o: (0, 0)) if coll == 'quads' else (lambda o: (o.width()/2, o.height()/2))
                    for nm, sg, unit in (('moment', 1, f), ('shear', -1 if back else 1, f/u), ('membrane', 1, f/u**2)):
                        x = np.asarray(getattr(p, nm)(*mid(p), True, c), float).ravel(); y = np.asarray(getattr(q, nm)(*mid(q), True, c), float).ravel()
                        for i in range(len(x)): a[k+('%s[%d]' % (nm, i),)] = (ob.STRESS+nm, float(x[i])); b[k+('%s[%d]' % (nm, i),)] = (ob.STRESS+nm, sg*float(y[i])/unit)
        return a, b

def execute(sc, log, st):
    P18(sc, log, st).go()

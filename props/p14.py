"""P14: generating meshes never damages the rest of the model."""
import copy, io, sys
from sim.core import Violation, Skip, Rng
from sim.gen import Gen, analysis, EDITS
from sim import faults, geom, observe as ob
from sim.world import World, analyze, selected, add_mesh
from sim.spec import Spec, extract, diff, MODEL_ATTR, Inapplicable
from props.common import REAL
ID = 'P14'
TITLE = 'Generating meshes never damages the rest of the model'
RUNS = dict(quick=1100, thorough=40000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['the reference for a mesh is the same call made in an otherwise empty model',
               'annuli and frustra are at least one mesh size wide (narrower ones are refused with a division by zero)',
               'openings are entered before a mesh is generated']

KINDS = ('nodes', 'springs', 'members', 'plates', 'quads', 'meshes', 'aux', 'mats', 'secs')
LISTS = ('origin', 'x_control', 'y_control')

def mesh_call(g, r, h):
    s = g.step; mat = g.any_of('mats')
    kind = r.weighted([('rect', 5), ('annulus', 2), ('frustrum', 1.5), ('cylinder', 2)])
    t = r.num(1, 5, 2)
    near = r.chance(.5)         # on top of the frame, or away from it
    o = [float(s*r.randrange(0 if near else 6, 3 if near else 9)), float(s*r.randrange(2)), float(s*r.randrange(3))]
    if kind == 'rect':
        w, ht = float(s*r.pick([1, 2])), float(s*r.pick([1, 2]))
        kw = dict(mesh_size=float(s*r.pick([1, .75, 2, .5])), width=w, height=ht, thickness=t, mat=mat, kx_mod=r.pick([1, 1, .6]), ky_mod=r.pick([1, 1, .8]),
                  origin=o, plane=r.pick(['XY', 'YZ', 'XZ']), element_type=r.pick(['Quad', 'Rect']))
        if r.chance(.45): kw['x_control'] = [round(w*f, 3) for f in r.sample([.3, .5, .6, .85], r.randrange(1, 3))]
        if r.chance(.45): kw['y_control'] = [round(ht*f, 3) for f in r.sample([.3, .5, .6, .85], r.randrange(1, 3))]
        if r.chance(.3): del kw['plane']
        if r.chance(.3): kw['element_type'] = 'Quad'; del kw['element_type']
    else:
        if kind in ('annulus', 'frustrum'):
            ri = float(s); ro = ri*r.pick([2.1, 2.4]); ms = 2*3.1416*ri/r.pick([6, 7])
            if r.chance(.25): ro, ms = ri*r.pick([7.5, 9]), 2*3.1416*ri/r.pick([3.2, 4.3])      # wide enough for a transition ring
        if kind == 'annulus': kw = dict(mesh_size=ms, outer_radius=ro, inner_radius=ri, thickness=t, mat=mat, origin=o)
        elif kind == 'frustrum': kw = dict(mesh_size=ms, large_radius=ro, small_radius=ri, height=float(s), thickness=t, mat=mat, origin=o)
        else:
            o[dict(X=0, Y=1, Z=2)['Y']] = r.pick([0.0, float(s)*.5])
            kw = dict(mesh_size=s*r.pick([.9, .5]), radius=s*.8, height=float(s*r.pick([1, 1.6])), thickness=t, mat=mat, num_elements=r.pick([5, 6, None]), element_type=r.pick(['Quad', 'Rect']), origin=o)
        if r.chance(.3):
            kw['axis'] = r.pick(['X', 'Y', 'Z'])
        if r.chance(.4): kw.update(kx_mod=r.pick([1, .6]), ky_mod=1)
    if r.chance(.3): kw['start_node'] = 'N%d' % r.randrange(1, 30)
    if r.chance(.3): kw['start_element'] = '%s%d' % ('R' if kw.get('element_type') == 'Rect' else 'Q', r.randrange(1, 20))
    if r.chance(.15): kw.pop('origin')
    return kind, kw

def generate(r, tier):
    g = Gen(r, combos=(0, 3), nodes=(3, 5), panels=.4, mesh=0, small_mesh=True, autonames=.5)
    g.base()
    steps = g.ops
    pool = []
    todo, done = [], []
    n = r.randrange(1, 5 if tier == 'quick' else 8)
    big = 0
    for k in range(n):
        h = g.h('ms'); kind, kw = mesh_call(g, r, h)
        if kw.get('outer_radius', kw.get('large_radius', 0)) > 5*g.step:
            big += 1
            if big > 1: continue
        share = {}
        for a in LISTS:
            if a in kw and r.chance(.6):
                c = [i for i, p in enumerate(pool) if p[0] == a]
                if c and r.chance(.6):
                    i = r.pick(c)
                    if all(v < kw['width' if a == 'x_control' else 'height'] for v in pool[i][1]) if a != 'origin' else True:
                        kw[a] = list(pool[i][1])
                    else: continue
                else:
                    i = len(pool); pool.append([a, list(kw[a])])
                share[a] = i
        steps.append(['pmesh', h, r.pick([None, 'u'+h, 'MSH%d' % r.randrange(1, 6)]), kind, kw, share])
        if kind == 'rect' and r.chance(.25) and kw['width'] >= 2*g.step-1e-9:
            steps.append(['opening', h, 'op'+h, round(kw['width']*.55, 3), round(kw['height']*.3, 3), round(kw['width']*.25, 3), round(kw['height']*.3, 3)])
        (done if kind == 'cylinder' else todo).append(h)
        if share.get('origin') is not None and r.chance(.4):
            i = share['origin']; pool[i] = ['origin', list(pool[i][1])]
            v = [float(x+g.step*r.randrange(-2, 3)) for x in pool[i][1]]
            steps.append(['change', i, v]); pool[i] = ['origin', v]
        while r.chance(.45):
            x = r.random()
            if todo and x < .4:
                m = todo.pop(r.randrange(len(todo))); steps.append(['gen', m]); done.append(m)
            elif done and x < .5: steps.append(['gen', r.pick(done)])
            elif x < .65 and len(steps) > 5: steps.append(analysis(r, spec=g.spec)); done += todo; todo = []
            elif x < .72 and todo: steps.append(['interrupted', r.pick(todo), r.random(), r.pick(['KeyboardInterrupt', 'MemoryError'])])
            elif x < .8: steps.append(['anf', 'general', {}, dict(kind='line', frac=round(r.random()*.5, 4), exc='KeyboardInterrupt', file='Mesh.py')])
            else: g.edit(dict(node=1, member=1, panel=1, sup=1, mat=.2, delmember=.5, delnode=.4, rename=.6, nload=1))
    r.shuffle(todo)
    for m in todo:
        if r.chance(.6): steps.append(['gen', m]); done.append(m)
    steps.append(['compare', r.getrandbits(32), r.pick(['general', 'linear']), {}])
    return dict(steps=steps)

def snapshot(model):
    return {k: dict(getattr(model, MODEL_ATTR[k])) for k in KINDS}, extract(model)

def intact(model, before, where, allow=()):
    objs, ext = before
    for k in KINDS:
        d = getattr(model, MODEL_ATTR[k])
        for name, o in objs[k].items():
            if name not in d: raise Violation('lost', '%s: %s %r is no longer in the model' % (where, MODEL_ATTR[k], name))
            if d[name] is not o: raise Violation('replaced', '%s: %s %r has been replaced by another object' % (where, MODEL_ATTR[k], name))
    now = extract(model)
    for k in ext:
        cut = {n: now[k][n] for n in ext[k] if n in now[k]} if isinstance(now[k], dict) else now[k]
        if isinstance(now[k], dict):
            d = diff({k: ext[k]}, {k: cut})
            if d: raise Violation('damaged', '%s: %s' % (where, d))

def shape(mesh):
    els = []
    for e in mesh.elements.values():
        els.append((e.type, tuple(tuple(round(float(v), 6)+0.0 for v in (n.X, n.Y, n.Z)) for n in (e.i_node, e.j_node, e.m_node, e.n_node)),
                    round(float(e.t), 9), round(float(e.kx_mod), 9), round(float(e.ky_mod), 9)))
    return sorted(els), sorted(tuple(round(float(v), 6)+0.0 for v in (n.X, n.Y, n.Z)) for n in mesh.nodes.values())

def alone(spec, h, calls):
    """The same mesh in a model of its own."""
    from PyNite import FEModel3D
    m = FEModel3D()
    mat = spec.mats[spec.meshes[h]['kw']['mat']]
    name, kind, kw, openings = calls[h]
    m.add_material(mat['name'], mat['E'], mat['G'], mat['nu'], mat['rho'])
    add_mesh(m, spec, name, kind, copy.deepcopy(kw))
    for o in openings: m.meshes[name].add_rect_opening(*o)
    m.meshes[name].generate()
    return m, m.meshes[name]

class Run14:
    def __init__(self, sc, log, st):
        self.sc, self.log, self.st = sc, log, st
        self.w = World(log); self.calls = {}; self.pool = {}; self.hurt = set()
    @property
    def model(self): return self.w.model
    @property
    def spec(self): return self.w.spec

    def args_untouched(self, where):
        for i, (now, was) in self.pool.items():
            if now != was: raise Violation('argument', '%s changed an argument list of the caller from %s to %s' % (where, was, now))

    def pending(self):
        return [h for h, m in self.spec.meshes.items() if not m['generated'] and h not in self.hurt]

    def check_generated(self, hs, before, where):
        """The meshes `hs` have just come to life: they are whole, attached, and nothing else changed."""
        self.args_untouched(where)
        intact(self.model, before, where)
        objs = before[0]
        new = {k: [n for n in getattr(self.model, MODEL_ATTR[k]) if n not in objs[k]] for k in KINDS}
        want = dict(nodes=0, plates=0, quads=0)
        for h in hs:
            m = self.spec.meshes[h]
            mesh = self.model.meshes.get(m['name'])
            if mesh is None: raise Violation('lost', '%s: mesh %r is not in the model' % (where, m['name']))
            if not mesh.is_generated(): raise Violation('not-generated', '%s: mesh %r has not been generated' % (where, m['name']))
            am, ref = alone(self.spec, h, self.calls)
            a, b = shape(ref), shape(mesh)
            if a != b:
                d = [x for x in a[0] if x not in b[0]][:1], [x for x in b[0] if x not in a[0]][:1]
                raise Violation('shape', '%s: mesh %r has %d elements and %d nodes, alone in a model %d and %d; missing %s, unexpected %s'
                                % (where, m['name'], len(b[0]), len(b[1]), len(a[0]), len(a[1]), d[0], d[1]))
            for k, n in mesh.nodes.items():
                if n.name != k: raise Violation('attached', '%s: node %r of mesh %r is listed as %r' % (where, n.name, m['name'], k))
                if self.model.nodes.get(k) is not n: raise Violation('attached', '%s: node %r of mesh %r is not the node of that name in the model' % (where, k, m['name']))
                if k in objs['nodes']: raise Violation('attached', '%s: mesh %r took over node %r' % (where, m['name'], k))
            for k, e in mesh.elements.items():
                d = self.model.quads if e.type == 'Quad' else self.model.plates
                if e.name != k or d.get(k) is not e: raise Violation('attached', '%s: element %r of mesh %r is not the element of that name in the model' % (where, k, m['name']))
                for c in 'ijmn':
                    n = getattr(e, c+'_node')
                    if self.model.nodes.get(n.name) is not n: raise Violation('attached', '%s: element %r of mesh %r is attached to node %r which is not in the model' % (where, k, m['name'], n.name))
                    if mesh.nodes.get(n.name) is not n: raise Violation('attached', '%s: element %r of mesh %r is attached to node %r which is not part of the mesh' % (where, k, m['name'], n.name))
                want['quads' if e.type == 'Quad' else 'plates'] += 1
            want['nodes'] += len(mesh.nodes)
            self.st.inc('meshes checked'); self.st.inc('mesh elements', len(mesh.elements))
        for k, n in want.items():
            if len(new[k]) != n: raise Violation('count', '%s: %d new %s, the meshes have %d' % (where, len(new[k]), k, n))
        self.w.absorb()
        if not self.hurt: self.w.check_definition(where+': ')

    def go(self):
        for op in self.sc['steps']:
            self.st.inc('steps')
            getattr(self, 'do_'+op[0], self.edit)(op)

    def edit(self, op):
        if self.hurt and op[0] == 'rename': return        # would name nodes of a half-generated mesh, which nobody knows
        r = self.w.do(op)
        self.log.add(op[0], r if isinstance(r, str) else type(r).__name__)
        if op[0] == 'opening' and r == 'ok': self.calls[self.spec.ref('meshes', op[1])][3].append(op[2:7])
        if r == 'ok' and not self.hurt: self.w.check_definition('after %s: ' % op[0])

    def do_pmesh(self, op):
        _, h, name, kind, kw, share = op
        kw = copy.deepcopy(kw)
        for a, i in share.items():
            if i not in self.pool: v = list(kw[a]); self.pool[i] = (v, list(v))
            else: kw[a] = list(self.pool[i][1])
        o = ['mesh', h, name, kind, kw]
        try: self.w._check(o)
        except Inapplicable: self.log.add('pmesh inapplicable'); return
        before = snapshot(self.model)
        call = copy.deepcopy(kw)
        for a, i in share.items(): call[a] = self.pool[i][0]
        try: got = add_mesh(self.model, self.spec, name, kind, call)
        except Exception as e:
            raise Violation('refused', 'adding a %s mesh raises %s: %s' % (kind, type(e).__name__, e))
        self.st.inc('meshes added'); self.log.add('pmesh', kind, got)
        intact(self.model, before, 'adding a %s mesh' % kind)
        if name and got != name: raise Violation('name', 'the mesh added as %r is called %r' % (name, got))
        if got in before[0]['meshes']: raise Violation('name', 'a mesh added got the name %r, already taken' % got)
        self.spec.apply(o, got)
        self.calls[h] = (got, kind, copy.deepcopy(kw), [])
        if self.model.meshes[got].is_generated(): self.check_generated([h], before, 'adding %s mesh %r' % (kind, got))
        else:
            self.args_untouched('adding a mesh')
            if not self.hurt: self.w.check_definition('adding a mesh: ')

    def do_change(self, op):
        """The caller goes on using its own list for something else."""
        if op[1] in self.pool:
            self.pool[op[1]][0][:] = op[2]; self.pool[op[1]] = (self.pool[op[1]][0], list(op[2])); self.st.inc('argument lists reused')

    def do_gen(self, op):
        try: h = self.spec.ref('meshes', op[1])
        except Inapplicable: return
        if h in self.hurt: return
        m = self.spec.meshes[h]
        before = snapshot(self.model)
        fresh = not m['generated']
        try: self.model.meshes[m['name']].generate()
        except Exception as e: raise Violation('refused', 'generating %s mesh %r raises %s: %s' % (m['kind'], m['name'], type(e).__name__, e))
        self.log.add('gen', m['name'], fresh)
        self.st.inc('generated' if fresh else 'generated again')
        self.check_generated([h] if fresh else [], before, 'generating %s mesh %r%s' % (m['kind'], m['name'], '' if fresh else ' again'))

    def do_interrupted(self, op):
        """An explicit generation is struck; whatever becomes of that mesh, the rest of the model stays."""
        try: h = self.spec.ref('meshes', op[1])
        except Inapplicable: return
        m = self.spec.meshes[h]
        if m['generated'] or h in self.hurt: return
        twin = copy.deepcopy(self.model)
        n = faults.count_lines(twin.meshes[m['name']].generate)
        before = snapshot(self.model)
        c = faults.LineClock(max(1, min(n, 1+int(op[2]*n))), faults.EXC[op[3]])
        _, e = c.run(self.model.meshes[m['name']].generate)
        self.st.inc('fault '+op[3]); self.log.add('interrupted', c.fired)
        if e is None: raise Violation('swallowed', 'an interrupted generation reports success')
        intact(self.model, before, 'interrupted generation of mesh %r at %s' % (m['name'], c.fired))
        self.args_untouched('interrupted generation')
        self.hurt.add(h)            # nothing is promised about this mesh from here on

    def do_an(self, op, fault=None):
        if self.hurt: return
        hs = self.pending()
        before = snapshot(self.model)
        where = '%s analysis' % op[1]
        if fault is None: e = analyze(self.model, op[1], op[2])
        else:
            if not hs: return
            e, fired, at = faults.faulty_analysis(self.model, op[1], op[2], fault)
            where += ' with '+at
            if fired: self.st.inc('fault '+fault['exc'])
        self.log.add('an', op[1], type(e).__name__ if e else 'ok', len(hs))
        self.w.note_default_combo()
        before[1]['combos'] = {}
        live = [h for h in hs if self.model.meshes[self.spec.meshes[h]['name']].is_generated()]
        if not fault and len(live) < len(hs):
            raise Violation('not-generated', '%s: mesh %r was not generated (the analysis %s)' % (where, self.spec.meshes[[h for h in hs if h not in live][0]]['name'], 'raised %s' % e if e else 'completed'))
        if live: self.st.inc('generated by an analysis', len(live))
        self.check_generated(live, before, where)

    def do_anf(self, op): self.do_an(op, op[3])

    def do_compare(self, op):
        """Each mesh that stands by itself answers as in a model of its own."""
        if self.hurt: return
        r = Rng.derive('cmp', op[1])
        self.do_an(['an', op[2], {}]) if self.pending() else None
        spec = self.spec
        ties = {}
        for h, m in spec.meshes.items():
            own = set(m['gen_nodes'])
            if not own or any(n not in spec.nodes for n in own): continue
            els = {x for _, x in m['gen_els']}
            if len(els) > 45 or len(ties) > 1 or any(x not in spec.plates and x not in spec.quads for x in els): continue
            tied = any(own & {e['i'], e['j']} for e in list(spec.members.values())+list(spec.springs.values()))
            tied = tied or any(own & set(geom.internal_nodes(spec, e)) for e in spec.members.values())
            tied = tied or any(own & {e[c] for c in 'ijmn'} for k in ('plates', 'quads') for x, e in getattr(spec, k).items() if x not in els)
            tied = tied or any(any(spec.nodes[n]['sup']) or spec.nodes[n]['spr'] or spec.nodes[n]['enf'] or spec.nodes[n]['loads'] for n in own)
            if not tied: ties[h] = None
        if not ties: return
        # every mesh stands on its lowest nodes; loads by position, so that the model of its own gets the same
        refs = {}
        for h in ties:
            m = spec.meshes[h]
            am, ref = alone(spec, h, self.calls)
            refs[h] = (am, ref)
            pos = {}
            for x in m['gen_nodes']: pos.setdefault(tuple(round(float(v), 6)+0.0 for v in geom.xyz(spec, x)), []).append(x)
            axis = max(range(3), key=lambda a: max(p[a] for p in pos)-min(p[a] for p in pos))
            low = sorted(p[axis] for p in pos)[:max(3, len(pos)//4)][-1]
            for n in ref.nodes.values():
                p = tuple(round(float(v), 6)+0.0 for v in (n.X, n.Y, n.Z))
                if len(pos.get(p, ())) != 1: raise Skip('coincident nodes in one mesh')
                if p[axis] <= low+1e-9:
                    self.w.do(['sup', pos[p][0], [True]*6]); am.def_support(n.name, *[True]*6)
                else:
                    P = r.num(-3, 3, 2) or 1.0; d = r.pick(['FX', 'FY', 'FZ']); case = r.pick(['D', 'L', 'Case 1'])
                    self.w.do(['nload', pos[p][0], d, P, case]); am.add_node_load(n.name, d, P, case)
            ties[h] = pos
            for c, e in spec.combos.items():
                if c not in am.load_combos: am.add_load_combo(c, dict(e['factors']), e['tags'])
        if not geom.surely_stable(spec): self.st.inc('rest not stable'); return
        hot = list(spec.combos) or ['Combo 1']
        e = analyze(self.model, op[2], {})
        self.w.note_default_combo()
        if e is not None:
            self.st.inc('analysis failed'); return      # judged by other properties; here a comparison is lost
        for h, pos in ties.items():
            am, ref = refs[h]; m = spec.meshes[h]
            ea = analyze(am, op[2], {})
            if ea is not None: raise Skip('mesh alone unstable')
            mesh = self.model.meshes[m['name']]
            for c in hot:
                big = max([abs(float(getattr(n, d)[c])) for n in ref.nodes.values() for d in ('DX', 'DY', 'DZ')]+[1e-9])
                for n in ref.nodes.values():
                    p = tuple(round(float(v), 6)+0.0 for v in (n.X, n.Y, n.Z))
                    x = self.model.nodes[spec.nodes[pos[p][0]]['name']]
                    for d in ('DX', 'DY', 'DZ'):
                        a, b = float(getattr(n, d)[c]), float(getattr(x, d)[c])
                        if not abs(a-b) <= 1e-5*big: raise Violation('company', 'mesh %r, combination %s: %s of the node at %s is %.9g, alone in a model %.9g' % (m['name'], c, d, p, b, a))
                if c != hot[r.randrange(len(hot))]: continue
                for f, q in (('moment', r.pick(['Mx', 'My', 'Mxy'])), ('shear', r.pick(['Qx', 'Qy']))):
                    vs = [[float(getattr(z, w+f)(q, c)) for w in ('max_', 'min_')] for z in (ref, mesh)]
                    s = max(abs(v) for v in vs[0]+vs[1])
                    for w, a, b in zip(('max_', 'min_'), *vs):
                        if not abs(a-b) <= 1e-4*max(s, 1e-3): raise Violation('company', 'mesh %r, combination %s: %s of %s is %.9g, alone in a model %.9g' % (m['name'], c, w+f, q, b, a))
            self.st.inc('meshes compared with the same mesh alone')

def execute(sc, log, st):
    Run14(sc, log, st).go()

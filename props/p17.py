"""P17: a member crossed by other nodes still answers as one member."""
import copy, math
import numpy as np
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, posed, observe as ob
from sim.refsolver import axes
from sim.world import selected, build, analyze
from props.p11 import panel_bad
from props.common import REAL
ID = 'P17'
TITLE = 'A member crossed by other nodes still answers as one member'
RUNS = dict(quick=600, thorough=30000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['nodes that merely lie along a member carry no element, support or imposed displacement; a load on one is the same as a point load on the member',
               'one-way members are not crossed (the library decides about them as a whole)',
               'after a second-order analysis only the agreement of queries with each other is judged: dividing a member refines that theory',
               'extreme deflections are found by sampling, extreme moments of a second-order analysis at the extremes of the first-order part: both are judged within what that allows']
TOL = 2e-6
GRID = np.linspace(0, 1, 1201)

def along(spec, h):
    """(member, distance) when the node merely lies along exactly one member, else None."""
    n = spec.nodes[h]
    if any(n['sup']) or n['spr'] or n['enf']: return None
    for e in list(spec.members.values())+list(spec.springs.values()):
        if h in (e['i'], e['j']): return None
    for e in list(spec.plates.values())+list(spec.quads.values()):
        if h in [e[c] for c in 'ijmn']: return None
    ms = [m for m, e in spec.members.items() if h in geom.internal_nodes(spec, e)]
    if len(ms) != 1: return None
    return ms[0], float(np.linalg.norm(geom.xyz(spec, h)-geom.xyz(spec, spec.members[ms[0]]['i'])))

def undivided(spec):
    """The definition without the nodes that merely lie along members, and where those were."""
    t = spec.copy(); where = {}
    for h in list(spec.nodes):
        a = along(spec, h)
        if a is None: continue
        m, x = a; where[h] = a
        L = spec.length(spec.members[m])
        for d, P, case in spec.nodes[h]['loads']: t.members[m]['pt'].append([d, P, min(x, L), case])
        del t.nodes[h]
    return t, where

def cross(g, r):
    """Nodes along members."""
    s = g.spec; out = False
    ms = [h for h, e in s.members.items() if not e['t'] and not e['c']]
    if not ms: return False
    m = r.pick(ms); e = s.members[m]
    a, b = geom.xyz(s, e['i']), geom.xyz(s, e['j']); L = s.length(e)
    for _ in range(r.weighted([(1, 5), (2, 3), (3, 1), (5, .4)])):
        f = r.pick([.5, .25, .75, .3, .7, .1, .9, round(r.uniform(.04, .96), 3)])
        if r.chance(.4):
            xs = [p[2] for p in e['pt']]+[x for d in e['dist'] for x in (d[3], d[4])]
            xs = [x for x in xs if .03*L < x < .97*L]
            if xs: f = r.pick(xs)/L
        c = a+f*(b-a); h = g.h('c')
        if r.chance(.4): c = c+np.array([r.uniform(-1, 1)*r.pick([0, 1]) for _ in range(3)])*L*r.pick([1e-16, 1e-15, 1e-13, 1e-11, 1e-9])      # as near as round-off allows, or somewhat less
        if min(np.linalg.norm(geom.xyz(g.spec, k)-c) for k in g.spec.nodes) < .03*L: continue
        rough = r.chance(.7)
        ops = [['node', h, g.nm('n', h)]+[float(x) if rough else float(round(x, 9)) for x in c]]
        if g.emit(*ops):
            out = True
            if r.chance(.2): g.emit(g.op_nload(h))
    return out

def many(g, r):
    """More nodes along one member than there are letters."""
    s = g.spec; ms = [h for h, e in s.members.items() if not e['t'] and not e['c']]
    if not ms: return False
    e = s.members[r.pick(ms)]; n = r.randrange(27, 34)
    a, b = geom.xyz(s, e['i']), geom.xyz(s, e['j']); ops = []
    fs = [(i+1+r.uniform(-.2, .2))/(n+1) for i in range(n)]; r.shuffle(fs)
    for f in fs:
        c = a+f*(b-a)
        if min(np.linalg.norm(geom.xyz(s, k)-c) for k in s.nodes) < .004*s.length(e): continue
        h = g.h('c'); ops.append(['node', h, None if g.auto else 'u'+h]+[float(round(x, 9)) for x in c])
    return g.emit(*ops)

def uncross(g, r):
    hs = [h for h in g.spec.nodes if along(g.spec, h)]
    if not hs: return False
    for h in r.sample(hs, min(len(hs), r.randrange(1, 3))):
        pre = g._names_of([['delnode', h]])
        if g.emit(['delnode', h]):
            for k, v in pre: g.freed.setdefault(k, []).append(v)
    return True

def generate(r, tier):
    g = Gen(r, combos=(0, 3), nodes=(2, 5), extra=(0, 2), panels=.15, mesh=.06, small_mesh=True, tc=.2, oneway=.25, rel=.5, internal=.3, selfw=.3, aux=.4, sec=.4, loads=(3, 8))
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT); w.update(mpt=4, mdist=5, mesh=.1, rel=2)
    if r.chance(.1):      # opposite triangles: together uniform, apart not
        m = g.any_of('members')
        c = g.case(); v = r.num(.02, .2, 3); d = r.pick(['Fy', 'Fz', 'FY', 'Fx'])
        g.emit(['mdist', m, d, v, 0.0, None, None, c]); g.emit(['mdist', m, d, 0.0, v, None, None, c])
    for k in range(r.randrange(1, 3 if tier == 'quick' else 7)):
        if r.chance(.85): cross(g, r)
        if r.chance(.3): cross(g, r)
        if r.chance(.1): steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        steps.append(analysis(r, spec=g.spec))
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 3])
        if r.chance(.4): uncross(g, r)
        for _ in range(r.randrange(0, 4)): g.edit(w)
    if r.chance(.5): cross(g, r)
    if r.chance(.04): many(g, r)
    steps.append(analysis(r, spec=g.spec))
    return dict(steps=steps)

QS = [('shear', 'Fy', ob.FORCE, 2), ('shear', 'Fz', ob.FORCE, 2), ('moment', 'My', ob.MOMENT, 3), ('moment', 'Mz', ob.MOMENT, 3), ('axial', None, ob.FORCE, 2),
      ('torque', None, ob.MOMENT, 0), ('deflection', 'dy', ob.DISP, 5), ('deflection', 'dz', ob.DISP, 5), ('deflection', 'dx', ob.DISP, 3)]

def point(m, q, d, x, c):
    f = getattr(m, q)
    return float(f(x, c) if d is None else f(d, x, c))

class P17(Run):
    def analysed(self, kind, opts, e):
        s = self.spec
        if not geom.valid(s) or any(panel_bad(s)): self.st.inc('not judged: outside the documented domain'); return
        if not all(x['generated'] for x in s.meshes.values()): self.st.inc('not judged: mesh not generated'); return
        if not geom.surely_stable(s): self.st.inc('not judged: nearly singular'); return
        r = Rng.derive('look', self.i, len(self.sc['steps']))
        t, where = undivided(s)
        if e is not None:
            if kind != 'pdelta' and where and analyze(build(t), kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'sparse', 'max_iter')}) is None:
                self.unless_ambiguous(kind, opts, 'outcome', 'without the %d nodes along members the analysis succeeds, with them it fails: %r' % (len(where), e))
            return
        combos = selected(s, opts)
        self.st.inc('nodes along members', len(where))
        if kind != 'pdelta' and where: self.against_undivided(kind, opts, t, where, combos, r)
        look = combos if len(combos) <= 2 else r.sample(combos, 2)
        for c in look: self.consistent(c, r)

    # ---- the divided structure against the undivided one
    def against_undivided(self, kind, opts, t, where, combos, r):
        s, m0 = self.spec, self.model
        m1 = build(t)
        e = analyze(m1, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'sparse', 'max_iter')})
        if e is not None:
            self.unless_ambiguous(kind, opts, 'outcome', 'with %d nodes along members the analysis succeeds, without them it fails: %r' % (len(where), e)); return
        self.st.inc('compared with the undivided structure')
        v0, v1 = {}, {}
        for c in combos:
            for v, m in ((v0, m0), (v1, m1)):
                for h, n in t.nodes.items():
                    o = m.nodes[n['name']]
                    for i in range(6):
                        v[c, 'node', h, ob.DIS[i]] = (ob.DISP if i < 3 else ob.ROT, float(getattr(o, ob.DIS[i])[c]))
                        v[c, 'node', h, ob.RXN[i]] = (ob.FORCE if i < 3 else ob.MOMENT, float(getattr(o, ob.RXN[i])[c]))
            for h, e in t.members.items():
                L = t.length(e)
                jumps = [p[2] for p in e['pt']]+[float(np.linalg.norm(geom.xyz(t, k)-geom.xyz(t, e['i']))) for k in geom.internal_nodes(t, e)]
                xs = sorted({f*L for f in (0, .1, .25, .37, .5, .62, .75, .9, 1)} | {x for k, (mm, x) in where.items() if mm == h})
                xs = [x for x in xs if x <= L and not any(abs(x-j) < 1e-4*L for j in jumps)]
                for v, m in ((v0, m0), (v1, m1)):
                    o = m.members[e['name']]; k = (c, 'member', h)
                    v[k+('active',)] = (ob.FLAG, bool(o.active[c]))
                    for q, d, sk, deg in QS:
                        for x in xs: v[k+('%s %s at %.6g' % (q, d, x),)] = (sk, point(o, q, d, x, c))
                        if q != 'deflection':
                            a = () if d is None else (d,)
                            for wv in ('max_', 'min_'): v[k+('%s%s %s' % (wv, q, d),)] = (sk, float(getattr(o, wv+q)(*a, c)))
                    for d in ('dy', 'dz'):
                        for x in xs: v[k+('rel_deflection %s at %.6g' % (d, x),)] = (ob.DISP, float(o.rel_deflection(d, x, c)))
            for h, (mm, x) in where.items():
                e = t.members[mm]; o = m1.members[e['name']]; n = m0.nodes[s.nodes[h]['name']]
                T = axes(t, e)
                D = T@np.array([float(getattr(n, a)[c]) for a in ('DX', 'DY', 'DZ')])
                for i, d in enumerate(('dx', 'dy', 'dz')):
                    k = (c, 'node', h, 'displacement %s on member %s' % (d, mm))
                    v0[k] = (ob.DISP, float(D[i])); v1[k] = (ob.DISP, point(o, 'deflection', d, x, c))
        self.st.inc('values compared', len(v0))
        d = ob.compare(v1, v0, ob.lc(s), TOL)
        self.log.add(self.i, kind, 'undivided', ob.digest(v0))
        if d: self.unless_ambiguous(kind, opts, 'divided', '%s, nodes %s along members: undivided/divided: %s' % (kind, {h: (m, round(x, 4)) for h, (m, x) in where.items()}, d))

    def unless_ambiguous(self, kind, opts, cls, detail):
        why = None if geom.surely_stable(self.spec) else 'nearly singular'
        why = why or posed.ambiguous(self.spec, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'max_iter')}, TOL)
        if why: self.st.inc('not judged: '+why); return
        raise Violation(cls, detail)

    # ---- queries of one member against each other
    def consistent(self, c, r):
        s, model = self.spec, self.model
        pd = model.solution == 'P-Delta'
        big = {}
        got = {}
        dis = max([abs(float(getattr(model.nodes[n['name']], a)[c])) for n in s.nodes.values() for a in ('DX', 'DY', 'DZ')]+[1e-7])
        for h, e in s.members.items():
            o = model.members[e['name']]; L = s.length(e)
            if not o.active[c]:
                self.idle(o, L, c); continue
            brk = [0.0, L]+[p[2] for p in e['pt']]+[min(x, L) for d in e['dist'] for x in (d[3], d[4])]
            brk += [float(np.linalg.norm(geom.xyz(s, k)-geom.xyz(s, e['i']))) for k in geom.internal_nodes(s, e)]
            pieces = []; bs = sorted(brk)
            close = any(0 < y-x <= 1e-6*L for x, y in zip(bs, bs[1:]))     # a load within round-off of a node: either side is right
            for x in bs:
                if not pieces or x-pieces[-1] > 1e-6*L: pieces.append(x)
            pieces[-1] = L if L-pieces[-1] < 1e-5*L else pieces[-1]
            got[h] = (o, L, pieces, {}, close)
            for q, d, sk, deg in QS:
                out = []
                for a, b in zip(pieces, pieces[1:]):
                    t = np.array([.04, .17, .33, .5, .68, .83, .96])
                    out.append((t, np.array([point(o, q, d, a+(b-a)*f, c) for f in t])))
                got[h][3][q, d] = out
                mx = max(np.abs(v).max() for _, v in out)
                big[sk] = max(big.get(sk, 0), mx)
        if not got: return
        ext = ob.lc(s)
        F = max(big.get(ob.FORCE, 0), big.get(ob.MOMENT, 0)/ext, 1e-6)
        scale = {ob.FORCE: F, ob.MOMENT: max(big.get(ob.MOMENT, 0), F*ext), ob.DISP: max(dis, big.get(ob.DISP, 0))}
        # round-off of end forces that are differences of large numbers
        for h, (o, L, pieces, vals, close) in got.items():
            e = s.members[h]
            self.st.inc('members looked at')
            seg = min(b-a for a, b in zip(pieces, pieces[1:]))
            for q, d, sk, deg in QS:
                sc = scale[sk]; tol = 2e-6*sc+1e-12
                a1 = () if d is None else (d,)
                name = 'member %s, combination %s, %s %s' % (h, c, q, d)
                # arrays against points
                xs, want = [], []
                for (a, b), (t, v) in zip(zip(pieces, pieces[1:]), vals[q, d]):
                    for f, y in zip(t, v):
                        if r.chance(.5): xs.append(a+(b-a)*f); want.append(y)
                if xs and d != 'dx':
                    ar = np.asarray(getattr(o, q+'_array')(*a1, 5, c, np.array(xs)), float)
                    if ar.shape != (2, len(xs)): raise Violation('array', '%s: the array of %d points has shape %s' % (name, len(xs), ar.shape))
                    if np.abs(ar[0]-xs).max() > 1e-9*L: raise Violation('array', '%s: the array answers for other places than asked' % name)
                    bad = np.abs(ar[1]-want)
                    if not bad.max() <= tol: i = int(bad.argmax()); raise Violation('array', '%s at %.6g of %.6g: array %.9g, point %.9g' % (name, xs[i], L, ar[1][i], want[i]))
                    n = r.pick([2, 5, 9, 20]); ar = np.asarray(getattr(o, q+'_array')(*a1, n, c), float)
                    if ar.shape != (2, n) or np.abs(ar[0]-np.linspace(0, L, n)).max() > 1e-9*L: raise Violation('array', '%s: the array of %d points is not over the member' % (name, n))
                    for x, y in zip(ar[0], ar[1]):
                        if q != 'deflection' and min(abs(x-p) for p in pieces) < 1e-6*L: continue
                        p = point(o, q, d, min(x, L), c)
                        if not abs(y-p) <= tol: raise Violation('array', '%s at %.6g of %.6g: array %.9g, point %.9g' % (name, x, L, y, p))
                    self.st.inc('arrays compared', 2)
                if d == 'dx': continue
                # extremes against points
                lo, hi = float(getattr(o, 'min_'+q)(*a1, c)), float(getattr(o, 'max_'+q)(*a1, c))
                self.st.inc('extremes compared', 2)
                if not (math.isfinite(lo) and math.isfinite(hi)): raise Violation('extreme', '%s: extremes %r and %r' % (name, lo, hi))
                tlo, thi, slack, over = np.inf, -np.inf, 0.0, 0.0
                if pd and (q == 'deflection' or q == 'moment'):
                    # not polynomials: sampled
                    h2 = 0.0; vlo, vhi = np.inf, -np.inf; step, last = 0.0, None
                    for (a, b) in zip(pieces, pieces[1:]):
                        f = np.linspace(1e-7, 1-1e-7, 41)
                        y = np.array([point(o, q, d, a+(b-a)*x, c) for x in f])
                        h2 = max(h2, np.abs(np.diff(y, 2)).max()); step = max(step, 0 if last is None else abs(y[0]-last)); last = y[-1]
                        tlo, thi = min(tlo, y.min()), max(thi, y.max())
                        vlo, vhi = min(vlo, y[0], y[-1]), max(vhi, y[0], y[-1])
                    # the second-order parts may step where the loading changes
                    y = np.array([point(o, q, d, x, c) for x in [*pieces, L]]); tlo, thi = min(tlo, y.min()), max(thi, y.max())
                    out = h2/6+tol
                    if q == 'moment':
                        if hi < vhi-tol or lo > vlo+tol: raise Violation('extreme', '%s (second order): reported %.9g to %.9g, but %.9g and %.9g occur at the ends of its pieces' % (name, lo, hi, vlo, vhi))
                        if (hi > thi+out or lo < tlo-out) and not close: raise Violation('extreme', '%s (second order): reported %.9g to %.9g, the moments range from %.9g to %.9g' % (name, lo, hi, tlo, thi))
                        continue
                    slack, over = out+4*h2+step, math.inf      # near the buckling load the library's series has poles
                else:
                    for (a, b), (t, v) in zip(zip(pieces, pieces[1:]), vals[q, d]):
                        p = np.polynomial.Polynomial.fit(t, v, deg, domain=[0, 1], window=[0, 1])
                        if np.abs(p(t)-v).max() > 20*tol: raise Violation('shape', '%s between %.6g and %.6g is no polynomial of degree %d' % (name, a, b, deg))
                        y = p(GRID)
                        tlo, thi = min(tlo, float(y.min())), max(thi, float(y.max()))
                        if q == 'deflection':
                            g = np.linspace(0, 1, 21); slack = max(slack, np.abs(p.deriv(2)(g)).max()/(b-a)**2*(L/99)**2/8)
                # extrapolating to the ends of short pieces costs a few digits
                tol2 = 6*tol
                if (hi > thi+tol2+over or lo < tlo-tol2-over) and not close: raise Violation('extreme', '%s: reported extremes %.9g to %.9g, the values range from %.9g to %.9g' % (name, lo, hi, tlo, thi))
                if hi < thi-tol2-1.1*slack or lo > tlo+tol2+1.1*slack: raise Violation('extreme', '%s: reported extremes %.9g to %.9g, but values from %.9g to %.9g occur' % (name, lo, hi, tlo, thi))
            # relative deflections are deflections from the chord
            for d in ('dy', 'dz'):
                k = 1 if d == 'dy' else 2; ax = axes(s, e)[k]
                d0, d1 = [float(ax@np.array([float(getattr(model.nodes[s.nodes[e[z]]['name']], q)[c]) for q in ('DX', 'DY', 'DZ')])) for z in 'ij']
                xs = [L*f for f in (0, .21, .5, .83, 1)]
                ar = np.asarray(o.rel_deflection_array(d, 5, c, np.array(xs)), float)
                for i, x in enumerate(xs):
                    want = point(o, 'deflection', d, x, c)-(d0+(d1-d0)*x/L)
                    y = float(o.rel_deflection(d, x, c))
                    if pd: want = y         # relative deflections leave out what second-order theory adds between the ends
                    if not abs(y-want) <= 4e-6*scale[ob.DISP]: raise Violation('relative', 'member %s, combination %s: rel_deflection %s at %.6g is %.9g, deflections and the chord give %.9g' % (h, c, d, x, y, want))
                    if not abs(ar[1][i]-want) <= 4e-6*scale[ob.DISP]: raise Violation('relative', 'member %s, combination %s: rel_deflection_array %s at %.6g is %.9g, deflections and the chord give %.9g' % (h, c, d, x, ar[1][i], want))
        self.log.add(c, '%.6g' % F, '%.6g' % scale[ob.DISP])

    def idle(self, o, L, c):
        """A one-way member that is out of action carries nothing."""
        self.st.inc('idle members looked at')
        for q, d, sk, deg in QS:
            a1 = () if d is None else (d,)
            if q == 'deflection': continue
            vals = [point(o, q, d, .4*L, c), float(getattr(o, 'max_'+q)(*a1, c)), float(getattr(o, 'min_'+q)(*a1, c))]+list(np.asarray(getattr(o, q+'_array')(*a1, 4, c), float)[1])
            if any(v != 0 for v in vals): raise Violation('idle', 'member %s is out of action in combination %s but %s %s shows %s' % (o.name, c, q, d, vals))

def execute(sc, log, st):
    P17(sc, log, st).go()

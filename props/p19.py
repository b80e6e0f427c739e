"""P19: first-order results superpose."""
import math
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, posed, observe as ob
from sim.world import selected, build, analyze
from props.p11 import panel_bad
from props.common import REAL
ID = 'P19'
TITLE = 'First-order results superpose'
RUNS = dict(quick=500, thorough=25000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['first-order analyses of structures without one-way parts; extremes are not superposed, every other query is',
               'imposed displacements act once in every combination, whatever its factors: they are part of the response to no load at all',
               'equations with a condition above 1e10 and answers that change when stiffness and loads change by 1e-9 are counted and not judged']
TOL = 2e-7

def generate(r, tier):
    g = Gen(r, combos=(1, 4), nodes=(3, 6), panels=.35, mesh=.12, small_mesh=True, sprsup=.5, oneway=0, tc=0, enf=.4, internal=.5, aux=.4, rel=.4, selfw=.3, loads=(4, 9))
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT); w.update(mesh=.1, merge=.2, combo=3, nload=2, mpt=3, mdist=4, pressure=1)
    for k in range(r.randrange(1, 4 if tier == 'quick' else 9)):
        if r.chance(.35): factors(g, r)
        if r.chance(.12): steps.append(['anf']+analysis(r, pdelta=False, spec=g.spec)[1:]+[faults.random_fault(r)])
        steps.append(analysis(r, pdelta=r.chance(.1), spec=g.spec))
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 4])
        for _ in range(r.randrange(0, 5)): g.edit(w)
    factors(g, r)
    steps.append(analysis(r, pdelta=False, spec=g.spec))
    return dict(steps=steps)

def cases_of(s):
    out = []
    def add(c):
        if c not in out: out.append(c)
    for n in s.nodes.values():
        for l in n['loads']: add(l[2])
    for m in s.members.values():
        for p in m['pt']: add(p[3])
        for d in m['dist']: add(d[5])
    for p in list(s.plates.values())+list(s.quads.values()):
        for q in p['pr']: add(q[1])
    return out

def factors(g, r):
    """Combinations with factors of every sort."""
    cs = cases_of(g.spec)
    if not cs: return
    f = lambda: r.pick([1, 1.2, 1.6, -1, -.5, .9, 0, 0.0, 2, r.num(-3, 3, 3), r.num(.01, .2, 4), 25.0])
    names = list(g.spec.combos)
    name = r.pick(names) if names and r.chance(.4) else 'U%d' % len(names)
    some = r.sample(cs, r.randrange(1, len(cs)+1))
    g.emit(['combo', name, {c: f() for c in some}, g.spec.combos[name]['tags'] if name in g.spec.combos else r.pick([None, None, ['x'], ['strength']])])

class P19(Run):
    def analysed(self, kind, opts, e):
        s = self.spec
        if e is not None or kind == 'pdelta': return
        if posed.one_way(s): self.st.inc('not judged: one-way parts'); return
        if not geom.valid(s) or any(panel_bad(s)): self.st.inc('not judged: outside the documented domain'); return
        if not all(x['generated'] for x in s.meshes.values()): self.st.inc('not judged: mesh not generated'); return
        if not geom.surely_stable(s): self.st.inc('not judged: nearly singular'); return
        combos = selected(s, opts)
        r = Rng.derive('sup', self.i, len(self.sc['steps']))
        cases = [c for c in cases_of(s) if any(c in s.combos[k]['factors'] for k in combos)]
        t = s.copy()
        t.combos = {' none': dict(factors={}, tags=None)}
        scale = {c: r.pick([1.0, 1.0, 4.0, .5, -2.0]) for c in cases}
        for c in cases: t.combos[' only '+c] = dict(factors={c: scale[c]}, tags=None)
        f = build(t)
        kind2 = r.pick(['general', 'linear'])
        e2 = analyze(f, kind2, {'sparse': r.chance(.5)})
        if e2 is not None:
            raise Violation('outcome', 'combinations %s were analysed, but the load cases alone fail: %r' % (combos, e2))
        one = ob.observe(f, t, list(t.combos))
        got = ob.observe(self.model, s, combos)
        linear = lambda k: not k[3].startswith(('max_', 'min_')) and k[3] != 'active'
        L = ob.lc(s)
        for c in combos:
            fs = {k: v for k, v in s.combos[c]['factors'].items() if k in cases}
            want, big = {}, {}
            for k in got:
                if k[0] != c or not linear(k): continue
                rest = k[1:]
                t0, v0 = one[(' none',)+rest]
                vs = [(a, one[(' only '+q,)+rest][1], scale[q]) for q, a in fs.items()]
                if isinstance(v0, str) or any(isinstance(v, str) for _, v, _ in vs): want[k] = (t0, v0 if isinstance(v0, str) else next(v for _, v, _ in vs if isinstance(v, str))); continue
                want[k] = (t0, v0+math.fsum(a*(v-v0)/z for a, v, z in vs))
                b = abs(v0)+sum(abs(a)*abs(v-v0)/abs(z) for a, v, z in vs)
                if b > big.get(t0, 0): big[t0] = b
            sub = {k: v for k, v in got.items() if k[0] == c and linear(k)}
            extra = {(c, 'scale', t0, 'scale'): (t0, b) for t0, b in big.items()}       # cancellation: what the parts amount to
            self.st.inc('values compared', len(sub)); self.st.inc('combinations superposed')
            d = ob.compare({**want, **extra}, {**sub, **extra}, L, TOL)
            if d:
                why = posed.ambiguous(s, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'max_iter')}, TOL)
                if why: self.st.inc('not judged: '+why); return
                raise Violation('superposition', '%s, combination %s with factors %s is not the sum of its load cases: %s' % (kind, c, s.combos[c]['factors'], d))
        self.log.add('  superposed', ob.digest(got))

def execute(sc, log, st):
    P19(sc, log, st).go()

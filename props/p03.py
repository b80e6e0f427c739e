"""P03: load combinations are solved independently of one another."""
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, TAGS
from sim import faults, geom, observe as ob
from sim.world import selected, build, analyze
from props.common import REAL
ID = 'P03'
TITLE = 'Load combinations are solved independently of one another'
RUNS = dict(quick=420, thorough=14000)
STUBS = ['standard output (captured)']
W = dict(combo=5, nload=3, spr=2, spring=1.5, member=1.5, mpt=1, mdist=1, setf=3, sup=.7, enf=.5, delnode=.3, delmember=.4)

def generate(r, tier):
    g = Gen(r, combos=(2, 5), oneway=.85, tc=.75, springs=.55, sprsup=.8, loads=(4, 9), tags=.7, mesh=.08, panels=.2)
    g.base()
    if r.chance(.4):
        for _ in range(r.randrange(1, 3)): g.tryedit('spr')
    steps = g.ops
    for k in range(r.randrange(1, 3 if tier == 'quick' else 6)):
        if k:
            for _ in range(r.randrange(1, 4)): g.edit(W)
        if r.chance(.15):
            a = analysis(r, spec=g.spec); steps.append(['anf', a[1], a[2], faults.random_fault(r)])
        steps.append(analysis(r, spec=g.spec, tags=.45))
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 4])
    return dict(steps=steps)

class P03(Run):
    def analysed(self, kind, opts, e):
        spec = self.spec
        if not geom.valid(spec): raise Skip('definition outside the documented domain')
        want = selected(spec, opts)
        alone = {c: {k: v for k, v in opts.items() if k not in ('combo_tags', 'log')} for c in want}
        L = ob.lc(spec)
        if e is None:
            a, b = ob.result_keys(self.model)
            if a != set(want) or b != set(want):
                raise Violation('selection', 'combinations %s were selected; displacements are there for %s, reactions for %s' % (want, a, b))
        fails = []
        got = self.view(combos=want) if e is None else None
        acts = set()
        for c in want:
            m = build(spec, combos=[c])
            e2 = analyze(m, kind, alone[c])
            self.st.inc('reference analyses')
            if e2 is not None:
                fails.append((c, e2))
                if e is None: raise Violation('outcome', 'combination %s alone fails (%r), together with %s the analysis succeeds' % (c, e2, want))
                continue
            if e is None:
                v = ob.observe(m, spec, [c])
                mine = {k: x for k, x in got.items() if k[0] == c}
                acts.add(tuple(x for k, x in v.items() if k[3] == 'active'))
                d = ob.compare(v, mine, L, self.tol)
                self.st.inc('values compared', len(v))
                if d: raise Violation('results', 'analysed together with %s (%s): %s' % ([x for x in want if x != c], kind, d))
        if len(acts) > 1: self.st.inc('analyses with combinations engaging differently')
        if e is not None and want and not fails:
            raise Violation('outcome', 'each of %s can be solved alone, together the analysis fails: %r' % (want, e))
        if e is None:
            self.log.add(ob.digest(got))
            # the same combinations entered in another order
            perm = list(spec.combos); Rng.derive('perm', self.i, len(self.sc['steps'])).shuffle(perm)
            if perm != list(spec.combos) and len(perm) > 1:
                m = build(spec, combos=perm); e2 = analyze(m, kind, {k: v for k, v in opts.items() if k != 'log'})
                self.same_outcome(e, e2, 'combinations entered in the order %s: ' % perm)
                d = ob.compare(got, ob.observe(m, spec, want), L, self.tol)
                if d: raise Violation('results', 'combinations entered in the order %s: %s' % (perm, d))

def execute(sc, log, st):
    P03(sc, log, st).go()

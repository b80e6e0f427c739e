"""P02: a failed or interrupted analysis never passes for a solved model."""
from sim.core import Violation, Skip
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import extract, diff
from sim.world import selected
from props.common import REAL
ID = 'P02'
TITLE = 'A failed or interrupted analysis never passes for a solved model'
RUNS = dict(quick=500, thorough=15000)
STUBS = ['standard output (captured; fails on demand)', 'linear solver entry points (real, wrapped to fail on demand)']

def generate(r, tier):
    g = Gen(r, oneway=.6, tc=.5, mesh=.12, nodes=(3, 5), small_mesh=True, panels=.2, combos=(0, 3))
    g.base()
    steps = g.ops
    def an(): steps.append(analysis(r, spec=g.spec))
    def anf():
        a = analysis(r, spec=g.spec)
        steps.append(['anf', a[1], a[2], faults.random_fault(r)])
    w = dict(EDITS); w.update(DIRECT)
    if r.chance(.7): an()
    if r.chance(.4): g.edit(w)
    for _ in range(r.randrange(1, 3 if tier == 'quick' else 6)):
        t = r.random()
        if r.chance(.12) and not g.spec.meshes and g.add_mesh(generate=False):
            # the analysis has to generate a mesh, and something happens meanwhile; then it floats, then it is supported
            h, m = list(g.spec.meshes.items())[-1]
            for _ in range(r.randrange(1, 3)):
                a = analysis(r, spec=g.spec)
                steps.append(['anf', a[1], a[2], dict(kind='line', frac=round(r.random(), 6), exc=r.pick(['KeyboardInterrupt', 'MemoryError']))])
                if r.chance(.8): steps[-1][3]['file'] = 'Mesh.py'
                if r.chance(.5): steps[-1][3]['frac'] = round(1-.3*r.random()**2, 6)
            an()
            trial = g.spec.copy(); g._apply(trial, ['gen', h])
            g.emit(['gen', h], *g.support_mesh(trial, h, m['kind'])) or g.emit(['gen', h], *[o[:2]+[[True]*6] for o in g.support_mesh(trial, h, m['kind'])])
            an()
        elif t < .78:
            for _ in range(r.weighted([(1, 4), (2, 1)])): anf()
        else:
            bad, good = g.destabilise()
            g.emit(*bad, stable=False)
            if r.chance(.25): anf()
            an()
            g.emit(*good, stable=False)
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 3])
        if r.chance(.25): g.edit(w)
        elif r.chance(.3): anf()
        an()
    return dict(steps=steps)

class P02(Run):
    def snapshot(self):
        """Results standing before the attempt (an attempt that fails before touching them may leave them standing)."""
        self.was = self.model.solution
        self.had = ob.digest(self.view(combos=self.done, level='light')) if self.was is not None else None

    def before_analysis(self, kind, opts): self.snapshot()
    def do_anf(self, op):
        self.snapshot()
        return Run.do_anf(self, op)

    def unchanged(self, where):
        d = diff(self.spec.canon(), extract(self.model))
        if d: raise Violation('definition', '%s: definition changed: %s' % (where, d))

    def failed(self, kind, opts, e, where):
        s = self.model.solution
        if s is not None and (s != self.was or ob.digest(self.view(combos=self.done, level='light')) != self.had):
            raise Violation('claims-solved', '%s raised %s, but the model still reports solution=%r' % (where, type(e).__name__, self.model.solution))
        self.unchanged(where)

    def analysed(self, kind, opts, e):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        if e is not None:
            self.st.inc('fault singular or diverged')
            # a genuine failure: a newly built model fails as well
            f, e2 = self.fresh(kind, opts)
            self.same_outcome(e, e2)
            self.failed(kind, opts, e, 'the %s analysis' % kind)
        else:
            self.against_fresh(kind, opts, e, level='light' if self.i % 2 else 'full')
            self.complete(opts)

    def complete(self, opts):
        a, b = ob.result_keys(self.model)
        want = set(selected(self.spec, opts))
        if a != want or b != want:
            raise Violation('incomplete', 'completed analysis has displacements for %s and reactions for %s instead of %s' % (a, b, sorted(want)))

    def faulted(self, kind, opts, fault, e, fired, where):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        where = '%s analysis with fault: %s' % (kind, where)
        if e is not None:
            if not fired:
                f, e2 = self.fresh(kind, opts)
                if fault['kind'] != 'iter': self.same_outcome(e, e2, where+': ')
            self.failed(kind, opts, e, where)
        else:
            # the call returned normally although a fault may have been injected: then it must be a complete analysis
            if fault['kind'] == 'solver' and fired:
                raise Violation('fault-swallowed', '%s: the analysis returned normally' % where)
            opts = {k: v for k, v in opts.items() if k != 'max_iter'}
            self.against_fresh(kind, opts, None, where+': ')
            self.complete(opts)
            self.unchanged(where)

def execute(sc, log, st):
    P02(sc, log, st).go()

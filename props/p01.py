"""P01: re-analysing a model gives the same answer as a freshly built one."""
from sim.core import Violation, Skip
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom
from props.common import REAL
ID = 'P01'
TITLE = 'Re-analysing a model gives the same answer as a freshly built one'
RUNS = dict(quick=700, thorough=20000)
STUBS = ['standard output (captured)']

def generate(r, tier):
    g = Gen(r)
    g.base()
    w = dict(EDITS); w.update(DIRECT)
    for k in list(w): w[k] *= r.pick([.3, 1, 1, 3])
    steps = g.ops; g.ops = steps
    def an():
        a = analysis(r, spec=g.spec); steps.append(a)
    if r.chance(.85): an()
    for _ in range(r.randrange(2, 5 if tier == 'quick' else 8)):
        t = r.random()
        if t < .2:
            bad, good = g.destabilise()
            g.emit(*bad, stable=False); an()
            if r.chance(.3): an()
            g.emit(*good, stable=False)
        elif t < .4:
            a = analysis(r, spec=g.spec)
            steps.append(['anf', a[1], a[2], faults.random_fault(r)])
        elif t < .5: g.reload() or g.edit(w)
        elif t < .56: g.withdraw() or g.edit(w)
        else:
            for _ in range(r.weighted([(1, 5), (2, 3), (3, 2), (5, 1)])): g.edit(w)
        if r.chance(.4): steps.append(['q', r.getrandbits(32), r.randrange(1, 8)])
        if r.chance(.8): an()
    an()
    return dict(steps=steps)

class P01(Run):
    def analysed(self, kind, opts, e):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        last = self.i >= len(self.sc['steps'])-1
        self.against_fresh(kind, opts, e, level='full' if last or self.i % 3 == 0 else 'light')

def execute(sc, log, st):
    P01(sc, log, st).go()

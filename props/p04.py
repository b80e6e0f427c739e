"""P04: asking for results never changes any result."""
import copy
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, queries, observe as ob
from sim.spec import extract, diff
from props.common import REAL
ID = 'P04'
TITLE = 'Asking for results never changes any result'
RUNS = dict(quick=420, thorough=12000)
STUBS = ['standard output (captured)', 'plot windows (matplotlib Agg back end)']

def preload():
    import matplotlib.pyplot

def generate(r, tier):
    g = Gen(r, combos=(1, 4), internal=.6, mesh=.25, panels=.4, nodes=(3, 5), springs=.45)
    g.base()
    steps = g.ops
    rounds = r.randrange(1, 3 if tier == 'quick' else 5)
    for k in range(rounds):
        if k:
            for _ in range(r.randrange(1, 3)): g.edit()
        steps.append(analysis(r, spec=g.spec, tags=.2))
        for _ in range(r.randrange(8, 26)):
            if r.chance(.12): steps.append(['ask', r.getrandbits(32), round(r.random(), 4)])
            elif r.chance(.015): steps.append(['plot', r.getrandbits(32)])
            else: steps.append(['ask', r.getrandbits(32), None])
        steps.append(['review'])
        if r.chance(.4): steps.append(list(steps[-1])); steps[-1] = analysis(r, spec=g.spec, tags=.2); steps.append(['review'])
    return dict(steps=steps)

class P04(Run):
    ref = None
    def analysed(self, kind, opts, e):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        f, e2 = self.fresh(kind, opts)
        self.same_outcome(e, e2)
        self.ref = None
        if e is not None: return
        self.ref = f
        self.twin = copy.deepcopy(self.model)      # a newly built model has no mesh objects
        self.status = self.model.solution
        self.history = []
    def edited(self, op): self.ref = None

    def query(self, seed):
        r = Rng.derive('ask', seed)
        combos = self.done if not r.chance(.08) else list(self.spec.combos)
        return queries.pick_query(r, self.spec, combos, bad=.12)

    def do_ask(self, op):
        if self.ref is None: return
        q = self.query(op[1])
        if q is None: return
        spec = self.spec
        if op[2] is not None:
            n = faults.count_lines(lambda: queries.try_ask(copy.deepcopy(self.twin), spec, q))
            if n < 1: return
            c = faults.LineClock(max(1, int(op[2]*n)), faults.EXC[('KeyboardInterrupt', 'MemoryError')[op[1] % 2]])
            def go():
                try: return queries.ask(self.model, spec, q)
                except MemoryError: return None
                except KeyboardInterrupt: raise
                except Exception as e: return repr(e)
            c.run(go)
            self.st.inc('fault interrupted query'); self.st.inc('at %s' % c.fired)
            self.log.add(self.i, 'interrupted', q[0], q[2], c.fired)
            self.history.append('(interrupted) %s' % q)
            return
        want = queries.try_ask(copy.deepcopy(self.twin if q[0] == 'x' else self.ref), spec, q)
        got = queries.try_ask(self.model, spec, q)
        self.log.add(self.i, q[0], q[2], repr(got))
        self.st.inc('queries')
        if isinstance(want, str): self.st.inc('fault rejected query')
        if not self.same(want, got):
            raise Violation('answer', 'query %s answers %s, asked alone it answers %s; earlier queries: %s' % (q[2:], short(got), short(want), self.history[-4:]))
        self.history.append(q)

    @staticmethod
    def same(a, b):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b): return False
            if any(isinstance(x, str) for x in a): return a == b
            m = max([abs(v) for v in a if v == v and abs(v) != float('inf')] or [0])
            return all(x == y or (x != x and y != y) or abs(x-y) <= 1e-9*max(m, 1e-12) for x, y in zip(a, b))
        return a == b

    def do_plot(self, op):
        if self.ref is None or not self.spec.members or not self.done: return
        r = Rng.derive('plot', op[1])
        h = r.pick(list(self.spec.members)); m = self.model.members[self.spec.name('members', h)]
        c = r.pick(self.done)
        import matplotlib.pyplot as plt
        r.pick([lambda: m.plot_shear('Fy', c, 5), lambda: m.plot_moment('Mz', c, 5), lambda: m.plot_deflection('dy', c, 5), lambda: m.plot_axial(c, 5)])()
        plt.close('all')
        self.st.inc('plots'); self.history.append('plot')

    def do_review(self, op):
        if self.ref is None: return
        if self.model.solution != self.status: raise Violation('status', 'after queries %s the status went from %r to %r' % (self.history[-3:], self.status, self.model.solution))
        d = diff(self.spec.canon(), extract(self.model))
        if d: raise Violation('definition', 'queries changed the definition: %s' % d)
        a = self.view(copy.deepcopy(self.ref)); b = self.view()
        self.log.add('view', ob.digest(b))
        d = ob.compare(a, b, ob.lc(self.spec), 1e-9)
        if d: raise Violation('results', 'after %d queries: %s' % (len(self.history), d))
        ka, kb = ob.result_keys(self.ref), ob.result_keys(self.model)
        if ka != kb: raise Violation('result-keys', 'after queries, results are there for %s instead of %s' % (kb, ka))

def short(v):
    if isinstance(v, list): return '[%s%s]' % (', '.join('%.6g' % x for x in v[:6]), ', ...' if len(v) > 6 else '')
    return v

def execute(sc, log, st):
    P04(sc, log, st).go()

"""P13: independent models never influence each other, whatever threads use them."""
import copy, math, re
from sim.core import Violation, Skip, Rng
from sim.gen import Gen, analysis, twin, EDITS, DIRECT
from sim import faults, geom, queries, sched, observe as ob
from sim.world import World, selected
from sim.spec import extract, diff
from props.common import REAL
ID = 'P13'
TITLE = 'Independent models never influence each other, whatever threads use them'
RUNS = dict(quick=150, thorough=9000)
STUBS = ['thread scheduling (real threads, one at a time, switched at executed source lines by a seeded scheduler)', 'standard output (kept apart per thread)']
ASSUMPTIONS = ['switches happen between source lines of the library and between calls; inside numpy and scipy calls they are atomic',
               'the reference is each caller alone in a process of its own, with the same fault at the same line']

def script(r, seedname):
    """The calls of one caller."""
    g = Gen(r, combos=(0, 3), nodes=(3, 4), extra=(0, 1), panels=.15, mesh=.15, small_mesh=True, loads=(2, 4), autonames=.5)
    g.base()
    w = dict(EDITS); w.update(DIRECT); w.update(mesh=.1)
    if r.chance(.2): g.ops.append(['rawcombo', 'raw', r.pick(['D', 'L', 'Case 1']), r.num(-2, 2, 2)])
    for k in range(r.randrange(1, 3)):
        for _ in range(r.randrange(0, 3)): g.edit(w)
        if r.chance(.1): bad, good = g.destabilise(); g.ops.extend(bad); g.ops.append(analysis(r, spec=g.spec)); g.ops.extend(good)
        a = analysis(r, spec=g.spec)
        if a[1] == 'pdelta' and r.chance(.4): a[1] = 'linear'
        g.ops.append(a)
        g.ops.append(['see'])
        if r.chance(.6): g.ops.append(['q', r.getrandbits(32), r.randrange(1, 5)])
    for op in g.ops:
        if op[0] == 'mesh' and r.chance(.2): op[4].pop('origin', None)
    return g.ops

def generate(r, tier):
    n = r.weighted([(2, 6), (3, 2.5), (4, .5)]) if tier == 'thorough' else r.weighted([(2, 7), (3, 2)])
    scripts = [script(r.sub('a'), 0)]
    for k in range(1, n):
        if r.chance(.45):
            # much the same calls, other numbers: the same names mean something else in the other model
            s = twin(scripts[0], r.sub('v%d' % k))
            scripts.append(s)
        else: scripts.append(script(r.sub('b%d' % k), k))
    plan = [[r.random(), r.random(), r.pick(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])] if r.chance(.3) else None for _ in scripts]
    return dict(steps=[[k, op] for k, s in enumerate(scripts) for op in s], n=n, plan=plan, sched=r.getrandbits(32), mean=r.pick([3, 15, 60, 60, 250, 1500]))

def simplify(sc):
    for k, p in enumerate(sc['plan']):
        if p is not None:
            t = dict(sc); t['plan'] = [None if i == k else q for i, q in enumerate(sc['plan'])]; yield t
    for m in (6000, 1500, 250, 60):
        if m > sc['mean']: t = dict(sc); t['mean'] = m; yield t

def num(v):
    return v if not isinstance(v, float) or math.isfinite(v) else repr(v)

class Caller:
    """Runs one script on one model and records everything the caller can see."""
    def __init__(self, steps, out, plan=None, tick=None):
        self.steps, self.out = steps, out
        self.w = World(); self.done = []
        self.tr = sched.Tracer(tick, plan)
        self.rec = []; self.broken = False
    def go(self):
        for i, op in enumerate(self.steps):
            self.tr.begin(i)
            self.out.take()
            try:
                r = self.call(op)
            finally: pass
            if self.tr.fired and self.tr.plan[0] == i: r = [r, 'interrupted']
            self.rec.append([op[0], r, self.out.take()])
            if self.broken: break
            if self.tr.tick: self.tr.tick(None)
        self.tr.end()
        self.rec.append(['end', str(self.w.model.solution), repr(extract(self.w.model))])
        return self
    def call(self, op):
        m = self.w.model
        if op[0] == 'an':
            kw = dict(op[2])
            f = dict(general=m.analyze, linear=m.analyze_linear, pdelta=m.analyze_PDelta)[op[1]]
            if op[1] == 'pdelta': kw.pop('check_statics', None)
            if op[1] == 'linear': kw.pop('max_iter', None)
            try: f(**kw)
            except (Exception, KeyboardInterrupt) as e:
                self.settle(); return 'raises %s: %s' % (type(e).__name__, e)
            self.settle(); self.done = selected(self.w.spec, op[2])
            return 'ok'
        if op[0] == 'see':
            if m.solution is None: return 'not solved'
            try: v = ob.observe(m, self.w.spec, [c for c in self.done if c in self.w.spec.combos][-2:], 'light')
            except (Exception, KeyboardInterrupt) as e: return 'raises %s' % type(e).__name__
            return [[list(k), t, num(x)] for k, (t, x) in v.items()]
        if op[0] == 'q':
            r = Rng.derive('q', op[1]); out = []
            for _ in range(op[2]):
                q = queries.pick_query(r, self.w.spec, self.done or list(self.w.spec.combos), bad=.1)
                if q is None: break
                try: a = queries.try_ask(m, self.w.spec, q)
                except KeyboardInterrupt: a = 'interrupted'
                out.append([q, [num(x) for x in a] if isinstance(a, list) else a])
            return out
        if op[0] == 'rawcombo':
            from PyNite.LoadCombo import LoadCombo
            c = LoadCombo(op[1]); c.AddLoadCase(op[2], op[3]); m.load_combos[op[1]] = c
            self.w.spec.combos[op[1]] = dict(factors={op[2]: op[3]}, tags=None)
            return [sorted(c.factors.items())]
        try: r = self.w.do(op)
        except Violation as v: self.broken = True; r = v      # another property's business; here only whether it is the same alone
        except (KeyboardInterrupt, MemoryError, RuntimeError) as e: r = e
        return r if isinstance(r, str) else 'raises %s: %s' % (type(r).__name__, r)
    def settle(self):
        try: self.w.absorb(); self.w.note_default_combo()
        except Violation: pass

def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a-b) <= 1e-9*max(abs(a), abs(b)) or abs(a-b) < 1e-12
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def execute(sc, log, st):
    import json
    from sim.runner import forked
    n = sc['n']
    scripts = [[op for k, op in sc['steps'] if k == i] for i in range(n)]
    for s in scripts:
        for op in s:
            if op[0] == 'combo' and not isinstance(op[2], dict): raise Skip('malformed')
    def solo(i, plan):
        def fn():
            with sched.Stdout() as out:
                c = Caller(copy.deepcopy(scripts[i]), out, plan).go()
            return dict(out='ok', rec=c.rec, lines=c.tr.lines, fired=c.tr.fired)
        r = forked(fn)
        if r.get('out') != 'ok': raise RuntimeError('reference run failed: %r' % (r.get('detail') or r.get('cls')))
        return r
    want, plans = [], []
    for i in range(n):
        r = solo(i, None); plan = None
        p = sc['plan'][i]
        if p is not None:
            # a fault in a call that executes library code: edits are not made to survive interruption, analyses and queries are
            js = [j for j, op in enumerate(scripts[i]) if op[0] in ('an', 'q', 'see') and r['lines'][j] > 0]
            if js:
                j = js[int(p[0]*len(js))]
                plan = (j, max(1, int(p[1]*r['lines'][j])), faults.EXC[p[2]])
                r = solo(i, plan)
                if r['fired']: st.inc('fault '+p[2])
        want.append(r); plans.append(plan)
    sch = sched.Sched(sc['sched'], n, sc['mean'])
    with sched.Stdout() as out:
        cs = [Caller(copy.deepcopy(scripts[i]), out, plans[i], sch.tick) for i in range(n)]
        sch.run([c.go for c in cs])
    st.inc('switches', sch.switches); st.inc('threads', n); st.inc('steps', sum(map(len, scripts)))
    st.inc('switch interval %d' % sc['mean'])
    for t in sch.trail: log.add(t)
    for i, c in enumerate(cs):
        got = json.loads(json.dumps(c.rec))
        log.add(i, len(got))
        if c.tr.fired != want[i]['fired']:
            # the library did other work on the way to the planned line (a legitimate cache, say): not the same fault
            st.inc('fault struck elsewhere'); got = got[:plans[i][0]]; want[i]['rec'] = want[i]['rec'][:plans[i][0]]
        for k, (a, b) in enumerate(zip(want[i]['rec'], got)):
            st.inc('calls compared')
            if same(a, b): continue
            raise Violation('influence', 'caller %d of %d, call %d %s: alone %s, together %s' % (i, n, k, scripts[i][k] if k < len(scripts[i]) else 'end', brief(a, b), brief(b, a)))
        if len(got) != len(want[i]['rec']): raise Violation('influence', 'caller %d made %d calls, alone %d' % (i, len(got), len(want[i]['rec'])))

def brief(a, b):
    """The part of a that differs from b."""
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        d = [i for i in range(len(a)) if not same(a[i], b[i])]
        if len(d) < 1: break
        if not isinstance(a[d[0]], list):
            return str(a)[:300] if len(str(a)) < 300 else str(a[d[0]])[:300]
        a, b = a[d[0]], b[d[0]]
    return str(a)[:300]

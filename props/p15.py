"""P15: the same history gives the same results in every process."""
import copy, math, re, os, shutil, tempfile
from sim.core import Violation, Skip, Rng
from sim import faults, proc, sched
from sim.gen import Gen, analysis, twin, EDITS, DIRECT, TAGS
from sim.spec import extract, MODEL_ATTR
from props import p05, p08, p13, p16
from props.common import REAL as REAL0
ID = 'P15'
TITLE = 'The same history gives the same results in every process'
RUNS = dict(quick=220, thorough=12000)
REAL = REAL0+['PyNite/Reporting.py']
STUBS = ['clocks of the time module (each process has its own simulated clock)', 'standard output (captured)',
         'the wkhtmltopdf process (stand-in that keeps the HTML)']
ASSUMPTIONS = ['answers of one machine and one build of numpy and scipy are compared; numbers may differ by round-off',
               'the reference is each history alone in an interpreter of its own that has done nothing else']

def preload(): proc.start()

def script(r):
    g = Gen(r, combos=(0, 4), nodes=(3, 5), extra=(0, 2), panels=.25, mesh=.3, small_mesh=True, springs=.4, aux=.4, sec=.4, loads=(2, 5), autonames=.6)
    g.base()
    w = dict(EDITS); w.update({k: v*.5 for k, v in DIRECT.items()}); w.update(mesh=.15, merge=.25, rename=.2)
    for k in range(r.randrange(1, 4)):
        for _ in range(r.randrange(0, 4)): g.edit(w)
        if r.chance(.35):
            tol = r.pick([.001, .1, 1.0]); got = p08.split(g, r, tol)
            if got:
                ops, trial, merged = got
                g.ops.extend(ops)
                if r.chance(.3):        # a chain of nodes, each close to the next: which ones stay depends on the order alone
                    p = [r.num(200, 300, 0) for _ in range(3)]
                    for j in range(r.randrange(3, 7)): g.ops.append(['node', g.h('c'), r.pick([None, 'ch%d' % r.randrange(10**6)]), p[0]+round(.7*tol*j, 6), p[1], p[2]])
                if r.chance(.3): g.ops.append(['names'])
                g.ops.append(['merge', tol]); g.spec = merged
                if r.chance(.5): g.ops.append(['names'])
        if r.chance(.12): bad, good = g.destabilise(); g.ops.extend(bad); g.ops.append(analysis(r, spec=g.spec)); g.ops.extend(good)
        if r.chance(.3): g.ops.append(['bad', r.getrandbits(32)])
        if r.chance(.3): g.ops.append(['names'])
        a = analysis(r, spec=g.spec)
        if a[1] == 'pdelta' and r.chance(.4): a[1] = 'linear'
        if r.chance(.3) and any(c['tags'] and set(c['tags']) & set(TAGS) for c in g.spec.combos.values()):
            a[2]['combo_tags'] = r.sample(TAGS, len(TAGS))
        g.ops.append(a)
        if 'combo_tags' in a[2] and r.chance(.7): g.ops.append(['names'])
        g.ops.append(['see'])
        if r.chance(.6): g.ops.append(['q', r.getrandbits(32), r.randrange(1, 5)])
        if r.chance(.2): g.ops.append(['rep'])
    g.ops.append(['names'])
    for op in g.ops:
        if op[0] == 'mesh' and r.chance(.2): op[4].pop('origin', None)
    return g.ops

def process(r, n):
    """One simulated process: what it is like, and which histories it runs one after the other."""
    order = []
    for k in range(n):
        order += [k]*r.weighted([(1, 5), (2, 2)])
    r.shuffle(order)
    p = dict(hs=r.pick(proc.SEEDS), order=[[k, None] for k in order], clock=r.pick([0.0, 1.6e9, 4e9]), step=r.pick([0.0, 1e-6, 10.0, -3.0]), rnd=r.getrandbits(31))
    if r.chance(.5): p['heap'] = r.getrandbits(31)
    if r.chance(.5): p['gc'] = r.pick(['off', 'often'])
    if r.chance(.3): p['tz'] = r.pick(['Asia/Tokyo', 'America/St_Johns'])
    if r.chance(.3): p['lang'] = r.pick(['de_DE.UTF-8', 'C', 'tr_TR'])
    if r.chance(.3): p['cwd'] = '/'
    p['strings'] = r.pick(['one', 'all different']); p['drop'] = r.chance(.5)
    if r.chance(.35):
        # earlier work that was cut short
        k = r.randrange(n)
        p['order'].insert(0, [k, [r.random(), int(1+r.expovariate(1/1500)), r.pick(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])]])
    return p

def generate(r, tier):
    n = r.weighted([(1, 4), (2, 4), (3, 1)])
    scripts = [script(r.sub('s%d' % k)) for k in range(n)]
    if r.chance(.3): scripts[1:] = [twin(scripts[0], r.sub('t%d' % k)) if r.chance(.6) else s for k, s in enumerate(scripts[1:])]
    elif n == 1 and r.chance(.3): scripts.append(twin(scripts[0], r.sub('t'))); n = 2
    procs = [process(r.sub('p%d' % k), n) for k in range(r.weighted([(1, 1), (2, 3), (3, 1)]))]
    return dict(steps=[[k, op] for k, s in enumerate(scripts) for op in s], n=n, ref=r.pick(proc.SEEDS), procs=procs)

def simplify(sc):
    for i in range(len(sc['procs'])-1, -1, -1):
        if len(sc['procs']) > 1: yield dict(sc, procs=sc['procs'][:i]+sc['procs'][i+1:])
    if len(sc['procs']) == 1:
        p = sc['procs'][0]
        for i in range(len(p['order'])-1, -1, -1):
            yield dict(sc, procs=[dict(p, order=p['order'][:i]+p['order'][i+1:])])
        for k in ('heap', 'gc', 'tz', 'lang', 'cwd'):
            if k in p: yield dict(sc, procs=[{a: b for a, b in p.items() if a != k}])

class NoTrace:
    fired = None; tick = None; plan = None
    def begin(self, i): pass
    def end(self): pass

class Caller(p13.Caller):
    scratch = None
    def __init__(self, steps, out, plan=None):
        super().__init__(steps, out, plan)
        if plan is None: self.tr = NoTrace()
    def call(self, op):
        m = self.w.model
        if op[0] == 'bad':
            cat = p05.catalogue(Rng.derive('bad', op[1]), self.w.spec, m)
            if not cat: return 'nothing'
            what, f = Rng.derive('which', op[1]).pick(cat)
            try: f()
            except Exception as e: return [what, 'raises %s: %s' % (type(e).__name__, e)]
            return [what, 'accepted']
        if op[0] == 'names':
            out = [[k, list(getattr(m, a))] for k, a in MODEL_ATTR.items()]+[['combos', list(m.load_combos)]]
            for a in ('load_cases', 'orphaned_nodes'):
                v = getattr(m, a)
                out.append([a, list(v() if callable(v) else v)])
            for k, x in m.meshes.items(): out.append([k, list(x.nodes), list(x.elements)])
            # the combinations in the order in which they were solved
            out.append(['solved', [list(n.DX) for n in list(m.nodes.values())[:1]]])
            return out
        if op[0] == 'rep':
            from PyNite import Reporting
            if Caller.scratch is None: Caller.scratch = tempfile.mkdtemp(prefix='verif-p15-')
            with p16.Converter(Caller.scratch) as conv:
                try: Reporting.create_report(m, os.path.join(Caller.scratch, 'r.pdf'))
                except Exception as e: return 'raises %s: %s' % (type(e).__name__, e)
            return [[k, v] for k, v in p16.tables(conv.html[-1]).items()] if conv.html else 'nothing'
        return super().call(op)

def job(a):
    """In the other process: run the histories in order and report what each caller saw."""
    keep = proc.disturb(a['process'])
    out = []
    try:
        with sched.Stdout() as so:
            for k, plan in a['order']:
                s = proc.strings(copy.deepcopy(a['scripts'][k]), a['process'].get('strings', 'one'))
                pl = None
                if plan is not None:
                    js = [j for j, op in enumerate(s) if op[0] in ('an', 'q', 'see')]
                    if js: pl = (js[int(plan[0]*len(js))], plan[1], faults.EXC[plan[2]])
                c = Caller(s, so, pl).go()
                out.append(dict(k=k, planned=plan is not None, fired=c.tr.fired, rec=c.rec))
                if not a['process'].get('drop'): keep.append(c)
                del c
    finally:
        if Caller.scratch: shutil.rmtree(Caller.scratch, ignore_errors=True); Caller.scratch = None
    return dict(out=out)

NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
def biggest(x, b=0.0):
    if isinstance(x, float): return max(b, abs(x)) if math.isfinite(x) else b
    if isinstance(x, list):
        for v in x: b = biggest(v, b)
    return b

def same(a, b, scale):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or abs(a-b) <= 1e-9*max(abs(a), abs(b)) or abs(a-b) <= 1e-10*scale+1e-13 or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y, scale) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        if a == b: return True
        if len(a) > 20000 or NUM.sub('#', a) != NUM.sub('#', b): return False
        x, y = [float(v) for v in NUM.findall(a)], [float(v) for v in NUM.findall(b)]
        s = max([abs(v) for v in x+y]+[1e-3])
        return all(abs(p-q) <= 2e-6*s for p, q in zip(x, y))
    return a == b

def first(a, b, scale, path=()):
    """The innermost difference."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, scale): return first(x, y, scale, path+((x[0] if isinstance(x, list) and x and isinstance(x[0], str) else i),))
    return '%s: %s / %s' % (' '.join(str(p) for p in path), str(a)[:300], str(b)[:300])

def execute(sc, log, st):
    n = sc['n']
    scripts = [[op for k, op in sc['steps'] if k == i] for i in range(n)]
    def run(hs, order, process):
        r = proc.ask(hs, 'props.p15:job', dict(scripts=scripts, order=order, process=process))
        if 'error' in r or 'died' in r: raise RuntimeError('simulated process: %r' % r)
        return r['out']
    want = [run(sc['ref'], [[k, None]], {})[0]['rec'] for k in range(n)]
    st.inc('steps', sum(map(len, scripts)))
    for k in range(n): log.add('alone', k, len(want[k]))
    for pi, p in enumerate(sc['procs']):
        got = run(p['hs'], p['order'], p)
        st.inc('processes'); st.inc('hash seed %d' % p['hs'])
        for f in ('heap', 'gc', 'tz', 'lang', 'cwd'):
            if f in p: st.inc('fault %s' % f)
        st.inc('fault clock %g step %g' % (p['clock'], p['step'])); st.inc('fault strings %s' % p['strings'])
        if p['drop']: st.inc('fault earlier models discarded')
        for g in got:
            if g['fired']: st.inc('fault earlier work interrupted')
            if g['planned']: log.add('earlier', g['k'], g['fired']); continue
            a, b = want[g['k']], g['rec']
            log.add('history', pi, g['k'], len(b))
            for j in range(max(len(a), len(b))):
                st.inc('calls compared')
                x, y = a[j] if j < len(a) else None, b[j] if j < len(b) else None
                scale = biggest(x)
                if same(x, y, scale): continue
                raise Violation('differs', 'history %d, call %d %s, in a process with hash seed %d after %d other histories: %s' % (
                    g['k'], j, scripts[g['k']][j] if j < len(scripts[g['k']]) else 'end', p['hs'], len(got)-1, first(x, y, scale)))

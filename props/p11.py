"""P11: solver and diagnostic options never change the answer."""
import copy, io
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT, TAGS
from sim import faults, geom, posed, observe as ob
from sim.world import selected, analyze, build
from sim.spec import extract, diff
from props.common import REAL
ID = 'P11'
TITLE = 'Solver and diagnostic options never change the answer'
RUNS = dict(quick=400, thorough=16000)
STUBS = ['standard output (captured)', 'linear solvers (in runs that make them fail, under every option)']
ASSUMPTIONS = ['differences that disappear behind round-off (a one-way part within 1e-7 of switching, equations with a condition above 1e10, '
               'answers that change when stiffness and loads change by 1e-9) are counted and not judged',
               'success or failure is compared on definitions that are certainly stable or exactly unstable (a node nothing is attached to); '
               'nearly singular mechanisms are outside what floating point can decide',
               'the activity flag of a one-way part that carries no force is not compared, its force is']
tol = 1e-6

def generate(r, tier):
    g = Gen(r, combos=(0, 4), nodes=(3, 6), panels=.3, mesh=.15, small_mesh=True, sprsup=.6, oneway=.5, tc=.45, enf=.5, internal=.45)
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT); w.update(enf=2, spr=1.5, mesh=.15)
    for k in range(r.randrange(1, 3 if tier == 'quick' else 8)):
        if r.chance(.35): steps.append(analysis(r, spec=g.spec))
        if r.chance(.1): steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        for _ in range(r.randrange(0, 4)): g.edit(w)
        bad = None
        if r.chance(.18):
            bad, good = g.destabilise(); steps.extend(bad)
        if r.chance(.1):      # everything held: no unknown displacement at all
            for h in list(g.spec.nodes): g.emit(['sup', h, [True]*6])
        steps.append(['opt', r.getrandbits(32), r.weighted([('general', 4), ('linear', 2.5), ('pdelta', 2.5)]),
                      [t for t in TAGS if r.chance(.5)] if r.chance(.2) else None, r.pick([30, 30, 30, 1, 2, 4]),
                      faults.random_fault(r, [('solver', 1)]) if r.chance(.12) else None])
        if bad: steps.extend(good)
    return dict(steps=steps)

def variants(r, kind, s):
    """The reference options and some others that must not matter."""
    o = lambda k='%s' % kind, **kw: (k, kw)
    ref = o(sparse=True, check_stability=True, log=False)
    out = [o(sparse=False, check_stability=True, log=False)]
    pool = [o(sparse=True, check_stability=False, log=False), o(sparse=True, check_stability=True, log=True), o(sparse=False, check_stability=False, log=True), o()]
    if kind != 'pdelta': pool += [o(sparse=True, check_stability=True, check_statics=True, log=False), o(sparse=r.chance(.5), check_stability=r.chance(.5), check_statics=True, log=True)]
    pool = [(p, r.random()) for p in pool]; pool.sort(key=lambda p: p[1])
    out += [p for p, _ in pool[:2]]
    if kind in ('general', 'linear') and not posed.one_way(s):
        k = 'linear' if kind == 'general' else 'general'
        out.append(o(k, sparse=r.chance(.7), check_stability=True, log=False))
    return ref, out

class P11(Run):
    def do_opt(self, op):
        _, seed, kind, tags, max_iter, fault = op
        r = Rng.derive('opt', seed)
        s = self.spec
        if not geom.valid(s) or any(panel_bad(s)): self.st.inc('not judged: outside the documented domain'); return
        kind0 = kind
        ones = posed.one_way(s)
        if kind == 'linear' and ones: pass
        base = {}
        if tags:
            base['combo_tags'] = list(tags)
            if s.combos and not selected(s, base): base = {}
        if not s.combos: base = {}
        ref, others = variants(r, kind, s)
        before = extract(self.model)
        def run(kd, kw):
            m = copy.deepcopy(self.model)
            opts = dict(base, **kw)
            if kd != 'linear' and (ones or kd == 'pdelta'): opts['max_iter'] = max_iter
            if opts.get('log') or opts.get('check_statics'): opts['stdout'] = io.StringIO()
            if fault is None: e = analyze(m, kd, opts); fired = False
            else: e, fired, _ = faults.faulty_analysis(m, kd, opts, fault)
            opts.pop('stdout', None)
            self.st.inc('analyses'); self.st.inc('analyses '+kd)
            return m, e, opts, fired
        m0, e0, o0, f0 = run(*ref)
        if f0: self.st.inc('fault solver fails under every option')
        stable = geom.surely_stable(s); loose = [h for h in s.nodes if orphan(s, h)]
        after0 = extract(m0)
        combos = selected(s, o0) if s.combos else list(m0.load_combos)
        v0 = self.see(m0, combos) if e0 is None else None
        self.log.add(self.i, kind, sorted(o0.items(), key=str), 'ok' if e0 is None else type(e0).__name__, '' if v0 is None else ob.digest(v0))
        keep = None
        for kd, kw in others:
            m1, e1, o1, f1 = run(kd, kw)
            what = '%s(%s) against %s(%s): ' % (ref[0], desc(o0), kd, desc(o1))
            self.st.inc('pairs of options'); self.log.add('  ', kd, sorted(kw.items()), 'ok' if e1 is None else type(e1).__name__)
            if e1 is not None and not isinstance(e1, Exception): raise Violation('outcome', what+'%r' % e1)
            if fault is not None and (f0 != f1): self.st.inc('fault reached under one option only'); continue
            if (e0 is None) != (e1 is None):
                self.unless_ambiguous(kind, o0, 'outcome', what+'%s against %s' % tuple('success' if e is None else 'failure (%r)' % e for e in (e0, e1)), stable or loose)
                continue
            d = diff(after0, extract(m1))
            if d: raise Violation('definition', what+d)
            if e0 is not None: self.st.inc('failures compared'); continue
            if (m0.solution is None) != (m1.solution is None): raise Violation('status', what+'solution status %r and %r' % (m0.solution, m1.solution))
            if kd == kind and m0.solution != m1.solution: raise Violation('status', what+'solution status %r and %r' % (m0.solution, m1.solution))
            k0, k1 = ob.result_keys(m0), ob.result_keys(m1)
            if k0 != k1: raise Violation('result-keys', what+'results for %s and %s' % (k0, k1))
            v1 = self.see(m1, combos)
            d = ob.compare(v0, v1, ob.lc(s), tol, skip=lambda k: k[3] == 'active')
            self.st.inc('values compared', len(v0))
            if d: self.unless_ambiguous(kind, o0, 'results', what+d, stable)
            elif kd == kind and r.chance(.3):
                # whichever options were used, the next analysis is the same
                k2 = r.pick(['linear', 'general'])
                a, b = copy.deepcopy(m0), copy.deepcopy(m1)
                ea, eb = analyze(a, k2, {}), analyze(b, k2, {})
                if (ea is None) != (eb is None): self.unless_ambiguous(k2, {}, 'next-outcome', what+'the next analysis: %r and %r' % (ea, eb), stable)
                elif ea is None:
                    cs = list(a.load_combos)
                    d = ob.compare(self.see(a, cs), self.see(b, cs), ob.lc(s), tol, skip=lambda k: k[3] == 'active')
                    self.st.inc('follow-up analyses')
                    if d: self.unless_ambiguous(k2, {}, 'next-results', what+'the next analysis: '+d, stable)
            keep = m1 if r.chance(.5) else keep
        if keep is not None and r.chance(.6):
            self.w.model = keep; self.w.absorb(); self.w.note_default_combo()
        d = diff(before, extract(self.model))
        if keep is None and d: raise Violation('definition', d)

    def see(self, m, combos):
        import sim.world
        spec = self.spec
        if not all(x['generated'] for x in spec.meshes.values()):
            w = copy.copy(self.w); w.spec = spec.copy(); w.model = m; w.absorb(); spec = w.spec
        return ob.observe(m, spec, combos, 'light')

    def unless_ambiguous(self, kind, opts, cls, detail, judge=True):
        if not judge: self.st.inc('not judged: nearly singular'); return
        s = self.spec
        if cls in ('outcome', 'next-outcome') and any(orphan(s, h) for h in s.nodes): raise Violation(cls, detail)
        why = posed.ambiguous(s, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'max_iter')}, tol)
        if why: self.st.inc('not judged: '+why); return
        raise Violation(cls, detail)

def desc(o): return ', '.join('%s=%s' % kv for kv in sorted(o.items(), key=str))

def orphan(s, h):
    if any(h in (e['i'], e['j']) for e in list(s.members.values())+list(s.springs.values())): return False
    if any(h in [e[c] for c in 'ijmn'] for e in list(s.plates.values())+list(s.quads.values())): return False
    if any(h in geom.internal_nodes(s, m) for m in s.members.values()): return False
    n = s.nodes[h]
    return not all(n['sup'][i] or d in n['enf'] or d in n['spr'] for i, d in enumerate(geom.DOFS))

def panel_bad(s):
    from props.p10 import distorted
    return [distorted(s, k, p) for k in ('plates', 'quads') for p in getattr(s, k).values()]

def execute(sc, log, st):
    P11(sc, log, st).go()

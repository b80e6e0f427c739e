"""Execution of a scenario's steps against the real model; property modules override the hooks."""
import copy
from sim.core import Violation, Skip, Rng
from sim.world import World, build, analyze, selected
from sim.spec import extract, diff
from sim import observe as ob, faults, queries, geom

class Run:
    tol = 1e-7
    def __init__(self, sc, log, st):
        self.sc, self.log, self.st = sc, log, st
        self.w = World()
        self.kind = self.opts = None       # last completed analysis still standing for the present definition
        self.done = []                     # combinations it solved

    @property
    def spec(self): return self.w.spec
    @property
    def model(self): return self.w.model

    def go(self):
        for i, op in enumerate(self.sc['steps']):
            self.i = i
            getattr(self, 'do_'+op[0], self.edit)(op)
            self.st.inc('steps')
        self.end()

    def end(self): pass

    # ---- edits
    def edit(self, op):
        r = self.w.do(op)
        self.log.add(self.i, op[0], r if isinstance(r, str) else type(r).__name__)
        if r == 'inapplicable': self.st.inc('inapplicable'); return r
        if r != 'ok':
            self.st.inc('edit refused'); self.refused(op, r); return r
        self.st.inc('edits'); self.st.inc('edit '+op[0])
        self.edited(op)
        return 'ok'
    def refused(self, op, e):
        raise Violation('legal-edit-refused', '%s raised %r' % (op, e))
    def edited(self, op): pass

    # ---- analyses
    def do_an(self, op):
        _, kind, opts = op
        self.before_analysis(kind, opts)
        e = analyze(self.model, kind, opts)
        self.w.absorb(); self.w.note_default_combo()
        self.log.add(self.i, 'an', kind, sorted(opts), 'ok' if e is None else '%s:%s' % (type(e).__name__, e))
        self.st.inc('analyses'); self.st.inc('analysis '+kind)
        if e is not None: self.st.inc('failed analyses')
        else:
            self.kind, self.opts, self.done = kind, opts, selected(self.spec, opts)
        self.analysed(kind, opts, e)
        return e
    def before_analysis(self, kind, opts): pass
    def analysed(self, kind, opts, e): pass

    def do_anf(self, op):
        """An analysis with an injected fault."""
        _, kind, opts, fault = op
        e, fired, where = faults.faulty_analysis(self.model, kind, opts, fault)
        if fault['kind'] == 'iter' and kind == 'linear': kind = 'general'
        self.w.absorb(); self.w.note_default_combo()
        self.log.add(self.i, 'anf', kind, where, fired, 'ok' if e is None else type(e).__name__)
        self.st.inc('faulty analyses'); self.st.inc('fault %s%s' % (fault['kind'], '' if fired else ' (not reached)'))
        if fired and fault['kind'] == 'line': self.st.inc('at '+where.split(' at ')[1].split(' ')[0])
        self.faulted(kind, opts, fault, e, fired, where)
        return e
    def faulted(self, kind, opts, fault, e, fired, where): pass

    # ---- queries
    def do_q(self, op):
        """A burst of queries: ['q', seed, n]"""
        r = Rng.derive('q', op[1])
        for _ in range(op[2]):
            q = queries.pick_query(r, self.spec, self.done or list(self.spec.combos), bad=.1)
            if q is None: return
            a = queries.try_ask(self.model, self.spec, q)
            self.st.inc('queries')
        self.log.add(self.i, 'q')

    # ---- reference
    def fresh(self, kind, opts, spec=None, **kw):
        """(model, exception) of the same analysis on a newly built model."""
        m = build(spec or self.spec, **kw)
        e = analyze(m, kind, {k: v for k, v in opts.items() if k != 'log'})
        self.st.inc('reference analyses')
        return m, e

    def view(self, model=None, combos=None, level='full', spec=None):
        return ob.observe(model or self.model, spec or self.spec, self.done if combos is None else combos, level)

    def same_outcome(self, e, e2, where=''):
        a = None if e is None else (type(e).__name__, str(e)); b = None if e2 is None else (type(e2).__name__, str(e2))
        if a != b:
            raise Violation('outcome', '%sthe analysis %s, on a newly built model it %s' % (where,
                'succeeds' if a is None else 'raises %s: %s' % a, 'succeeds' if b is None else 'raises %s: %s' % b))

    def against_fresh(self, kind, opts, e, where='', level='full', cls='results'):
        """Compare a completed analysis with the same analysis on a newly built model."""
        f, e2 = self.fresh(kind, opts)
        self.same_outcome(e, e2, where)
        if e is not None: return
        if self.model.solution != f.solution:
            raise Violation('status', '%sstatus %r, on a newly built model %r' % (where, self.model.solution, f.solution))
        k1, k2 = ob.result_keys(self.model), ob.result_keys(f)
        if k1 != k2: raise Violation('result-keys', '%scombinations with results: %s, on a newly built model: %s' % (where, k1, k2))
        combos = selected(self.spec, opts)
        a = self.view(f, combos, level); b = self.view(self.model, combos, level)
        self.log.add('  view', ob.digest(b))
        self.st.inc('values compared', len(a))
        d = ob.compare(a, b, ob.lc(self.spec), self.tol)
        if d: raise Violation(cls, where+d)
        return f

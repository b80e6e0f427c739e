"""Injected faults.  All of them are decided by numbers in the scenario, none by the environment."""
import sys, os, errno, contextlib, copy
from sim import env

EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, OSError=OSError, RuntimeError=RuntimeError)

# ---- interrupts and allocation failures at the k-th executed line of the library ------------------
class LineClock:
    """Counts executed source lines of the library in this thread; at line `k` raises `exc`."""
    def __init__(self, k=None, exc=None, file=None):
        self.file = file      # count the lines of this source file only
        self.n = 0; self.k = k; self.exc = exc; self.fired = None
        self.cache = {}
    def _is(self, code):
        fn = code.co_filename
        r = self.cache.get(fn)
        if r is None: r = self.cache[fn] = env.is_pkg_file(fn) and (self.file is None or os.path.basename(fn) == self.file)
        return r
    def glob(self, frame, event, arg):
        if not self._is(frame.f_code): return None
        return self.loc
    def loc(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.k:
                self.fired = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.exc('injected')
        return self.loc
    def run(self, fn):
        """Returns (result, exception)."""
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return fn(), None
        except (Exception, KeyboardInterrupt) as e:
            return None, e
        finally:
            sys.settrace(old)

def count_lines(fn, file=None):
    c = LineClock(file=file); c.run(fn); return c.n

# ---- failing linear solver ------------------------------------------------------------------------
class SolverFault:
    """The `nth` solution of linear equations fails: raises, or returns non-finite numbers.
    Patches every reference to numpy's and scipy's solvers that the library can reach."""
    def __init__(self, nth, mode):
        self.nth, self.mode, self.calls, self.fired = nth, mode, 0, 0
        self.saved = []
    def _wrap(self, f):
        def solver(*a, **kw):
            import numpy as np
            me = self.calls; self.calls += 1
            if me != self.nth: return f(*a, **kw)
            self.fired += 1
            m = self.mode
            if m == 'memory': raise MemoryError('injected')
            if m == 'runtime': raise RuntimeError('injected')
            if m == 'linalg': raise np.linalg.LinAlgError('injected')
            if m == 'value': raise ValueError('injected')
            x = np.array(f(*a, **kw), float)
            if m == 'nan': x[...] = float('nan')
            elif m == 'inf': x[...] = float('inf')
            elif m == 'nan1' and x.size: x.flat[x.size//2] = float('nan')
            return x
        return solver
    def __enter__(self):
        import numpy.linalg, scipy.sparse.linalg, scipy.linalg
        orig = [(numpy.linalg, 'solve'), (scipy.sparse.linalg, 'spsolve'), (scipy.linalg, 'solve')]
        fs = {}
        for mod, nm in orig:
            f = getattr(mod, nm); fs[id(f)] = (f, self._wrap(f))
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name in ('numpy.linalg', 'scipy.sparse.linalg', 'scipy.linalg') or name.split('.')[0] == 'PyNite'): continue
            for nm, v in list(vars(mod).items()):
                if id(v) in fs and callable(v):
                    self.saved.append((mod, nm, v)); setattr(mod, nm, fs[id(v)][1])
        return self
    def __exit__(self, *a):
        for mod, nm, v in self.saved: setattr(mod, nm, v)
        return False

# ---- failing output stream --------------------------------------------------------------------------
class BadStream:
    """Standard output whose `nth` write fails (full disk or closed pipe); earlier ones succeed."""
    def __init__(self, nth, err='ENOSPC'):
        self.nth, self.err, self.n, self.fired = nth, err, 0, 0
    def write(self, s):
        self.n += 1
        if self.n > self.nth:
            self.fired += 1
            code = getattr(errno, self.err)
            raise OSError(code, os.strerror(code))
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    encoding = 'utf-8'

# ---- one faulty analysis ------------------------------------------------------------------------------
def faulty_analysis(model, kind, opts, fault):
    """Run an analysis with one injected fault.
    Returns (exception or None, fired: bool, where: str)."""
    from sim.world import analyze
    opts = dict(opts or {})
    k = fault['kind']
    if k == 'line':
        twin = copy.deepcopy(model)
        n = count_lines(lambda: analyze(twin, kind, opts), fault.get('file'))
        at = max(1, min(n, 1+int(fault['frac']*n)))
        c = LineClock(at, EXC[fault['exc']], fault.get('file'))
        res, exc = c.run(lambda: analyze(model, kind, opts))
        e = exc if exc is not None else res
        return e, c.fired is not None, '%s at %s (line event %d of %d)' % (fault['exc'], c.fired, at, n)
    if k == 'solver':
        with SolverFault(fault['nth'], fault['mode']) as f:
            e = analyze(model, kind, opts)
        return e, f.fired > 0, 'solver call %d: %s' % (fault['nth'], fault['mode'])
    if k == 'stdout':
        opts['log'] = True
        s = BadStream(fault['nth'], fault.get('err', 'ENOSPC'))
        opts['stdout'] = s
        e = analyze(model, kind, opts)
        return e, s.fired > 0, 'stdout write %d fails' % fault['nth']
    if k == 'iter':
        if kind == 'linear': kind = 'general'
        opts['max_iter'] = fault['max_iter']
        e = analyze(model, kind, opts)
        return e, e is not None, 'at most %d iterations' % fault['max_iter']
    raise ValueError(k)

def random_fault(r, kinds=None):
    k = r.weighted(kinds or [('line', 6), ('solver', 3), ('stdout', 2), ('iter', 1)])
    if k == 'line':
        f = r.random()
        if r.chance(.35): f = 1-f*f*.25       # late in the run: results partly in place
        elif r.chance(.15): f = f*f*.1
        return dict(kind='line', frac=round(f, 6), exc=r.pick(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']))
    if k == 'solver': return dict(kind='solver', nth=r.pick([0, 0, 1, 2, 3]), mode=r.pick(['memory', 'runtime', 'linalg', 'nan', 'inf', 'nan1']))
    if k == 'stdout': return dict(kind='stdout', nth=r.randrange(0, 25), err=r.pick(['ENOSPC', 'EPIPE']))
    return dict(kind='iter', max_iter=r.pick([0, 1, 1, 2]))

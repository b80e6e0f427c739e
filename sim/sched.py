"""Deterministic threads.  Every simulated caller is a real thread, but only the one that holds the baton
runs; at executed source lines of the library (and between calls) a seeded scheduler decides who holds it
next.  One seed is one exactly repeatable interleaving."""
import sys, threading, io, os
from sim import env
from sim.core import Rng

class Tracer:
    """Counts the executed library lines of one thread, lets the scheduler switch there, and raises the
    planned fault at the planned line of the planned call."""
    def __init__(self, tick=None, plan=None):
        self.tick = tick or (lambda where: None)
        self.plan = plan            # (call index, line within the call, exception)
        self.n = 0; self.call = -1; self.fired = None; self.lines = []; self.cache = {}
    def _is(self, code):
        r = self.cache.get(code)
        if r is None: r = self.cache[code] = env.is_pkg_file(code.co_filename) and code.co_name != '<module>'
        return r
    def glob(self, frame, event, arg):
        return self.loc if self._is(frame.f_code) else None
    def loc(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.plan is not None and self.fired is None and self.call == self.plan[0] and self.n == self.plan[1]:
                self.fired = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.plan[2]('injected')
            self.tick(frame)
        return self.loc
    def begin(self, call):
        if self.call >= 0: self.lines.append(self.n)
        self.call, self.n = call, 0
        sys.settrace(self.glob)
    def end(self):
        self.lines.append(self.n); sys.settrace(None)

class Sched:
    def __init__(self, seed, n, mean):
        self.r = Rng.derive('sched', seed); self.n = n; self.mean = mean
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.live = list(range(n)); self.cur = None
        self.switches = 0; self.trail = []; self.left = 0
        self.err = [None]*n
    def draw(self): self.left = 1+int(self.r.expovariate(1.0/self.mean))
    def tick(self, frame=None):
        self.left -= 1
        if self.left > 0: return
        self.draw()
        me = self.cur; to = self.r.pick(self.live)
        if to == me: return
        self.switches += 1
        if len(self.trail) < 20000:
            self.trail.append('%d>%d %s' % (me, to, '-' if frame is None else '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)))
        self.cur = to
        self.sem[to].release()
        self.sem[me].acquire()
    def _main(self, i, fn):
        self.sem[i].acquire()
        try: fn()
        except BaseException as e: self.err[i] = e
        finally:
            sys.settrace(None)
            self.live.remove(i)
            if self.live:
                self.cur = self.r.pick(self.live); self.draw(); self.sem[self.cur].release()
            else: self.done.release()
    def run(self, fns):
        ts = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts: t.start()
        self.cur = self.r.pick(self.live); self.draw()
        self.sem[self.cur].release()
        if not self.done.acquire(timeout=300): raise RuntimeError('the simulated threads block each other')
        for t in ts: t.join()
        for e in self.err:
            if e is not None: raise e

class Stdout:
    """Standard output kept apart per thread."""
    def __init__(self): self.buf = {}; self.old = None
    def write(self, s):
        self.buf.setdefault(threading.get_ident(), io.StringIO()).write(s); return len(s)
    def flush(self): pass
    def isatty(self): return False
    encoding = 'utf-8'
    def take(self):
        b = self.buf.pop(threading.get_ident(), None); return b.getvalue() if b else ''
    def __enter__(self): self.old = sys.stdout; sys.stdout = self; return self
    def __exit__(self, *a): sys.stdout = self.old; return False

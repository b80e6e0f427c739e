"""Other processes.  A pool of freshly started interpreters, each with its own hash seed, that have only
imported the library; a request is answered by a fork of one of them, so every request starts from a
process in which nothing has happened yet.  What the process is like otherwise (clock, heap, random state,
collector, directory, identity of equal strings) is decided by the request."""
import os, sys, json, socket, struct, subprocess, tempfile, shutil, atexit, time, select

SEEDS = [0, 1, 2, 3, 17, 4242, 99991, 4294967295]

# ---- client -------------------------------------------------------------------------------------------
DIR = None
OWNER = None
PROCS = []

def start():
    """Start the pool (once, before the workers are forked)."""
    global DIR, OWNER
    if DIR: return
    from sim import env
    DIR = tempfile.mkdtemp(prefix='verif-proc-'); OWNER = os.getpid()
    for s in SEEDS:
        e = {k: v for k, v in os.environ.items()}
        e['PYTHONHASHSEED'] = str(s)
        PROCS.append(subprocess.Popen([sys.executable, '-m', 'sim.proc', os.path.join(DIR, str(s))], cwd=env.ROOT, env=e,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    for p in PROCS:
        if p.stdout.readline() != b'ready\n': stop(); raise RuntimeError('an interpreter of the pool does not start')
    atexit.register(stop)

def stop():
    global DIR
    if OWNER != os.getpid() or DIR is None: return
    for p in PROCS:
        p.kill(); p.wait()
    shutil.rmtree(DIR, ignore_errors=True); DIR = None

def send(s, data): s.sendall(struct.pack('>I', len(data))+data)
def recv(s):
    b = b''
    while len(b) < 4:
        d = s.recv(4-len(b))
        if not d: return None
        b += d
    n = struct.unpack('>I', b)[0]; b = bytearray()
    while len(b) < n:
        d = s.recv(min(n-len(b), 1 << 20))
        if not d: return None
        b += d
    return bytes(b)

def ask(hashseed, fn, arg):
    """Result of calling module:function with `arg` in a new process of the given hash seed."""
    for _ in range(200):
        s = socket.socket(socket.AF_UNIX)
        try: s.connect(os.path.join(DIR, str(hashseed))); break
        except (BlockingIOError, ConnectionRefusedError): s.close(); time.sleep(.02)
    else: raise RuntimeError('the pool does not answer')
    try:
        send(s, json.dumps(dict(fn=fn, arg=arg)).encode())
        b = recv(s)
    finally: s.close()
    if b is None: return dict(died=True)
    return json.loads(b)

# ---- server ---------------------------------------------------------------------------------------------
def serve(path):
    import signal, importlib, traceback, resource
    from sim import env
    env.bootstrap()
    import props.p15, PyNite.Reporting          # imported ahead; nothing runs
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX); srv.bind(path); srv.listen(128)
    out = os.fdopen(os.dup(1), 'wb'); out.write(b'ready\n'); out.close()
    while True:
        rd, _, _ = select.select([srv, 0], [], [])
        if 0 in rd and not os.read(0, 1): break
        if srv not in rd: continue
        c, _ = srv.accept()
        pid = os.fork()
        if pid:
            c.close(); continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (100, 105)); resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            srv.close()
            q = json.loads(recv(c))
            mod, fn = q['fn'].split(':')
            try: r = getattr(importlib.import_module(mod), fn)(q['arg'])
            except BaseException: r = dict(error=traceback.format_exc()[-2500:])
            send(c, json.dumps(r).encode())
        finally: os._exit(0)

# ---- what a process may be like -------------------------------------------------------------------------
def disturb(p):
    """Make this process as described; returns something to keep alive."""
    import random, gc
    import numpy as np
    keep = []
    t = [p.get('clock', 1.6e9)]; step = p.get('step', 0.0)
    def now():
        t[0] += step
        return t[0]
    for a in ('time', 'monotonic', 'perf_counter', 'process_time'): setattr(time, a, now)
    for a in ('time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns'): setattr(time, a, lambda: int(now()*1e9))
    random.seed(p.get('rnd', 0)); np.random.seed(p.get('rnd', 0) % 2**32)
    if p.get('tz'): os.environ['TZ'] = p['tz']; time.tzset()
    if p.get('lang'): os.environ['LANG'] = os.environ['LC_ALL'] = p['lang']
    if p.get('cwd'): os.chdir(p['cwd'])
    if p.get('heap'):
        rr = random.Random(p['heap']); tmp = []
        for _ in range(rr.randrange(2000, 20000)):
            k = rr.randrange(5); n = rr.randrange(1, 40)
            tmp.append([0.5]*n if k == 0 else {str(i): i for i in range(n)} if k == 1 else 'x'*n*7 if k == 2 else np.zeros(n) if k == 3 else object())
        rr.shuffle(tmp); keep.append(tmp[:len(tmp)//2]); del tmp[:]
    if p.get('gc') == 'off': gc.disable()
    elif p.get('gc') == 'often': gc.set_threshold(20, 2, 2)
    return keep

def strings(x, how):
    """The same data with strings that are all the same object where equal, or all different objects."""
    if isinstance(x, str): return sys.intern(x) if how == 'one' else (x if len(x) < 1 else ''.join([x[:1], x[1:]]) if len(x) > 1 else x)
    if isinstance(x, list): return [strings(v, how) for v in x]
    if isinstance(x, dict): return {strings(k, how): strings(v, how) for k, v in x.items()}
    return x

if __name__ == '__main__':
    sys.path.insert(0, os.getcwd())
    serve(sys.argv[1])

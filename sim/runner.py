"""Seeded search: many simulated runs, each in its own forked process; confirmation, minimisation,
replay files, evidence.  Exit status 0: property held on everything explored; 1: violation; 2: no answer."""
import sys, os, json, time, signal, select, resource, traceback, importlib, subprocess, faulthandler, hashlib
from sim import env
from sim.core import Rng, Violation, Skip, Stats, Log, canon_json

CPU_LIMIT = 45          # seconds of processor time for one run (typical: well under one)
WALL_LIMIT = 400
MEM_LIMIT = 6 << 30
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

def in_package(tb):
    """Does the exception come out of the library (rather than out of the simulator)?"""
    last = None
    for f, _ in traceback.walk_tb(tb): last = f.f_code.co_filename
    files = [f.f_code.co_filename for f, _ in traceback.walk_tb(tb)]
    return any(env.is_pkg_file(f) for f in files)

def where(tb):
    out = ''
    for f, ln in traceback.walk_tb(tb):
        if env.is_pkg_file(f.f_code.co_filename): out = '%s:%s' % (os.path.basename(f.f_code.co_filename), f.f_code.co_name)
    return out

def run_scenario(mod, sc, keep_log=False):
    """Execute one scenario in this process -> result dict."""
    st, log = Stats(), Log(keep=keep_log)
    res = dict(out='pass')
    try:
        mod.execute(sc, log, st)
    except Violation as v:
        res = dict(out='violation', cls=v.cls, detail=v.detail)
    except Skip as s:
        res = dict(out='skip', why=s.why)
    except (Exception, KeyboardInterrupt) as e:
        if in_package(e.__traceback__):
            res = dict(out='violation', cls='unexpected-exception %s in %s' % (type(e).__name__, where(e.__traceback__)),
                       detail=''.join(traceback.format_exception(e)[-6:])[-1500:])
        else:
            res = dict(out='error', detail=''.join(traceback.format_exception(e))[-3000:])
    log.add('out', res.get('out'), res.get('cls'), res.get('why'))
    res['digest'] = log.digest(); res['stats'] = dict(st)
    if keep_log: res['log'] = log.lines
    return res

def _child(fn, w):
    os.setpgid(0, 0) if False else None
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT+5))
    try: resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception: pass
    faulthandler.disable()
    code = 0
    try:
        out = fn()
        data = json.dumps(out).encode()
    except BaseException:
        data = json.dumps(dict(out='error', detail=traceback.format_exc()[-3000:], digest='', stats={})).encode()
    off = 0
    while off < len(data): off += os.write(w, data[off:off+65536])
    os.close(w)
    sys.stdout.flush() if False else None
    os._exit(0)

def forked(fn):
    """Run fn in a forked child; its result, or how the child died."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r); _child(fn, w)
    os.close(w)
    buf = b''; t0 = time.monotonic(); dead = None
    while True:
        left = WALL_LIMIT-(time.monotonic()-t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL); dead = 'wall'; break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            d = os.read(r, 1 << 20)
            if not d: break
            buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf and dead is None:
        try: return json.loads(buf)
        except ValueError: pass
    if dead == 'wall': return dict(out='error', detail='run blocked for %d s' % WALL_LIMIT, digest='', stats={})
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s in (signal.SIGXCPU, signal.SIGKILL):
            return dict(out='violation', cls='no-progress', detail='the run did not finish within %d s of processor time' % CPU_LIMIT, digest='cpu', stats={})
        return dict(out='violation', cls='crash', detail='the process died from signal %d' % s, digest='sig', stats={})
    return dict(out='error', detail='child ended with status %r without a result' % status, digest='', stats={})

def one(mod, seed, tier, idx, keep_sc=False):
    def fn():
        try:
            sc = mod.generate(Rng.derive(mod.ID, seed, idx), tier)
        except (Exception, KeyboardInterrupt):
            return dict(out='error', detail='generator: '+traceback.format_exc()[-2500:], digest='', stats={})
        sc.setdefault('property', mod.ID); sc['origin'] = dict(seed=seed, tier=tier, index=idx)
        res = run_scenario(mod, sc)
        res['shape'] = hashlib.sha256(canon_json(sc['steps']).encode()).hexdigest()[:16]
        if res['out'] in ('violation', 'error') or keep_sc: res['sc'] = sc
        return res
    res = forked(fn)
    if res.get('cls') in ('no-progress', 'crash') and 'sc' not in res:
        got = forked(lambda: dict(out='sc', sc=dict(mod.generate(Rng.derive(mod.ID, seed, idx), tier), property=mod.ID,
                     origin=dict(seed=seed, tier=tier, index=idx))))
        res['sc'] = got.get('sc')
    res['idx'] = idx
    return res

def worker(mod, seed, tier, jobs_r, out_w):
    """Takes indices (4-byte) from a shared pipe, writes JSON lines."""
    while True:
        b = os.read(jobs_r, 4)
        if len(b) < 4: break
        idx = int.from_bytes(b, 'big')
        res = one(mod, seed, tier, idx)
        line = json.dumps(res).encode()
        os.write(out_w, len(line).to_bytes(4, 'big'))
        off = 0
        while off < len(line): off += os.write(out_w, line[off:off+65536])
    os._exit(0)

def search(mod, seed, tier, n, cap, stop_after=3):
    """Run indices 0..n-1 on WORKERS processes. Returns results sorted by index, capped flag."""
    env.bootstrap()
    if hasattr(mod, 'preload'): mod.preload()
    jr, jw = os.pipe()
    outs = []
    pids = []
    for k in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(jw); os.close(r)
            for rr, _ in outs: os.close(rr)
            worker(mod, seed, tier, jr, w)
        os.close(w)
        outs.append((r, bytearray())); pids.append(pid)
    os.close(jr)
    os.set_blocking(jw, False)
    nxt, results, bad = 0, [], 0
    t0 = time.monotonic(); capped = False
    live = {r: b for r, b in outs}
    open_jw = True
    inflight = 0
    last = t0
    while live:
        # keep only a few jobs queued so that stopping is quick
        while open_jw and nxt < n and inflight < WORKERS+4:
            try: os.write(jw, nxt.to_bytes(4, 'big'))
            except BlockingIOError: break
            nxt += 1; inflight += 1
        now = time.monotonic()
        if open_jw and (nxt >= n or bad >= stop_after or now-t0 > cap):
            if nxt < n and bad < stop_after: capped = True
            os.close(jw); open_jw = False
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if not d: del live[r]; os.close(r); continue
            b = live[r]; b += d
            while len(b) >= 4:
                ln = int.from_bytes(b[:4], 'big')
                if len(b) < 4+ln: break
                res = json.loads(bytes(b[4:4+ln])); del b[:4+ln]
                inflight -= 1
                results.append(res)
                if res['out'] in ('violation', 'error'): bad += 1
        if os.environ.get('VERIF_PROGRESS') and time.monotonic()-last > 10:
            last = time.monotonic(); print('  %d/%d runs, %d bad' % (len(results), n, bad), file=sys.stderr, flush=True)
    for p in pids: os.waitpid(p, 0)
    results.sort(key=lambda r: r['idx'])
    return results, capped

# ---- confirmation and minimisation --------------------------------------------------------------------
def execute_forked(mod, sc, keep_log=False):
    return forked(lambda: run_scenario(mod, sc, keep_log))

def minimise(mod, sc, cls, budget):
    """Delta debugging over the steps (and whatever else the property module offers)."""
    t0 = time.monotonic(); tried = 0
    def bad(steps):
        nonlocal tried
        tried += 1
        c = dict(sc); c['steps'] = steps
        r = execute_forked(mod, c)
        return r['out'] == 'violation' and r.get('cls') == cls
    steps = list(sc['steps']); k = 2
    while len(steps) >= 2 and time.monotonic()-t0 < budget:
        size = max(1, len(steps)//k); hit = False
        i = 0
        while i < len(steps) and time.monotonic()-t0 < budget:
            trial = steps[:i]+steps[i+size:]
            if trial and bad(trial): steps = trial; hit = True
            else: i += size
        if size == 1 and not hit: break
        if not hit or size > 1: k = min(len(steps), k*2) if len(steps) else 1
    if hasattr(mod, 'simplify'):
        cur = dict(sc); cur['steps'] = steps
        for trial in mod.simplify(cur):
            if time.monotonic()-t0 > budget*1.5: break
            r = execute_forked(mod, trial)
            if r['out'] == 'violation' and r.get('cls') == cls: cur = trial
        steps = cur['steps']; sc = cur
    out = dict(sc); out['steps'] = steps
    out['minimised_from'] = len(sc['steps']) if 'minimised_from' not in sc else sc['minimised_from']
    return out, tried

def write_replay(mod, sc, res, directory):
    os.makedirs(directory, exist_ok=True)
    body = dict(property=mod.ID, title=mod.TITLE, violation=dict(cls=res['cls'], detail=res['detail']), digest=res['digest'], scenario=sc)
    name = '%s-%s.json' % (mod.ID, hashlib.sha256(canon_json(sc['steps']).encode()).hexdigest()[:12])
    path = os.path.join(directory, name)
    with open(path, 'w') as f: json.dump(body, f, indent=1)
    return path

def replay(path):
    """Replay a file in this (fresh) process's child; exit 1 if it reproduces exactly."""
    body = json.load(open(path))
    mod = importlib.import_module('props.'+body['property'].lower())
    env.bootstrap()
    if hasattr(mod, 'preload'): mod.preload()
    r = execute_forked(mod, body['scenario'], keep_log=True)
    for l in r.get('log', [])[-60:]: print('   ', l)
    print('outcome: %s %s' % (r['out'], r.get('cls', r.get('why', ''))))
    if r.get('detail'): print('   ', r['detail'])
    same = r['out'] == 'violation' and r['cls'] == body['violation']['cls'] and r['digest'] == body['digest']
    print('execution digest %s, recorded %s' % (r['digest'], body['digest']))
    if r['out'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
        return 1
    return 0 if r['out'] in ('pass', 'skip') else 2

# ---- known findings --------------------------------------------------------------------------------------
def known_findings(pid):
    p = os.path.join(env.ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]

# ---- entry -----------------------------------------------------------------------------------------------
def main(pid, tier):
    mod = importlib.import_module('props.'+pid.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    n = int(os.environ.get('VERIF_RUNS', mod.RUNS[tier]))
    cap = float(os.environ.get('VERIF_CAP', 420 if tier == 'quick' else 6*3600))
    t0 = time.monotonic()
    env.bootstrap()
    results, capped = search(mod, seed, tier, n, cap)
    t_search = time.monotonic()-t0
    total = Stats(); shapes = set(); digests = set(); outs = Stats(); skips = Stats()
    for r in results:
        total.merge(r.get('stats') or {}); outs.inc(r['out'])
        if r.get('shape'): shapes.add(r['shape'])
        if r.get('digest') and r['out'] in ('pass', 'violation'): digests.add(r['digest'])
        if r['out'] == 'skip': skips.inc(r['why'])
    errors = [r for r in results if r['out'] == 'error']
    viols = [r for r in results if r['out'] == 'violation']
    # known findings
    known = known_findings(pid)
    def is_known(r):
        for f in known:
            if f.get('cls') == r.get('cls') and f.get('contains', '') in r.get('detail', ''): return f
    new = []
    for r in viols:
        f = is_known(r)
        if f is None: new.append(r)
    if os.environ.get("VERIF_SHOWERR"):
        for r in errors[:2]: print(r["idx"], r["detail"])
    status, line, replays, unconfirmed = 0, None, [], []
    for f in known:
        if 'scenario' in f:
            rr = execute_forked(mod, f['scenario'])
            if rr['out'] == 'violation': print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    # determinism self-check: some runs executed a second time must give the same event log
    again = [r for r in results if r['out'] == 'pass'][:: max(1, len(results)//6)][:6]
    nondet = 0
    for r in again:
        r2 = one(mod, seed, tier, r['idx'])
        if r2['digest'] != r['digest']: nondet += 1
    seen_cls = set()
    for r in new:
        if r['cls'] in seen_cls or len(replays) >= 3: continue
        sc = r['sc']
        got = None
        for _ in range(3):
            c = execute_forked(mod, sc)
            if c['out'] == 'violation': got = c; break
        if got is None: unconfirmed.append(r); continue
        seen_cls.add(got['cls'])
        small, tried = minimise(mod, sc, got['cls'], 45 if tier == 'quick' else 120) if got['cls'] != 'no-progress' else (sc, 0)
        fin = execute_forked(mod, small)
        if fin['out'] != 'violation': small, fin = sc, got
        path = write_replay(mod, small, fin, os.path.join(os.environ.get('VERIF_OUT', env.ROOT), 'replays'))
        replays.append(path)
        print('seed %d run %d: %s: %s' % (seed, r['idx'], fin['cls'], fin['detail'][:600]))
        print('  %d steps, minimised from %d' % (len(small['steps']), len(sc['steps'])))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        status = 1
        if tier == 'quick': break
    if status == 0 and (errors or unconfirmed):
        status = 2
        for r in (errors+unconfirmed)[:3]:
            print('NO ANSWER run %s: %s' % (r['idx'], (r.get('detail') or '')[-1800:]))
    if status == 0 and len(results) < n*0.6:
        status = 2; print('NO ANSWER: only %d of %d runs finished within %d s' % (len(results), n, cap))
    wall = time.monotonic()-t0
    evaluated = [r for r in results if r['out'] == 'pass']
    places = {k for k in total if k.startswith('at ')}
    extra = {k: v for k, v in total.items() if not k.startswith('at ')}
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2),
        coverage=dict(evaluations=len(results), distinct_nontrivial=len(digests),
            rule='one evaluation is one simulated run generated from (property, seed, index); distinct_nontrivial counts runs '
                 'with a different event log (operations, outcomes, faults and result digests) that reached a verdict',
            samples=mod.samples(seed, tier) if hasattr(mod, 'samples') else default_samples(mod, seed, tier),
            outcomes=dict(outs), skipped=dict(skips), distinct_scenarios=len(shapes),
            runs_per_hour=round(len(results)/max(t_search, 1e-3)*3600), seeds='%d, indices 0..%d' % (seed, len(results)-1),
            counters={k: extra[k] for k in sorted(extra)},
            faults_injected={k[6:]: v for k, v in sorted(extra.items()) if k.startswith('fault ')},
            distinct_interrupt_places=len(places),
            simulated_time='%d steps of simulated history (the library reads no clock; time is counted in steps and, for '
                           'interrupts, in executed source lines)' % total.get('steps', 0),
            real_components=mod.REAL, stubs=mod.STUBS, rerun_for_determinism=len(again), rerun_differences=nondet,
            capped=capped, replays=replays))
    if getattr(mod, 'ASSUMPTIONS', None): ev['assumptions'] = mod.ASSUMPTIONS
    if status == 1: ev['violations'] = [dict(cls=r['cls'], detail=r['detail'][:500]) for r in new[:5]]
    os.makedirs(os.path.join(env.ROOT, 'evidence'), exist_ok=True)
    if not os.environ.get('VERIF_NOEVIDENCE'):
        with open(os.path.join(env.ROOT, 'evidence', pid+'.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d runs in %.1f s (%s), %d distinct executions%s' % (pid, tier, len(results), wall,
          ', '.join('%s %d' % kv for kv in sorted(outs.items())), len(digests), ', %d re-runs differed' % nondet if nondet else ''))
    return status

def default_samples(mod, seed, tier):
    out = []
    for idx in (0, 1, 2):
        try: out.append(dict(index=idx, steps=mod.generate(Rng.derive(mod.ID, seed, idx), tier)['steps'][-14:]))
        except Exception as e: out.append(repr(e))
    return out

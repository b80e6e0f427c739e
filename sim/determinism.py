"""The same seeds in different surroundings: every run's digest (each step, fault and answer) has to come out the same."""
import sys, os, json, subprocess, importlib
from sim import runner, env

def digests(pid, n):
    mod = importlib.import_module('props.'+pid.lower())
    res, _ = runner.search(mod, int(os.environ.get('VERIF_SEED', '1')), 'quick', n, 800, stop_after=10**9)
    return [[r['idx'], r['out'], r.get('digest')] for r in res]

def main(ids, n):
    bad = 0
    for pid in ids:
        got = []
        for workers, hashseed in ((8, '0'), (3, '0'), (8, '4242')):
            e = dict(os.environ, VERIF_WORKERS=str(workers), VERIF_HASHSEED=hashseed, PYTHONHASHSEED=hashseed)
            p = subprocess.run([sys.executable, '-m', 'sim.determinism', pid, str(n)], cwd=env.ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            got.append(json.loads(p.stdout.split(b'DIGESTS ')[1]))
        d = [a[0] for a, b, c in zip(*got) if not a == b == c]
        print('%s: %d runs, three times each (8 and 3 workers, two hash seeds): %s' % (pid, len(got[0]), 'identical' if not d else 'differ: '+str(d[:10])), flush=True)
        bad += bool(d) or not len(got[0]) == len(got[1]) == len(got[2])
    return 1 if bad else 0

if __name__ == '__main__':
    out = digests(sys.argv[1], int(sys.argv[2]))
    print('DIGESTS '+json.dumps(out))

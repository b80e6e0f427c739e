"""Deterministic core: one integer decides everything."""
import hashlib, json, random

class Rng(random.Random):
    """Seeded PRNG; every random choice of a run comes from one of these."""
    @classmethod
    def derive(cls, *parts):
        h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).hexdigest()
        return cls(int(h[:16], 16))
    def chance(self, p):
        return self.random() < p
    def pick(self, seq):
        return seq[int(self.random()*len(seq))]
    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        r = self.random()*tot
        for v, w in pairs:
            r -= w
            if r < 0: return v
        return pairs[-1][0]
    def num(self, lo, hi, nd=3):
        return round(self.uniform(lo, hi), nd)
    def sub(self, name):
        return Rng.derive(self.getrandbits(60), name)

class Violation(Exception):
    """The property is broken. `cls` identifies the class of failure (kept stable while minimising)."""
    def __init__(self, cls, detail):
        super().__init__('%s: %s' % (cls, detail))
        self.cls, self.detail = cls, detail

class Skip(Exception):
    """The run cannot decide anything (inapplicable, ill-conditioned, ambiguous); counted, never silent."""
    def __init__(self, why):
        super().__init__(why)
        self.why = why

class Stats(dict):
    def inc(self, key, n=1):
        self[key] = self.get(key, 0) + n
    def merge(self, other):
        for k, v in other.items(): self[k] = self.get(k, 0) + v

class Log:
    """Event log of one run: its hash identifies the execution (used for determinism proofs and for
    counting distinct interleavings); never draws random numbers, never reads a clock."""
    def __init__(self, keep=True):
        self.h = hashlib.sha256(); self.keep = keep; self.lines = []
    def add(self, *parts):
        s = ' '.join(str(p) for p in parts)
        self.h.update(s.encode()); self.h.update(b'\n')
        if self.keep and len(self.lines) < 4000: self.lines.append(s)
    def digest(self):
        return self.h.hexdigest()[:16]

def canon_json(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))

"""P12: the answer does not depend on the order or names used to enter a model."""
import copy
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT, CASES
from sim import faults, geom, posed, observe as ob
from sim.world import selected, analyze, api, NEW_KIND
from sim.spec import Spec, KINDS, DOFS
from props.common import REAL
from props.p11 import orphan, panel_bad
ID = 'P12'
TITLE = 'The answer does not depend on the order or names used to enter a model'
RUNS = dict(quick=450, thorough=18000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['differences that disappear behind round-off (a one-way part within 1e-7 of switching, equations with a condition above 1e10, '
               'answers that change when stiffness and loads change by 1e-9) are counted and not judged',
               'names are any non-empty unique strings; load cases and combinations are renamed too']
tol = 1e-6

def generate(r, tier):
    g = Gen(r, combos=(0, 4), nodes=(3, 7), panels=.3, mesh=.12, small_mesh=True, sprsup=.5, oneway=.5, tc=.45, enf=.4, internal=.6, aux=.4, loads=(4, 9))
    g.base()
    steps = g.ops
    if r.chance(.25): g.near_nodes()
    if r.chance(.15): g.equal_springs()
    w = dict(EDITS); w.update(DIRECT); w.update(mesh=.1, merge=.1)
    for k in range(r.randrange(1, 3 if tier == 'quick' else 6)):
        if r.chance(.3): steps.append(analysis(r, spec=g.spec))
        if r.chance(.1): steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        for _ in range(r.randrange(0, 5)): g.edit(w)
        a = analysis(r, spec=g.spec)
        steps.append(['perm', r.getrandbits(32)]+a[1:])
    return dict(steps=steps)

def entry_ops(s):
    """Editing calls that enter the definition, each with the handles that must exist before it."""
    out = []
    add = lambda op, *need: out.append((op, {n for n in need if n}))
    for h, e in s.mats.items(): add(['mat', h, e['name'], e['E'], e['G'], e['nu'], e['rho']])
    for h, e in s.secs.items(): add(['sec', h, e['name'], e['A'], e['Iy'], e['Iz'], e['J'], e['mat']], e['mat'])
    for h, e in s.nodes.items():
        add(['node', h, e['name'], e['X'], e['Y'], e['Z']])
        if any(e['sup']): add(['sup', h, list(e['sup'])], h)
        for d, (k, sg) in e['spr'].items(): add(['spr', h, d, k, sg], h)
        for d, v in e['enf'].items(): add(['enf', h, d, v], h)
        for l in e['loads']: add(['nload', h]+list(l), h)
    for h, e in s.aux.items(): add(['aux', h, e['name'], e['X'], e['Y'], e['Z']])
    for h, e in s.springs.items(): add(['spring', h, e['name'], e['i'], e['j'], e['ks'], e['t'], e['c']], e['i'], e['j'])
    for h, e in s.members.items():
        add(['member', h, e['name'], e['i'], e['j'], e['mat'], {k: e[k] for k in ('A', 'Iy', 'Iz', 'J')}, e['aux'], e['t'], e['c'], None], e['i'], e['j'], e['mat'], e['aux'])
        if any(e['rel']): add(['rel', h, list(e['rel'])], h)
        for p in e['pt']: add(['mpt', h]+list(p), h)
        for d in e['dist']: add(['mdist', h]+list(d), h)
    for kind, k, q in (('plates', 'plate', 'pp'), ('quads', 'quad', 'qp')):
        for h, e in getattr(s, kind).items():
            add([k, h, e['name'], e['i'], e['j'], e['m'], e['n'], e['t'], e['mat'], e['kx'], e['ky']], e['i'], e['j'], e['m'], e['n'], e['mat'])
            for p in e['pr']: add([q, h]+list(p), h)
    for c, e in s.combos.items(): add(['combo', c, dict(e['factors']), e['tags']])
    return out

ODD = ['%d', 'N%d', 'M%d', 'Combo %d', 'é-%d', ' n %d ', 'x.%d', 'None%d', 'S%d', '0%d', 'P%d', 'q%d"\'', 'Case %d', 'N%d ', '-%d', 'Z%d']

def renamer(r, style):
    """Fresh unique names per kind; the same name may serve in several kinds."""
    used = {}
    pool = list(range(1, 400)); r.shuffle(pool)
    def f(kind, old):
        u = used.setdefault(kind, set())
        while True:
            n = r.pick(pool)
            nm = '%d' % n if style == 'number' else r.pick(ODD) % n if style == 'odd' else '%s%d' % (dict(nodes='N', members='M', springs='S', plates='P', quads='Q', aux='AN').get(kind, 'c'), n)
            if nm not in u: u.add(nm); return nm
    return f

class P12(Run):
    def do_perm(self, op):
        _, seed, kind, opts = op
        r = Rng.derive('perm', seed)
        s = self.spec
        if not geom.valid(s) or any(panel_bad(s)): self.st.inc('not judged: outside the documented domain'); return
        if not s.combos: opts = {k: v for k, v in opts.items() if k != 'combo_tags'}
        elif not selected(s, opts): opts = {k: v for k, v in opts.items() if k != 'combo_tags'}
        m0 = copy.deepcopy(self.model) if r.chance(.5) else self.model
        e0 = analyze(m0, kind, opts)
        if m0 is self.model:
            self.w.absorb(); self.w.note_default_combo()
        combos = selected(s, opts) if s.combos else list(m0.load_combos)
        if not all(x['generated'] for x in s.meshes.values()): self.st.inc('not judged: mesh not generated'); return
        v0 = ob.observe(m0, s, combos) if e0 is None else None
        self.log.add(self.i, kind, 'ok' if e0 is None else type(e0).__name__, '' if v0 is None else ob.digest(v0))
        for k in range(2):
            style = r.pick(['number', 'odd', 'auto', 'same'])
            m1, t, cn = self.enter(r, style, reverse=(k == 0 and r.chance(.3)))
            e1 = analyze(m1, kind, opts)
            self.st.inc('permuted models'); self.st.inc('names: '+style)
            what = '%s, entered in another order with names in style %r: ' % (kind, style)
            if (e0 is None) != (e1 is None):
                self.unless_ambiguous(kind, opts, 'outcome', what+'%s against %s' % tuple('success' if e is None else 'failure (%r)' % e for e in (e0, e1)))
                continue
            if e0 is not None: self.st.inc('failures compared'); continue
            w1 = ob.observe(m1, t, [cn.get(c, c) for c in combos])
            back = {cn.get(c, c): c for c in combos}
            v1 = {(back[c],)+rest: x for (c, *rest), x in w1.items() for rest in [tuple(rest)]}
            self.st.inc('values compared', len(v0))
            d = ob.compare(v0, v1, ob.lc(s), tol, skip=lambda k: k[3] == 'active')
            if d: self.unless_ambiguous(kind, opts, 'results', what+d)

    def enter(self, r, style, reverse=False):
        s = self.spec
        t = Spec(); cn = {}
        ops = entry_ops(s)
        if style != 'same':
            f = renamer(r, style)
            cases = {}
            for op, need in ops:
                if op[0] in NEW_KIND: op[2] = f(NEW_KIND[op[0]], op[2])
                if op[0] == 'combo' and s.combos: cn[op[1]] = f('combos', op[1]); op[1] = cn[op[1]]
                for c in (list(op[2]) if op[0] == 'combo' else [op[-1]] if op[0] in ('nload', 'mpt', 'mdist', 'pp', 'qp') else []):
                    if c not in cases: cases[c] = f('cases', c) if s.combos else c
                if op[0] == 'combo':
                    fs = [(cases[c], v) for c, v in op[2].items()]; r.shuffle(fs); op[2] = dict(fs)
                elif op[0] in ('nload', 'mpt', 'mdist', 'pp', 'qp'): op[-1] = cases[op[-1]]
        r.shuffle(ops)
        if reverse: ops.sort(key=lambda o: 0 if o[0][0] in ('node', 'mat', 'aux', 'sec') else 1)
        from PyNite import FEModel3D
        m = FEModel3D(); have = set(); pos = 0
        while ops:
            for i, (op, need) in enumerate(ops):
                if need <= have: break
            else: raise RuntimeError('circular entry order')
            op, need = ops.pop(i)
            try: api(m, t, op)
            except Exception as e: raise Violation('legal-edit-refused', 'entering the model in another order: %s raised %r' % (op, e))
            t.apply(op, op[2] if op[0] in NEW_KIND else None)
            if op[0] in NEW_KIND: have.add(op[1])
            mm = t.members.get(op[1]) if op[0] == 'member' else None
            if mm is not None:
                e = s.members[op[1]]; o = m.members[op[2]]
                for a in 'EG':
                    if e[a] != s.mats[e['mat']][a]: setattr(o, a, e[a]); mm[a] = e[a]
        # the view goes by the handles of the original, in its order
        for kind in KINDS:
            d = getattr(t, kind); src = getattr(s, kind)
            setattr(t, kind, {h: d[h] for h in src if h in d})
        return m, t, cn

    def unless_ambiguous(self, kind, opts, cls, detail):
        s = self.spec
        if cls == 'outcome' and any(orphan(s, h) for h in s.nodes): raise Violation(cls, detail)
        if not geom.surely_stable(s): self.st.inc('not judged: nearly singular'); return
        why = posed.ambiguous(s, kind, {k: v for k, v in opts.items() if k in ('combo_tags', 'max_iter')}, tol)
        if why: self.st.inc('not judged: '+why); return
        raise Violation(cls, detail)

def execute(sc, log, st):
    P12(sc, log, st).go()

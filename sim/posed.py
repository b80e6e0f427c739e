"""Is a disagreement between two routes to the same answer decided by round-off?  Used only after a
difference was found, and only between routes whose arithmetic differs (sparse and dense solvers, other
entry orders, subdivided members): one-way parts that sit within round-off of switching, and equations that
are ill-conditioned, admit more than one answer, and such differences are counted, not reported."""
import numpy as np
from sim.core import Rng
from sim.world import build, analyze, selected
from sim import observe as ob
from sim.spec import DOFS

def _clean(opts): return {k: v for k, v in opts.items() if k not in ('log', 'stdout', 'check_statics')}

def one_way(s):
    return any(m['t'] or m['c'] for m in s.members.values()) or any(x['t'] or x['c'] for x in s.springs.values()) or \
        any(v[1] for n in s.nodes.values() for v in n['spr'].values())

def perturbed(spec, r, d):
    s = spec.copy()
    f = lambda: 1+d*r.uniform(-1, 1)
    for m in s.members.values():
        for k in ('A', 'Iy', 'Iz', 'J'): m[k] *= f()
        for p in m['pt']: p[1] *= f()
        for q in m['dist']: q[1] *= f(); q[2] *= f()
    for x in s.springs.values(): x['ks'] *= f()
    for n in s.nodes.values():
        for l in n['loads']: l[1] *= f()
        for v in n['spr'].values():
            if v[0]: v[0] *= f()
    for p in list(s.plates.values())+list(s.quads.values()): p['t'] *= f()
    return s

def _run(spec, kind, opts):
    m = build(spec); e = analyze(m, kind, opts)
    if e is not None: return type(e).__name__, None, None
    return None, m, ob.observe(m, spec, selected(spec, opts), 'light')

def condition(model, spec, combos):
    """Largest condition number of the scaled equations of the given combinations (as far as it can be told)."""
    worst = 1.0
    known = []
    for i, n in enumerate(spec.nodes.values()):
        o = model.nodes[n['name']]
        for j, d in enumerate(DOFS):
            if n['sup'][j] or d in n['enf']: known.append(6*o.ID+j)
    free = [i for i in range(6*len(spec.nodes)) if i not in set(known)]
    if not free: return worst
    for c in combos:
        K = model.K(c, False, False, False)
        K = np.asarray(K.toarray() if hasattr(K, 'toarray') else K, float)[np.ix_(free, free)]
        sc = 1/np.sqrt(np.maximum(np.abs(np.diag(K)), 1e-300))
        w = np.linalg.eigvalsh(K*sc[:, None]*sc[None, :])
        worst = max(worst, w[-1]/w[0] if w[0] > 0 else np.inf)
    return worst

def stretch(model, spec, e, c):
    """Change of length according to the reported displacements."""
    a, b = spec.nodes[e['i']], spec.nodes[e['j']]
    x = np.array([b[k]-a[k] for k in 'XYZ'], float); x /= np.linalg.norm(x)
    d = [np.array([getattr(model.nodes[n['name']], q)[c] for q in ('DX', 'DY', 'DZ')], float) for n in (a, b)]
    return float(x@(d[1]-d[0]))

def ambiguous(spec, kind, opts, tol=1e-6):
    """Reason why round-off may decide the answer, or None."""
    if not spec.combos:
        spec = spec.copy(); spec.combos['Combo 1'] = dict(factors={'Case 1': 1.0}, tags=None)
    opts = _clean(opts)
    e0, m, v0 = _run(spec, kind, opts)
    L = ob.lc(spec)
    r = Rng.derive('posed', len(spec.nodes), len(spec.members))
    if e0 is None:
        try:
            if condition(m, spec, selected(spec, opts)) > 1e10: return 'ill-conditioned'
        except Exception: pass
    ones = one_way(spec)
    for k in range(4 if not ones else 8):
        e1, m1, v1 = _run(perturbed(spec, r, 1e-9), kind, opts)
        if e1 != e0: return 'outcome decided by round-off'
        if e0 is None and ob.compare(v0, v1, L, tol*.3, skip=lambda k: k[3] == 'active'): return 'sensitive to round-off'
    if ones and kind == 'general':
        F = max([abs(v) for (c, k, h, q), (t, v) in v0.items() if t == ob.FORCE and isinstance(v, float)]+[1e-6]) if e0 is None else 100.0
        D = max([abs(v) for (c, k, h, q), (t, v) in v0.items() if t == ob.DISP and isinstance(v, float)]+[1e-9]) if e0 is None else 1.0
        for tm, ts in ((1e-7*F, 0), (-1e-7*F, 0), (0, 1e-8*D), (0, -1e-8*D)):
            e1, m1, v1 = _run(spec, kind, dict(opts, member_tolerance=tm, spring_tolerance=ts))
            if e1 != e0: return 'outcome decided by round-off'
            if e0 is None and ob.compare(v0, v1, L, tol*.3, skip=lambda k: k[3] == 'active'): return 'one-way part within round-off of switching'
    if ones and e0 is None:
        for c in selected(spec, opts):
            F = max([abs(v) for (cc, k, h, q), (t, v) in v0.items() if cc == c and t == ob.FORCE and isinstance(v, float)]+[1e-6])
            dis = [abs(v) for (cc, k, h, q), (t, v) in v0.items() if cc == c and q in ob.DIS and isinstance(v, float)]
            d = max(dis+[1e-9])
            for h, e in spec.members.items():
                if e['t'] or e['c']:
                    o = m.members[e['name']]
                    if o.active[c]:
                        ext = o.max_axial(c) if e['t'] else o.min_axial(c)
                        if abs(ext) < 1e-8*F: return 'one-way part within round-off of switching'
                    elif abs(stretch(m, spec, e, c))*e['E']*e['A']/spec.length(e) < 1e-8*F: return 'one-way part within round-off of switching'
            for h, e in spec.springs.items():
                if (e['t'] or e['c']) and abs(stretch(m, spec, e, c))*e['ks'] < 1e-8*F: return 'one-way part within round-off of switching'
            for h, e in spec.nodes.items():
                for dof, v in e['spr'].items():
                    if v[1] and abs(getattr(m.nodes[e['name']], dof)[c]) < 1e-9*d: return 'one-way part within round-off of switching'
    return None

"""Validity and conservative stability of a reference definition (used while generating, never as an oracle)."""
import numpy as np
from sim.spec import DOFS

def xyz(spec, h):
    n = spec.nodes[h]
    return np.array([n['X'], n['Y'], n['Z']], float)

def internal_nodes(spec, m):
    """Nodes strictly inside member `m`, ordered from its i-end."""
    a, b = xyz(spec, m['i']), xyz(spec, m['j'])
    v = b-a; L = np.linalg.norm(v)
    out = []
    for h in spec.nodes:
        if h in (m['i'], m['j']): continue
        w = xyz(spec, h)-a; lw = np.linalg.norm(w)
        if lw == 0 or lw >= L: continue
        c = float(w @ v)/(L*lw)
        if c > 1-1e-9: out.append((lw, h))
    return [h for _, h in sorted(out)]

def near_miss(spec, m):
    """A node so close to the axis that 'on the member' is a matter of round-off."""
    a, b = xyz(spec, m['i']), xyz(spec, m['j'])
    v = b-a; L = np.linalg.norm(v)
    for h in spec.nodes:
        if h in (m['i'], m['j']): continue
        w = xyz(spec, h)-a; lw = np.linalg.norm(w)
        if lw == 0: continue
        c = float(w @ v)/(L*lw)
        if 1-1e-7 < c < 1-1e-12: return True
        if c >= 1-1e-12 and abs(lw-L) < 1e-6*L: return True
    return False

def coincident(spec, tol=1e-2):
    hs = list(spec.nodes)
    P = np.array([xyz(spec, h) for h in hs])
    for i in range(len(hs)):
        if i+1 < len(hs) and np.min(np.linalg.norm(P[i+1:]-P[i], axis=1)) < tol: return True
    return False

def valid(spec, allow_coincident=False):
    if not allow_coincident and coincident(spec): return False
    for n in spec.nodes.values():
        for i, d in enumerate(DOFS):
            if d in n['spr'] and (n['sup'][i] or d in n['enf']): return False
            if d in n['enf'] and not n['sup'][i]: return False
    for m in spec.members.values():
        if m['i'] == m['j']: return False
        L = spec.length(m)
        if L < 1: return False
        if near_miss(spec, m): return False
        for p in m['pt']:
            if p[2] > L*(1+1e-12): return False
        for d in m['dist']:
            if max(d[3], d[4]) > L*(1+1e-12) or d[3] >= d[4]: return False
        if m['aux'] is not None:
            a = spec.aux[m['aux']]
            v = xyz(spec, m['j'])-xyz(spec, m['i']); w = np.array([a['X'], a['Y'], a['Z']])-xyz(spec, m['i'])
            if np.linalg.norm(np.cross(v, w)) < 0.05*np.linalg.norm(v)*max(np.linalg.norm(w), 1): return False
    for s in spec.springs.values():
        if s['i'] == s['j']: return False
        if np.linalg.norm(xyz(spec, s['i'])-xyz(spec, s['j'])) < 1: return False
    for p in list(spec.plates.values())+list(spec.quads.values()):
        c = [p[k] for k in 'ijmn']
        if len(set(c)) != 4: return False
    return True

def clusters(spec):
    """Panels that share two nodes or more move as one body (a common node alone is a pin about the normal):
    list of (nodes, normals)."""
    ps = [[p[k] for k in 'ijmn'] for p in list(spec.plates.values())+list(spec.quads.values())]
    par = list(range(len(ps)))
    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]; i = par[i]
        return i
    at = {}
    for i, p in enumerate(ps):
        for h in p: at.setdefault(h, []).append(i)
    for i, p in enumerate(ps):
        for j in {j for h in p for j in at[h] if j < i}:
            if len(set(p) & set(ps[j])) >= 2: par[find(i)] = find(j)
    out = {}
    for i, p in enumerate(ps):
        hs, ns = out.setdefault(find(i), ([], []))
        for h in p:
            if h not in hs: hs.append(h)
        X = [xyz(spec, h) for h in p]
        z = np.cross(X[2]-X[0], X[3]-X[1]); ns.append(z/max(np.linalg.norm(z), 1e-9))
    return list(out.values())

def components(spec):
    """Nodes tied rigidly together by two-way members."""
    par = {h: h for h in spec.nodes}
    def find(h):
        while par[h] != h:
            par[h] = par[par[h]]; h = par[h]
        return h
    def join(hs):
        for b in hs[1:]: par[find(hs[0])] = find(b)
    for m in spec.members.values():
        if m['t'] or m['c']: continue
        ins = internal_nodes(spec, m)
        chain = ([] if any(m['rel'][:6]) else [m['i']]) + ins + ([] if any(m['rel'][6:]) else [m['j']])
        if len(chain) > 1: join(chain)
    comp = {}
    for h in spec.nodes: comp.setdefault(find(h), []).append(h)
    return list(comp.values())

def constrained(spec, hs, smin=2e-2, normals=None, held=()):
    """Are rigid-body motions of these nodes excluded?  normals: they form a panel cluster, to which nothing
    passes rotations about the normals; held: nodes held by something known to be stable."""
    P = np.array([xyz(spec, h) for h in hs]); c = P.mean(axis=0)
    Lc = max(1.0, float(np.max(np.linalg.norm(P-c, axis=1))))
    drill = [False]*3 if normals is None else [bool(np.abs(np.array(normals)[:, i]).max() > 1e-6) for i in range(3)]
    rows = []
    for h, p in zip(hs, P):
        n = spec.nodes[h]; r = (p-c)/Lc
        for i, d in enumerate(DOFS):
            fixed = n['sup'][i] or d in n['enf'] or (d in n['spr'] and n['spr'][d][1] is None) or h in held
            if not fixed or (i > 2 and drill[i-3]): continue
            row = np.zeros(6)
            if i < 3:
                row[i] = 1
                e = np.zeros(3); e[i] = 1
                row[3:] = np.cross(r, e)      # rigid rotation w: u = w x r
            else: row[i] = 1
            rows.append(row)
    if len(rows) < 6: return False
    s = np.linalg.svd(np.array(rows), compute_uv=False)
    return s[5] > smin*s[0]

def unstable(spec):
    """Groups of nodes not certainly held in place."""
    held = set(); bad = []
    for hs, ns in clusters(spec):
        if constrained(spec, hs, normals=ns): held.update(hs)
        else: bad.append(hs)
    return bad+[hs for hs in components(spec) if not constrained(spec, hs, held=held)]

def surely_stable(spec):
    return not unstable(spec)

def predict_mesh(spec, h):
    """Put the nodes and elements a mesh will consist of into a *generator's* definition (names are
    placeholders; the real names are read back from the model when the operation is executed)."""
    import math
    m = spec.meshes[h]; kw = m['kw']; kind = m['kind']
    if m['generated']: return
    m['generated'] = True
    pts = []; els = []
    o = kw.get('origin') or [0, 0, 0]
    if kind == 'rect':
        s = kw['mesh_size']
        def ctl(L, extra):
            cs = sorted(set([0.0, float(L)]+[float(c) for c in extra])); out = [0.0]
            for a, b in zip(cs, cs[1:]):
                k = math.ceil(max(1, (b-a)/s)); out += [a+(b-a)*t/k for t in range(1, k+1)]
            return out
        ex = list(kw.get('x_control') or []); ey = list(kw.get('y_control') or [])
        for nm, xl, yb, w, hh in m['openings']: ex += [xl, xl+w]; ey += [yb, yb+hh]
        xs, ys = ctl(kw['width'], ex), ctl(kw['height'], ey)
        hole = lambda x0, x1, y0, y1: any(xl-1e-9 <= x0 and x1 <= xl+w+1e-9 and yb-1e-9 <= y0 and y1 <= yb+hh+1e-9
                                          for nm, xl, yb, w, hh in m['openings'])
        used = {}
        quads = []
        for b in range(len(ys)-1):
            for a in range(len(xs)-1):
                if hole(xs[a], xs[a+1], ys[b], ys[b+1]): continue
                quads.append([(a, b), (a+1, b), (a+1, b+1), (a, b+1)])
        need = {c for q in quads for c in q}
        for b in range(len(ys)):
            for a in range(len(xs)):
                if (a, b) in need:
                    used[a, b] = len(pts); x, y = xs[a], ys[b]
                    p = dict(XY=(x, y, 0), YZ=(0, y, x), XZ=(x, 0, y))[kw.get('plane', 'XY')]
                    pts.append([p[i]+o[i] for i in range(3)])
        els = [[used[c] for c in q] for q in quads]
        ek = 'quads' if kw.get('element_type', 'Quad') == 'Quad' else 'plates'
    else:
        ek = 'quads' if kind != 'cylinder' or kw.get('element_type', 'Quad') == 'Quad' else 'plates'
        rings = []
        if kind in ('annulus', 'frustrum'):
            ri, ro = (kw['inner_radius'], kw['outer_radius']) if kind == 'annulus' else (kw['small_radius'], kw['large_radius'])
            s = kw['mesh_size']; n = int(2*math.pi*ri/s); r = ri; rings = [(r, 0)]
            while round(r, 10) < round(ro, 10):
                b = 2*math.pi*r/n
                k = int((ro-r)/min(s, 3*b)); r += (ro-r)/k; rings.append((r, 0))
            if kind == 'frustrum': rings = [(r, (r-ro)/(ro-ri)*kw['height']) for r, _ in rings]
        else:
            n = kw.get('num_elements') or int(round(2*math.pi*kw['radius']/kw['mesh_size'], 0))
            y = 0.0; rings = [(kw['radius'], y)]; H = kw['height']
            while round(y, 10) < round(H, 10):
                k = max(int(round(abs(H-y)/kw['mesh_size'], 10)), 1); y += (H-y)/k; rings.append((kw['radius'], y))
        for r, y in rings:
            for t in range(n):
                a = 2*math.pi*t/n
                pts.append([o[0]+r*math.cos(a), o[1]+y, o[2]+r*math.sin(a)])
        for g in range(len(rings)-1):
            for t in range(n):
                u = (t+1) % n
                els.append([(g+1)*n+t, (g+1)*n+u, g*n+u, g*n+t])
    for i, p in enumerate(pts):
        hh = '%s.n%d' % (h, i)
        spec.nodes[hh] = dict(name='~'+hh, X=p[0], Y=p[1], Z=p[2], sup=[False]*6, spr={}, enf={}, loads=[])
        m['gen_nodes'].append(hh)
    mt = spec.mats[kw['mat']]
    for i, e in enumerate(els):
        hh = '%s.e%d' % (h, i)
        getattr(spec, ek)[hh] = dict(name='~'+hh, i=m['gen_nodes'][e[0]], j=m['gen_nodes'][e[1]], m=m['gen_nodes'][e[2]],
            n=m['gen_nodes'][e[3]], t=kw['thickness'], mat=kw['mat'], kx=kw.get('kx_mod', 1), ky=kw.get('ky_mod', 1), pr=[],
            E=mt['E'], nu=mt['nu'])
        m['gen_els'].append((ek, hh))

"""Drawings: what a renderer put into its scene, and what the model says should be there.

A scene is read from the real VTK / pyvista objects: line segments, four-cornered faces (with the values
mapped to their corners), points, and texts with their positions."""
import math
import numpy as np

class Scene:
    def __init__(self):
        self.segs, self.quads, self.vals, self.pts, self.texts, self.bars = [], [], [], [], [], []
    def add_polydata(self, d):
        import vtk
        from vtk.util.numpy_support import vtk_to_numpy
        if d is None or not d.GetNumberOfPoints(): return
        P = np.array(vtk_to_numpy(d.GetPoints().GetData()), float)
        self.pts.extend(P)
        sc = d.GetPointData().GetScalars()
        S = None
        if sc is not None and sc.GetNumberOfComponents() == 1: S = np.array(vtk_to_numpy(sc), float)
        if d.IsA('vtkPolyData'): groups = [d.GetLines(), d.GetPolys()]
        else: groups = [d.GetCells()]
        for g in groups:
            if g is None: continue
            ids = vtk.vtkIdList()
            g.InitTraversal()
            while g.GetNextCell(ids):
                c = [ids.GetId(i) for i in range(ids.GetNumberOfIds())]
                line = g is groups[0] and d.IsA('vtkPolyData') or len(c) == 2
                if line:
                    for a, b in zip(c, c[1:]): self.segs.append((P[a], P[b]))
                elif len(c) == 4:
                    self.quads.append([P[i] for i in c]); self.vals.append(None if S is None else [S[i] for i in c])
    def done(self):
        self.segs = np.array(self.segs, float).reshape(-1, 2, 3); self.quads = np.array(self.quads, float).reshape(-1, 4, 3)
        self.pts = np.array(self.pts, float).reshape(-1, 3)
        return self

# ---- reading -------------------------------------------------------------------------------------------
def patch_labels():
    """Let pyvista plotters remember the texts they are given (they only reach the screen through OpenGL)."""
    import pyvista as pv
    if getattr(pv.Plotter, '_verif', False): return
    old = pv.Plotter.add_point_labels
    def add_point_labels(self, points, labels, *a, **kw):
        r = old(self, points, labels, *a, **kw)
        if not hasattr(self, '_verif_texts'): self._verif_texts = []
        if isinstance(points, pv.DataSet): P = np.array(points.points, float); t = list(points[labels]) if isinstance(labels, str) else list(labels)
        else: P = np.array(points, float).reshape(-1, 3); t = list(labels)
        self._verif_texts.append((r, [(str(x), tuple(p)) for x, p in zip(t, P)]))
        return r
    pv.Plotter.add_point_labels = add_point_labels
    pv.Plotter._verif = True

def read_pv(plotter):
    s = Scene()
    actors = list(plotter.actors.values())
    for a in actors:
        m = a.GetMapper() if hasattr(a, 'GetMapper') else None
        if m is None or not m.IsA('vtkMapper') : continue
        m.Update(); s.add_polydata(m.GetInput())
    live = {id(a) for a in actors}
    for act, texts in getattr(plotter, '_verif_texts', []):
        if id(act) in live: s.texts.extend(texts)
    plotter._verif_texts = [x for x in getattr(plotter, '_verif_texts', []) if id(x[0]) in live]
    return s.done()

def read_vtk(renderer):
    s = Scene()
    c = renderer.GetViewProps()
    for k in range(c.GetNumberOfItems()):
        a = c.GetItemAsObject(k)
        if a.IsA('vtkScalarBarActor'): s.bars.append(tuple(a.GetLookupTable().GetTableRange()) if a.GetLookupTable() else None)
        if not a.IsA('vtkActor'): continue
        m = a.GetMapper()
        if m is None: continue
        al = m.GetInputAlgorithm() if m.GetNumberOfInputConnections(0) else None
        if al is not None and al.IsA('vtkVectorText'):
            s.texts.append((al.GetText(), tuple(a.GetPosition()))); continue
        m.Update(); s.add_polydata(m.GetInput())
    return s.done()

# ---- what should be there -------------------------------------------------------------------------------
class Expected:
    def __init__(self):
        self.segs, self.quads, self.pts, self.texts = [], [], [], []
        self.arcs = []        # moments: centre, axis, radius, height of the arrow head
        self.near = []        # texts near a place: number, place, distance
        self.maybe = []       # texts that may be there
        self.bar = None       # is there a scale for the contours?
        self.alts = []        # one of several sets of lines
        self.amounts = True   # whether the magnitudes of loads have to be there
    def seg(self, why, a, b): self.segs.append((why, np.array([a, b], float)))
    def quad(self, why, c, v=None): self.quads.append((why, np.array(c, float), v))
    def pt(self, why, p): self.pts.append((why, np.array(p, float)))
    def cube(self, why, c, side):
        c = np.array(c, float); h = side/2
        for ax in range(3):
            for s in (-1, 1):
                o = [i for i in range(3) if i != ax]; f = []
                for u, v in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
                    p = c.copy(); p[ax] += s*h; p[o[0]] += u*h; p[o[1]] += v*h; f.append(p)
                self.quad(why, f)

def _glyph(x, lib, n, name, a):
    """The support of a node."""
    X = np.array([n['X'], n['Y'], n['Z']], float); sup = n['sup']; why = 'the support of node %s' % name
    if all(sup): x.cube(why, X, 2*a if lib == 'pv' else 1.2*a)
    elif all(sup[:3]) and not any(sup[3:]): x.pt(why, X)          # the tip of a cone
    else:
        for i in range(6):
            if not sup[i]: continue
            e = np.zeros(3); e[i % 3] = 1
            if i < 3:
                x.seg(why, X-a*e, X+a*e)
                for s in (-1, 1): x.pt(why, X+s*a*e-s*.3*a*e)
            else:
                x.seg(why, X-1.6*a*e, X+1.6*a*e)
                for s in (-1, 1): x.cube(why, X+s*1.9*a*e, .6*a)

def _arrow(x, why, tip, u, length):
    tip = np.array(tip, float); u = np.array(u, float)
    x.seg(why, tip, tip-u*length)
    if length: x.pt(why, tip)

def corner_values(model, combo, what):
    """{element name: values at its corners}: averages over the elements meeting at each corner's node."""
    at = {}
    els = [('plate', e) for e in model.plates.values()]+[('quad', e) for e in model.quads.values()]
    glob = what != 'dz' and what[1:] == what[1:].upper() and len(what) == 2
    for kind, e in els:
        if kind == 'plate': w, h = e.width(), e.height(); c = [(0, 0), (w, 0), (w, h), (0, h)]
        else: c = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
        for n, (r, s) in zip((e.i_node, e.j_node, e.m_node, e.n_node), c):
            if what == 'dz':
                v = float(np.dot(np.asarray(e.T())[2, :3], [n.DX[combo], n.DY[combo], n.DZ[combo]]))
            else:
                w_ = what.upper()
                f, i = {'MX': (e.moment, 0), 'MY': (e.moment, 1), 'MXY': (e.moment, 2), 'QX': (e.shear, 0), 'QY': (e.shear, 1),
                        'SX': (e.membrane, 0), 'SY': (e.membrane, 1), 'TXY': (e.membrane, 2)}[w_]
                v = float(np.asarray(f(r, s, not glob, combo), float).ravel()[i])
            at.setdefault(n.name, []).append(v)
    mean = {k: sum(v)/len(v) for k, v in at.items()}
    return {(kind, e.name): [mean[n.name] for n in (e.i_node, e.j_node, e.m_node, e.n_node)] for kind, e in els}

def expected(spec, model, lib, o):
    """`model`: something to ask for results; `o`: settings of the drawing."""
    x = Expected(); x.amounts = bool(o['labels'])
    a = o['size']; combo, case = o['combo'], o['case']
    N = {h: np.array([n['X'], n['Y'], n['Z']], float) for h, n in spec.nodes.items()}
    nm = lambda h: spec.nodes[h]['name']
    # nodes and supports
    for h, n in spec.nodes.items():
        if o['nodes']:
            _glyph(x, lib, n, n['name'], a)
            if lib == 'vtk': x.pt('node %s' % n['name'], N[h]+[0, 0, .6*a])
        t = (n['name'], tuple(N[h] if lib == 'pv' else N[h]+[.6*a, .6*a, 0]))
        if o['labels']: (x.texts if o['nodes'] else x.maybe).append(t)
    for h, n in spec.aux.items():
        X = np.array([n['X'], n['Y'], n['Z']], float)
        t = (n['name'], tuple(X if lib == 'pv' else X+[.6*a, .6*a, 0]))
        if o['nodes'] and lib == 'vtk': x.pt('auxiliary node %s' % n['name'], X+[0, 0, .6*a])
        if o['labels']: (x.texts if o['nodes'] and lib == 'vtk' else x.maybe).append(t)
    # springs and members
    for kind in ('springs', 'members'):
        for h, e in getattr(spec, kind).items():
            x.seg('%s %s' % (kind[:-1], e['name']), N[e['i']], N[e['j']])
            if o['labels']: x.texts.append((e['name'], tuple((N[e['i']]+N[e['j']])/2)))
    # deformed shape
    s = o['scale']
    at = {}
    if o['deformed']:
        for h in N:
            n = model.nodes[nm(h)]
            at[h] = N[h]+s*np.array([n.DX[combo], n.DY[combo], n.DZ[combo]], float)
            if o['nodes'] and lib == 'vtk': x.pt('the displaced node %s' % nm(h), at[h]+[0, 0, .6*a])
        for h, e in spec.springs.items():
            if model.springs[e['name']].active[combo]: x.seg('the deformed spring %s' % e['name'], at[e['i']], at[e['j']])
        for h, e in spec.members.items():
            m = model.members[e['name']]
            if not m.active[combo]: continue
            L = spec.length(e); T = np.asarray(m.T())[:3, :3]; p = []
            for k in range(20):
                l = min(L/19*k, L)
                p.append(N[e['i']]+l*T[0]+s*(m.deflection('dx', l, combo)*T[0]+m.deflection('dy', l, combo)*T[1]+m.deflection('dz', l, combo)*T[2]))
            for k in range(19): x.seg('the deformed member %s (part %d of 19)' % (e['name'], k+1), p[k], p[k+1])
    # loads
    fac = None
    if o['loads']:
        if case is not None: fac = {case: 1.0}
        elif combo is not None and combo in spec.combos: fac = {k: v for k, v in spec.combos[combo]['factors'].items()}
    if fac is not None:
        big = dict(F=0., M=0., w=0., p=0.)
        loads = []
        for h, n in spec.nodes.items():
            for d, P, c in n['loads']:
                if c in fac: loads.append((('F' if d[0] == 'F' else 'M'), 'n', h, d, P*fac[c], None))
        for h, e in spec.members.items():
            for d, P, l, c in e['pt']:
                if c in fac: loads.append((('F' if d[0] == 'F' else 'M'), 'm', h, d, P*fac[c], l))
            for d, w1, w2, x1, x2, c in e['dist']:
                if c in fac: loads.append(('w', 'm', h, d, (w1*fac[c], w2*fac[c]), (x1, x2)))
        for kind in ('plates', 'quads'):
            for h, e in getattr(spec, kind).items():
                for p, c in e['pr']:
                    if c in fac: loads.append(('p', kind, h, None, p*fac[c], None))
        for k, w, h, d, v, l in loads:
            big[k] = max(big[k], *(abs(y) for y in (v if isinstance(v, tuple) else (v,))))
        for k, w, h, d, v, l in loads:
            if w == 'n': name = 'node %s' % nm(h); p = N[h]
            elif w == 'm':
                e = spec.members[h]; name = 'member %s' % e['name']; T = np.asarray(model.members[e['name']].T())[:3, :3]
            else:
                e = getattr(spec, w)[h]; name = '%s %s' % (w[:-1], e['name']); T = np.asarray(getattr(model, w)[e['name']].T())[:3, :3]
            if d: u = np.eye(3)['XYZ'.index(d[1])] if d[1] in 'XYZ' else T['xyz'.index(d[1])]
            if k in 'FM':
                if w == 'm': p = N[e['i']]+l*T[0]
                why = 'load %s %.4g on %s' % (d, v, name)
                if k == 'F':
                    ln = v/big['F']*5*a if big['F'] else 0.
                    if lib == 'vtk' and w == 'n': p = p-.6*a*u*math.copysign(1, v or 1)
                    if v: _arrow(x, why, p, u, ln)
                    x.near.append((v, p, abs(ln)+2*a, why))
                else:
                    R = abs(v)/big['M']*2.5*a if big['M'] else 0.
                    if v: x.arcs.append((why, p, u*math.copysign(1, v), R, R/4 if lib == 'pv' else R/2))
                    x.near.append((v, p, R+2*a, why))
            elif k == 'w':
                why = 'load %s %.4g to %.4g on %s' % (d, v[0], v[1], name)
                p1, p2 = N[e['i']]+l[0]*T[0], N[e['i']]+l[1]*T[0]
                l1, l2 = [y/big['w']*5*a if big['w'] else 0. for y in v]
                if l1 or l2:
                    D = float(np.linalg.norm(p2-p1)); n = .75*D/max(abs(l1), abs(l2)); alts = []
                    for n in sorted({max(1, int(round(n+y))) for y in (-1e-6, 1e-6)}, reverse=True):      # how many arrows: a matter of rounding
                        y = Expected()
                        for q in range(n+1): _arrow(y, why+' (arrow %d of %d)' % (q+1, n+1), p1+(p2-p1)*q/n, u, l1+(l2-l1)*q/n)
                        alts.append(y)
                    x.alts.append([y.segs for y in alts]); x.pts += alts[0].pts[:1]+alts[0].pts[-1:]
                    x.seg(why+' (outline)', p1-u*l1, p2-u*l2)
                x.near.append((v[0], p1, abs(l1)+2*a, why)); x.near.append((v[1], p2, abs(l2)+2*a, why))
            else:
                why = 'pressure %.4g on %s' % (v, name)
                c = [N[e[q]] for q in 'ijmn']; ln = v/big['p']*5*a if big['p'] else 0.
                if v:
                    for q in c: _arrow(x, why, q, T[2], ln)
                    x.quad(why, [q-T[2]*ln for q in c])
                x.near.append((v, c[0], abs(ln)+2*a, why))
    # plates and quads
    if lib == 'vtk': x.bar = bool(o['bar'] and o['color'] and (spec.plates or spec.quads))
    vals = corner_values(model, combo, o['color']) if o['color'] and (spec.plates or spec.quads) else {}
    for kind in ('plates', 'quads'):
        for h, e in getattr(spec, kind).items():
            c = [(at[e[q]] if o['deformed'] else N[e[q]]) for q in 'ijmn']
            x.quad('%s %s' % (kind[:-1], e['name']), c, vals.get((kind[:-1], e['name'])))
    return x

def arrows(spec, o):
    """About how many arrows the distributed loads of a drawing take."""
    fac = {o['case']: 1.0} if o['case'] is not None else spec.combos[o['combo']]['factors'] if o['combo'] in spec.combos else {}
    w = [(max(abs(l[1]), abs(l[2]))*abs(fac[l[-1]]), abs(l[4]-l[3])) for m in spec.members.values() for l in m['dist'] if l[-1] in fac]
    big = max([v for v, d in w]+[0.])
    return sum(.75*d/(v/big*5*o['size']) for v, d in w if v)

PERM = [[0, 1, 2, 3], [1, 2, 3, 0], [2, 3, 0, 1], [3, 0, 1, 2], [3, 2, 1, 0], [2, 1, 0, 3], [1, 0, 3, 2], [0, 3, 2, 1]]

def mismatch(x, s, spec_scale):
    """First difference between the expected drawing and the scene, or None."""
    big = max([spec_scale]+[float(np.abs(q[1]).max()) for q in x.segs+x.quads+x.pts]+[1e-9])
    if len(s.pts): big = max(big, float(np.abs(s.pts).max()) if np.isfinite(s.pts).all() else big)
    tol = 3e-6*big
    near = lambda v: '(%s)' % ', '.join('%.6g' % t for t in v)
    # line segments
    free = np.ones(len(s.segs), bool)
    segs = list(x.segs)
    def there(E): return len(s.segs) and min(np.abs(s.segs-E).max(axis=(1, 2)).min(), np.abs(s.segs[:, ::-1]-E).max(axis=(1, 2)).min()) <= tol
    for alt in x.alts: segs += ([a for a in alt if all(there(E) for w, E in a)] or alt)[0]
    for why, E in segs:
        if np.abs(E[0]-E[1]).max() <= tol: continue
        d = np.minimum(np.abs(s.segs-E).max(axis=(1, 2)), np.abs(s.segs[:, ::-1]-E).max(axis=(1, 2))) if len(s.segs) else np.zeros(0)
        d = np.where(free, d, np.inf)
        if not len(d) or not d.min() <= tol: return 'missing', '%s is not drawn: no line from %s to %s' % (why, near(E[0]), near(E[1]))
        free[int(d.argmin())] = False
    # moments: segments on a circle around the place, and an arrow head in the right sense
    for why, c, u, R, hd in x.arcs:
        def on(P): return (np.abs(np.linalg.norm(P-c, axis=-1)-R) <= tol) & (np.abs((P-c) @ u) <= tol)
        ring = [k for k in range(len(s.segs)) if free[k] and on(s.segs[k]).all()]
        if len(ring) < 5: return 'missing', '%s is not drawn: no arc of radius %.6g around %s' % (why, R, near(c))
        P = np.concatenate([s.segs[k] for k in ring])
        if R > 100*tol:              # the head: its point lies half its height ahead of one end of the arc
            ok = False
            for p in (P[0], P[39 if len(P) > 39 else -1]):
                t = np.cross(u, (p-c)/R); D = s.pts-p
                ok = ok or bool(((np.abs(np.linalg.norm(D, axis=1)-hd/2) <= max(.03*hd, tol)) & (D @ t >= .25*hd)).any())
            if not ok: return 'sense', '%s is drawn without an arrow head in its sense' % why
        # the arc is one run of segments
        n = 20
        used = ring if len(ring) <= n else ring[:n]
        free[used] = False
    extra = [k for k in range(len(s.segs)) if free[k] and np.abs(s.segs[k][0]-s.segs[k][1]).max() > tol]
    if extra: return 'extra', 'a line from %s to %s belongs to nothing in the model' % (near(s.segs[extra[0]][0]), near(s.segs[extra[0]][1]))
    # scale of the contours (VTK)
    if x.bar is not None:
        if len(s.bars) != int(x.bar): return 'bar', 'the drawing has %d scales for its contours, asked for %d' % (len(s.bars), x.bar)
        if x.bar:
            v = [t for w, E, u in x.quads if u is not None for t in u]; big = max(map(abs, v))
            if s.bars[0] is None or not all(abs(a-b) <= 1e-5*big+1e-15 for a, b in zip(s.bars[0], (min(v), max(v)))):
                return 'bar', 'the scale of the contours runs over %s, their values from %.6g to %.6g' % (s.bars[0], min(v), max(v))
    # faces
    free = np.ones(len(s.quads), bool)
    for why, E, v in x.quads:
        best = None
        if len(s.quads):
            for p in PERM:
                d = np.abs(s.quads[:, p]-E).max(axis=(1, 2)); d = np.where(free, d, np.inf); k = int(d.argmin())
                if v is not None and d[k] <= tol:      # coinciding corners of several faces: any that carries the values
                    for k2 in np.nonzero(d <= tol)[0]:
                        if best is None or best[0] > tol or (s.vals[k2] is not None and _close([s.vals[k2][i] for i in p], v, x)): best = (d[k2], int(k2), p)
                elif best is None or d[k] < best[0]: best = (d[k], k, p)
        if best is None or not best[0] <= tol: return 'missing', '%s is not drawn with corners at %s' % (why, ', '.join(near(c) for c in E))
        free[best[1]] = False
        if v is not None:
            g = s.vals[best[1]]
            if g is None: return 'contour', '%s is drawn without contours' % why
            g = [g[i] for i in best[2]]
            if not _close(g, v, x): return 'contour', '%s is drawn with values %s at its corners, its results there average %s' % (why, near(g), near(v))
    for k in np.nonzero(free)[0]:
        if any(np.abs(s.quads[k][p]-E).max() <= tol for w, E, v in x.quads for p in PERM): continue      # lies on one that belongs there
        return 'extra', 'a face with corners at %s belongs to nothing in the model' % ', '.join(near(c) for c in s.quads[k])
    # single points
    for why, p in x.pts:
        if not len(s.pts) or not np.abs(s.pts-p).max(axis=1).min() <= tol+1e-12: return 'missing', '%s is not drawn: nothing at %s' % (why, near(p))
    # texts
    left = list(s.texts)
    def take(pred):
        for k, t in enumerate(left):
            if pred(t): del left[k]; return True
        return False
    for t, p in x.texts:
        if not take(lambda y: y[0] == t and max(abs(a-b) for a, b in zip(y[1], p)) <= tol): return 'text', 'no text %r at %s' % (t, near(p))
    for t, p in x.maybe: take(lambda y: y[0] == t and max(abs(a-b) for a, b in zip(y[1], p)) <= tol)
    def num(t):
        try: return float(t)
        except ValueError: return None
    # magnitudes of loads: a matching between loads and numbers near them
    def fits(y, v, p, r):
        q = num(y[0]); return q is not None and abs(q-v) <= 6e-3*abs(v) and float(np.linalg.norm(np.array(y[1])-p)) <= r+tol
    near_ = sorted(x.near, key=lambda y: y[0] == 0)
    cand = [[k for k, y in enumerate(left) if fits(y, v, p, r)] for v, p, r, why in near_]
    owner = {}
    def give(i, seen):
        for k in cand[i]:
            if k in seen: continue
            seen.add(k)
            if k not in owner or give(owner[k], seen): owner[k] = i; return True
        return False
    for i, (v, p, r, why) in enumerate(near_):
        if not give(i, set()) and v and x.amounts: return 'text', '%s is drawn without its magnitude' % why
    left = [y for k, y in enumerate(left) if k not in owner]
    if left: return 'extra', 'a text %r at %s belongs to nothing in the model' % (left[0][0], near(left[0][1]))
    return None

def _close(g, v, x):
    big = max([abs(t) for w, E, u in x.quads if u is not None for t in u]+[1e-12])
    return all(math.isfinite(a) and abs(a-b) <= 1e-5*big for a, b in zip(g, v))

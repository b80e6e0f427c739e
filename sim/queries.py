"""A catalogue of result queries, chosen by number."""
from sim.spec import DOFS

def pick_query(r, spec, combos, bad=0.0):
    """A query as data: ['m'|'s'|'p'|'q'|'x'|'n'|'g', handle, method, args...] with the combination last."""
    if not combos: return None
    c = r.pick(combos)
    if bad and r.chance(bad):
        if not spec.members: return None
        h = r.pick(list(spec.members)); L = spec.length(spec.members[h])
        return r.pick([['m', h, 'shear', 'Fy', L*.5, 'no such combo'], ['m', h, 'moment', 'Fy', L*.5, c], ['m', h, 'shear', 'Mz', L*.3, c],
                       ['m', h, 'moment', 'Mz', L*1.7, c], ['m', h, 'max_moment', 'Mq', c], ['m', h, 'max_shear', 'Fy', 'no such combo'],
                       ['m', h, 'deflection', 'dq', L*.5, c], ['m', h, 'moment_array', 'Mz', 5, c, [L*.2, L*1.5]],
                       ['m', h, 'axial', -L, c], ['m', h, 'deflection', 'dy', L*.5, 'no such combo'], ['m', h, 'torque', L*.5, 'no such combo']])
    kinds = [('m', 8)] if spec.members else []
    if spec.springs: kinds.append(('s', 2))
    if spec.plates: kinds.append(('p', 3))
    if spec.quads: kinds.append(('q', 3))
    if any(m['generated'] for m in spec.meshes.values()): kinds.append(('x', 2))
    kinds.append(('g', .6))
    k = r.weighted(kinds)
    if k == 'm':
        h = r.pick(list(spec.members)); L = spec.length(spec.members[h]); x = L*r.pick([0, .13, .25, .37, .5, .62, .81, 1])
        t = r.randrange(13)
        if t == 0: return ['m', h, 'shear', r.pick(['Fy', 'Fz']), x, c]
        if t == 1: return ['m', h, 'moment', r.pick(['My', 'Mz']), x, c]
        if t == 2: return ['m', h, 'axial', x, c]
        if t == 3: return ['m', h, 'torque', x, c]
        if t == 4: return ['m', h, 'deflection', r.pick(['dx', 'dy', 'dz']), x, c]
        if t == 5: return ['m', h, 'rel_deflection', r.pick(['dx', 'dy', 'dz']), x, c]
        w = r.pick(['max_', 'min_'])
        if t == 6: return ['m', h, w+'shear', r.pick(['Fy', 'Fz']), c]
        if t == 7: return ['m', h, w+'moment', r.pick(['My', 'Mz']), c]
        if t == 8: return ['m', h, w+r.pick(['axial', 'torque']), c]
        if t == 9: return ['m', h, w+'deflection', r.pick(['dx', 'dy', 'dz']), c]
        n = r.pick([3, 6, 11])
        xs = sorted(L*r.pick([.05, .2, .35, .45, .6, .75, .9]) for _ in range(3)) if r.chance(.4) else None
        if t == 10: return ['m', h, 'shear_array', r.pick(['Fy', 'Fz']), n, c, xs]
        if t == 11: return ['m', h, r.pick(['axial_array', 'torque_array']), n, c, xs]
        return ['m', h, r.pick(['deflection_array', 'rel_deflection_array']), r.pick(['dy', 'dz']), n, c, xs] if r.chance(.5) else \
            ['m', h, 'moment_array', r.pick(['My', 'Mz']), n, c, xs]
    if k == 's': return ['s', r.pick(list(spec.springs)), r.pick(['axial', 'F', 'D']), c]
    if k == 'p':
        return ['p', r.pick(list(spec.plates)), r.pick(['F', 'D', 'f', 'd']), c] if r.chance(.4) else \
            ['p', r.pick(list(spec.plates)), r.pick(['moment', 'shear', 'membrane']), r.pick([.1, .5, .9]), r.pick([.2, .5, .7]), c]
    if k == 'q':
        return ['q', r.pick(list(spec.quads)), r.pick(['F', 'D', 'f', 'd']), c] if r.chance(.4) else \
            ['q', r.pick(list(spec.quads)), r.pick(['moment', 'shear', 'membrane']), r.pick([-1, -.3, 0, .6, 1]), r.pick([-1, 0, .4, 1]), c]
    if k == 'x':
        h = r.pick([h for h, m in spec.meshes.items() if m['generated']])
        return ['x', h, r.pick(['max_moment', 'min_moment', 'max_shear', 'min_shear']), c]
    return ['g', None, r.pick(['K', 'D', 'P', 'FER', 'Kg', 'orphaned_nodes', 'load_cases']), c]

def ask(model, spec, q):
    """Perform a query; returns plain data."""
    import numpy as np
    k, h, meth = q[0], q[1], q[2]
    a = q[3:]
    if k == 'm':
        m = model.members[spec.name('members', h)]
        f = getattr(m, meth)
        if meth.endswith('_array'):
            xs = a[-1]
            kw = {} if xs is None else dict(x_array=np.array(xs, float))
            out = f(*a[:-1], **kw)
        else: out = f(*a)
    elif k == 's': out = getattr(model.springs[spec.name('springs', h)], meth)(*a)
    elif k in 'pq':
        p = (model.plates if k == 'p' else model.quads)[spec.name('plates' if k == 'p' else 'quads', h)]
        if len(a) == 3:
            x, y, c = a
            if k == 'p': x, y = x*p.width(), y*p.height()
            out = getattr(p, meth)(x, y, True, c)
        else: out = getattr(p, meth)(*a)
    elif k == 'x':
        out = getattr(model.meshes[spec.name('meshes', h)], meth)('Mx' if 'moment' in meth else 'Qx', a[0])
    elif k == 'g':
        if meth == 'orphaned_nodes':
            v = getattr(model, meth)
            return list(v() if callable(v) else v)
        if meth == 'load_cases':
            v = getattr(model, meth)
            return list(v() if callable(v) else v)
        if meth == 'Kg': out = model.Kg(a[0], False, False, True)
        elif meth == 'K': out = model.K(a[0], False, False, False)
        else: out = getattr(model, meth)(a[0])
    if out is None: return None
    return [float(v) for v in np.asarray(out, float).ravel()]

def try_ask(model, spec, q):
    try: return ask(model, spec, q)
    except KeyboardInterrupt: raise
    except Exception as e: return 'raises '+type(e).__name__

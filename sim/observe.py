"""What a user can see of a solved model, keyed by the simulator's handles, and how two such views compare."""
import math, hashlib
from sim.core import Violation
from sim.spec import DOFS

DIS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
RXN = ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ')
# quantity -> kind of scale
FORCE, MOMENT, DISP, ROT, STRESS, FLAG = 'F', 'M', 'd', 'r', 's', 'b'

def _val(f, *a):
    try:
        v = f(*a)
        return float(v)
    except (KeyboardInterrupt, SystemExit): raise
    except Exception as e:
        return 'raises '+type(e).__name__

def model_combos(model):
    return list(model.load_combos)

def observe(model, spec, combos, level='full', names=None, xs=(0.0, 0.37, 1.0)):
    """{(combo, kind, handle, quantity): (scale kind, value)}; value is a float, bool or 'raises X'."""
    import numpy as np
    names = names or (lambda kind, h, n: n)
    out = {}
    if level == 'light': xs = (0.0, 0.43)
    ms = list(spec.members)
    deep = set(ms) if level == 'deep' else {ms[len(spec.nodes) % len(ms)], ms[-1]} if ms else set()     # extreme deflections are slow
    for c in combos:
        for h, e in spec.nodes.items():
            n = model.nodes[names('nodes', h, e['name'])]
            for i in range(6):
                d = getattr(n, DIS[i]); r = getattr(n, RXN[i])
                out[c, 'node', h, DIS[i]] = (DISP if i < 3 else ROT, float(d[c]) if c in d else 'absent')
                out[c, 'node', h, RXN[i]] = (FORCE if i < 3 else MOMENT, float(r[c]) if c in r else 'absent')
        for h, e in spec.springs.items():
            s = model.springs[names('springs', h, e['name'])]
            out[c, 'spring', h, 'active'] = (FLAG, bool(s.active[c]) if c in s.active else 'absent')
            out[c, 'spring', h, 'axial'] = (FORCE, _val(s.axial, c))
        for h, e in spec.members.items():
            m = model.members[names('members', h, e['name'])]
            L = spec.length(e)
            out[c, 'member', h, 'active'] = (FLAG, bool(m.active[c]) if c in m.active else 'absent')
            k = (c, 'member', h)
            # internal forces jump at point loads and nodes; stay clear of those when asking at interior points
            jumps = [p[2] for p in e['pt']]
            pts = []
            for f in xs:
                x = f*L
                if 0 < f < 1:
                    if any(abs(x-j) < 1e-6*L for j in jumps): x = x + 0.013*L
                elif any(abs(x-j) < 1e-6*L for j in jumps): continue
                pts.append((f, x))
            for f, x in pts:
                for q in ('Fy', 'Fz'): out[k+('shear %s@%.2f' % (q, f),)] = (FORCE, _val(m.shear, q, x, c))
                for q in ('My', 'Mz'): out[k+('moment %s@%.2f' % (q, f),)] = (MOMENT, _val(m.moment, q, x, c))
                out[k+('axial@%.2f' % f,)] = (FORCE, _val(m.axial, x, c))
                out[k+('torque@%.2f' % f,)] = (MOMENT, _val(m.torque, x, c))
                for q in ('dx', 'dy', 'dz'): out[k+('deflection %s@%.2f' % (q, f),)] = (DISP, _val(m.deflection, q, x, c))
            if level != 'light':
                for w in ('max', 'min'):
                    for q in ('Fy', 'Fz'): out[k+('%s_shear %s' % (w, q),)] = (FORCE, _val(getattr(m, w+'_shear'), q, c))
                    for q in ('My', 'Mz'): out[k+('%s_moment %s' % (w, q),)] = (MOMENT, _val(getattr(m, w+'_moment'), q, c))
                    out[k+(w+'_axial',)] = (FORCE, _val(getattr(m, w+'_axial'), c))
                    out[k+(w+'_torque',)] = (MOMENT, _val(getattr(m, w+'_torque'), c))
                    for q in (('dy', 'dz') if h in deep else ()): out[k+('%s_deflection %s' % (w, q),)] = (DISP, _val(getattr(m, w+'_deflection'), q, c))
                for q in ('dy', 'dz'): out[k+('rel_deflection %s' % q,)] = (DISP, _val(m.rel_deflection, q, 0.37*L, c))
                for nm, f, kind in (('shear', lambda n_: m.shear_array('Fy', n_, c), FORCE), ('moment', lambda n_: m.moment_array('Mz', n_, c), MOMENT),
                                    ('deflection', lambda n_: m.deflection_array('dy', n_, c), DISP), ('axial', lambda n_: m.axial_array(n_, c), FORCE)):
                    try:
                        a = f(3)
                        for i, v in enumerate(np.asarray(a[1], float).ravel()): out[k+('%s_array[%d]' % (nm, i),)] = (kind, float(v))
                    except (KeyboardInterrupt, SystemExit): raise
                    except Exception as ex: out[k+(nm+'_array',)] = (kind, 'raises '+type(ex).__name__)
        for kind, coll in (('plates', model.plates), ('quads', model.quads)):
            for h, e in getattr(spec, kind).items():
                p = coll[names(kind, h, e['name'])]
                k = (c, kind[:-1], h)
                try:
                    F = np.asarray(p.F(c), float).ravel()
                    for i in range(24): out[k+('F%d' % i,)] = (FORCE if i % 6 < 3 else MOMENT, float(F[i]))
                except (KeyboardInterrupt, SystemExit): raise
                except Exception as ex: out[k+('F',)] = (FORCE, 'raises '+type(ex).__name__)
                at = (0, 0) if kind == 'quads' else None
                try:
                    if at is None: at = (p.width()/2, p.height()/2)
                    for nm, f in (('moment', p.moment), ('shear', p.shear), ('membrane', p.membrane)):
                        for i, v in enumerate(np.asarray(f(at[0], at[1], True, c), float).ravel()):
                            out[k+('%s[%d]' % (nm, i),)] = (STRESS+nm, float(v))
                except (KeyboardInterrupt, SystemExit): raise
                except Exception as ex: out[k+('stress',)] = (STRESS, 'raises '+type(ex).__name__)
    return out

def lc(spec):
    P = [(n['X'], n['Y'], n['Z']) for n in spec.nodes.values()]
    if not P: return 1.0
    return max(1.0, max(max(p[i] for p in P)-min(p[i] for p in P) for i in range(3)))

def scales(views, L):
    """Per combination: the size of the largest force, moment, displacement and rotation in any of the views."""
    s = {}
    for v in views:
        for (c, kind, h, q), (t, x) in v.items():
            if isinstance(x, float) and math.isfinite(x):
                d = s.setdefault(c, {})
                if abs(x) > d.get(t, 0.0): d[t] = abs(x)
    for c, d in s.items():
        F = max(d.get(FORCE, 0), d.get(MOMENT, 0)/L, 1e-3); M = max(d.get(MOMENT, 0), F*L)
        dd = max(d.get(DISP, 0), d.get(ROT, 0)*L, 1e-7); rr = max(d.get(ROT, 0), dd/L)
        d[FORCE], d[MOMENT], d[DISP], d[ROT] = F, M, dd, rr
        d[STRESS+'moment'] = max(d.get(STRESS+'moment', 0), F)
        d[STRESS+'shear'] = max(d.get(STRESS+'shear', 0), F/10)
        d[STRESS+'membrane'] = max(d.get(STRESS+'membrane', 0), F/100)
    return s

def compare(want, got, L, tol=1e-6, what='results', skip=None):
    """First (worst) difference between two views, or None.  `skip(key)` leaves quantities out."""
    miss = [k for k in want if k not in got]; extra = [k for k in got if k not in want]
    if miss or extra:
        return 'different sets of %s: missing %s, unexpected %s' % (what, miss[:3], extra[:3])
    sc = scales((want, got), L)
    worst = None
    for k, (t, a) in want.items():
        if skip and skip(k): continue
        b = got[k][1]
        if a is b: continue
        if isinstance(a, float) and isinstance(b, float):
            if a == b or (a != a and b != b): continue
            e = abs(a-b)/sc[k[0]].get(t, 1.0) if math.isfinite(a) and math.isfinite(b) else float('inf')
            if e > tol and (worst is None or e > worst[0]): worst = (e, k, a, b)
        elif a != b:
            return '%s of %s %s, combination %s: %s expected, %s found' % (k[3], k[1], k[2], k[0], a, b)
    if worst:
        e, k, a, b = worst
        return '%s of %s %s, combination %s: %.9g expected, %.9g found (relative to the largest: %.2g)' % (k[3], k[1], k[2], k[0], a, b, e)
    return None

def digest(view):
    h = hashlib.sha256()
    for k, (t, v) in view.items(): h.update(('%s=%r;' % (k, v)).encode())
    return h.hexdigest()[:16]

def finite(view):
    for k, (t, v) in view.items():
        if isinstance(v, float) and not math.isfinite(v): return k, v
    return None

def result_keys(model):
    """Names of the combinations for which any node holds displacements / reactions, and whether all agree."""
    D, R = None, None
    for n in model.nodes.values():
        d = set(n.DX); r = set(n.RxnFX)
        for a in DIS:
            if set(getattr(n, a)) != d: return 'mixed', None
        for a in RXN:
            if set(getattr(n, a)) != r: return None, 'mixed'
        if D is None: D, R = d, r
        elif d != D: return 'mixed', R
        elif r != R: return D, 'mixed'
    return D if D is not None else set(), R if R is not None else set()

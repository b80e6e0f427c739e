"""A small independent solver for frames of members, springs and support springs (no panels), written from
beam theory.  Used as the executable reference for P09 and P10; shares no code with the library."""
import numpy as np
from sim.spec import DOFS
from sim import geom

def axes(spec, m):
    a, b = geom.xyz(spec, m['i']), geom.xyz(spec, m['j'])
    x = (b-a)/np.linalg.norm(b-a)
    if m['aux'] is not None:
        n = spec.aux[m['aux']]
        y = np.cross(np.array([n['X'], n['Y'], n['Z']])-a, x)
        y /= np.linalg.norm(y)
    elif abs(x[0]) < 1e-9 and abs(x[2]) < 1e-9:
        y = np.array([-1.0, 0, 0]) if x[1] > 0 else np.array([1.0, 0, 0])
        return np.array([x, y, [0, 0, 1.0]])
    else:
        up = np.array([0, 1.0, 0])
        y = up-(up@x)*x; y /= np.linalg.norm(y)
    return np.array([x, y, np.cross(x, y)])

def k_local(E, G, A, Iy, Iz, J, L):
    k = np.zeros((12, 12))
    def add(d, m):
        for a in range(len(d)):
            for b in range(len(d)): k[d[a], d[b]] += m[a][b]
    add((0, 6), E*A/L*np.array([[1, -1], [-1, 1]]))
    add((3, 9), G*J/L*np.array([[1, -1], [-1, 1]]))
    def bend(I, s): return E*I/L**3*np.array([[12, s*6*L, -12, s*6*L], [s*6*L, 4*L*L, -s*6*L, 2*L*L], [-12, -s*6*L, 12, -s*6*L], [s*6*L, 2*L*L, -s*6*L, 4*L*L]])
    add((1, 5, 7, 11), bend(Iz, 1))
    add((2, 4, 8, 10), bend(Iy, -1))
    return k

def shape(L, x):
    """Rows of equivalent nodal load for a unit force in local x, y, z and unit moment about x, y, z at x."""
    t = x/L
    N = np.array([1-3*t**2+2*t**3, x*(1-t)**2, 3*t**2-2*t**3, x*(t*t-t)])
    dN = np.array([(-6*t+6*t*t)/L, 1-4*t+3*t*t, (6*t-6*t*t)/L, 3*t*t-2*t])
    out = np.zeros((6, 12))
    out[0, [0, 6]] = 1-t, t
    out[1, [1, 5, 7, 11]] = N
    out[2, [2, 4, 8, 10]] = N*np.array([1, -1, 1, -1])
    out[3, [3, 9]] = 1-t, t
    out[4, [2, 4, 8, 10]] = -dN*np.array([1, -1, 1, -1])
    out[5, [1, 5, 7, 11]] = dN
    return out

GP, GW = np.polynomial.legendre.leggauss(4)
DIRN = dict(Fx=0, Fy=1, Fz=2, Mx=3, My=4, Mz=5, FX=0, FY=1, FZ=2, MX=3, MY=4, MZ=5)

def local_dir(d, T):
    """Unit load (6, local) for a load direction."""
    v = np.zeros(6); i = DIRN[d]
    if d[1].islower(): v[i] = 1
    else:
        e = np.zeros(3); e[i % 3] = 1
        v[(i//3)*3:(i//3)*3+3] = T@e
    return v

class Frame:
    """Geometry and stiffness of every piece, prepared once."""
    def __init__(self, spec):
        self.spec = spec
        self.idx = {h: i for i, h in enumerate(spec.nodes)}
        self.pieces = {}
        for h, m in spec.members.items():
            T = axes(spec, m); L = spec.length(m); a = geom.xyz(spec, m['i'])
            ins = geom.internal_nodes(spec, m)
            chain = [(m['i'], 0.0)]+[(n, float(np.linalg.norm(geom.xyz(spec, n)-a))) for n in ins]+[(m['j'], L)]
            lst = []
            for k in range(len(chain)-1):
                (ni, xi), (nj, xj) = chain[k], chain[k+1]
                rel = [False]*12
                if k == 0: rel[:6] = m['rel'][:6]
                if k == len(chain)-2: rel[6:] = m['rel'][6:]
                lst.append((ni, nj, xi, xj, rel))
            self.pieces[h] = (T, lst)

    def eq_load(self, m, T, xi, xj, f):
        """Equivalent nodal loads (local) on the piece from xi to xj, factored."""
        L = xj-xi; q = np.zeros(12)
        for d, P, x, case in m['pt']:
            c = f.get(case, 0.0)
            last = abs(xj-self.spec.length(m)) < 1e-9
            if c and (xi <= x < xj or (last and abs(x-xj) < 1e-9)): q += c*P*(local_dir(d, T)@shape(L, x-xi))
        for d, w1, w2, x1, x2, case in m['dist']:
            c = f.get(case, 0.0)
            if not c or x2 <= x1: continue
            a, b = max(x1, xi), min(x2, xj)
            if b <= a: continue
            v = local_dir(d, T)
            for g, w in zip(GP, GW):
                x = (a+b)/2+g*(b-a)/2
                wx = w1+(w2-w1)*(x-x1)/(x2-x1)
                q += c*wx*w*(b-a)/2*(v@shape(L, x-xi))
        return q

    def solve(self, combo, engaged):
        """Displacements (n,6) of the structure made of the engaged parts, and the condition of its equations.
        engaged: function(kind, handle[, dof]) -> bool"""
        s = self.spec; f = s.combos[combo]['factors']
        n = len(self.idx); K = np.zeros((6*n, 6*n)); P = np.zeros(6*n)
        self.el = {}
        for h, m in s.members.items():
            T, lst = self.pieces[h]
            R = np.zeros((12, 12))
            for b in range(4): R[3*b:3*b+3, 3*b:3*b+3] = T
            for k, (ni, nj, xi, xj, rel) in enumerate(lst):
                kl = k_local(m['E'], m['G'], m['A'], m['Iy'], m['Iz'], m['J'], xj-xi)
                q = self.eq_load(m, T, xi, xj, f)
                r = [i for i in range(12) if rel[i]]; u = [i for i in range(12) if not rel[i]]
                if r:
                    X = np.linalg.solve(kl[np.ix_(r, r)], kl[np.ix_(r, u)]); Y = np.linalg.solve(kl[np.ix_(r, r)], q[r])
                    kc = np.zeros((12, 12)); qc = np.zeros(12)
                    kc[np.ix_(u, u)] = kl[np.ix_(u, u)]-kl[np.ix_(u, r)]@X
                    qc[u] = q[u]-kl[np.ix_(u, r)]@Y
                    kl, q = kc, qc
                d = [6*self.idx[ni]+i for i in range(6)]+[6*self.idx[nj]+i for i in range(6)]
                on = engaged('member', h)
                if on: K[np.ix_(d, d)] += R.T@kl@R
                P[d] += R.T@q
                self.el[h, k] = (d, R, kl, q, on)
        self.sp = {}
        for h, e in s.springs.items():
            a, b = geom.xyz(s, e['i']), geom.xyz(s, e['j']); x = (b-a)/np.linalg.norm(b-a)
            d = [6*self.idx[e['i']]+i for i in range(3)]+[6*self.idx[e['j']]+i for i in range(3)]
            g = np.concatenate([-x, x])
            if engaged('spring', h): K[np.ix_(d, d)] += e['ks']*np.outer(g, g)
            self.sp[h] = (d, g, e['ks'])
        known = {}
        for h, e in s.nodes.items():
            for i, dof in enumerate(DOFS):
                p = 6*self.idx[h]+i
                if dof in e['spr'] and e['spr'][dof][0] is not None and engaged('support', h, dof): K[p, p] += e['spr'][dof][0]
                if e['sup'][i]: known[p] = 0.0
                if dof in e['enf']: known[p] = e['enf'][dof]
            for d, F, case in e['loads']: P[6*self.idx[h]+DIRN[d]] += F*f.get(case, 0.0)
        free = [p for p in range(6*n) if p not in known]
        D = np.zeros(6*n)
        for p, v in known.items(): D[p] = v
        cond = 1.0
        if free:
            kn = list(known)
            Kf = K[np.ix_(free, free)]
            rhs = P[free]-(K[np.ix_(free, kn)]@np.array([known[p] for p in kn]) if kn else 0)
            sc = 1/np.sqrt(np.maximum(np.abs(np.diag(Kf)), 1e-300))
            Ks = Kf*sc[:, None]*sc[None, :]
            w = np.linalg.eigvalsh(Ks)
            cond = w[-1]/w[0] if w[0] > 0 else np.inf
            if not (w[0] > 1e-13*w[-1]): return None, np.inf
            D[free] = sc*np.linalg.solve(Ks, sc*rhs)
        self.K, self.P, self.known, self.D = K, P, known, D
        return D.reshape(n, 6), cond

    def axial(self, h):
        """Axial force in a member's ends, compression positive: (at i, at j) of each piece."""
        out = []
        for k in range(len(self.pieces[h][1])):
            d, R, kl, q, on = self.el[h, k]
            fl = kl@R@self.D[d]-q
            out += [fl[0], -fl[6]]
        return out

    def spring_axial(self, h):
        d, g, ks = self.sp[h]
        return -ks*(g@self.D[d])       # compression positive

    def reactions(self, combo, engaged):
        """Forces exerted by rigid supports and engaged support springs, (n,6)."""
        r = (self.K@self.D-self.P).reshape(-1, 6)
        out = np.zeros_like(r)
        for h, e in self.spec.nodes.items():
            i = self.idx[h]
            for j, dof in enumerate(DOFS):
                if e['sup'][j]: out[i, j] = r[i, j]
                elif dof in e['spr'] and e['spr'][dof][0] is not None and engaged('support', h, dof): out[i, j] = -e['spr'][dof][0]*self.D[6*i+j]
        return out

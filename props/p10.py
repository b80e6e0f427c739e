"""P10: reported reactions balance everything applied to the structure."""
import io, math
import numpy as np
from sim.core import Violation, Skip
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import DOFS
from sim.world import selected
from sim.refsolver import Frame, axes, local_dir, DIRN
from props.common import REAL
ID = 'P10'
TITLE = 'Reported reactions balance everything applied to the structure'
RUNS = dict(quick=900, thorough=40000)
STUBS = ['standard output (captured; the statics table is read from it)']
ASSUMPTIONS = ['plates and quads carry a grounded drilling stiffness about their normal (a documented modelling device), so with panels '
               'moments are compared only about axes perpendicular to every panel normal',
               'second-order analyses are not judged (the property is about first-order analyses)',
               'where the independent equations are ill-conditioned (condition above 1e11) only the global balance is judged']
RXN = ob.RXN

def special_load(g, r):
    """Member loads that lie at the ends, have no resultant, or vanish at an end."""
    m = g.any_of('members')
    if not m: return
    L = g.spec.length(g.spec.members[m]); x = r.random()
    if x < .5:
        op = g.op_mpt(m); op[4] = r.pick([0.0, L, L, L*(1+4e-16), round(L, 13)]); g.emit(op)
    else:
        op = g.op_mdist(m); op[4] = r.pick([-op[3], -op[3], 0.0])
        if r.chance(.3): op[3], op[4] = op[4], op[3]
        g.emit(op)

def generate(r, tier):
    g = Gen(r, combos=(0, 4), nodes=(3, 6), panels=.35, mesh=.25, small_mesh=True, sprsup=.7, oneway=.5, rel=.5, internal=.5, selfw=.5, enf=.4, loads=(4, 9))
    g.base()
    steps = g.ops
    if r.chance(.25): g.equal_springs()
    if r.chance(.2): special_load(g, r)
    w = dict(EDITS); w.update(DIRECT)
    w.update(nload=3, mpt=3, mdist=3, selfw=.8, pressure=1.5, mesh=.2, spr=2, sup=1.5)
    for k in range(r.randrange(1, 4 if tier == 'quick' else 10)):
        a = analysis(r, spec=g.spec)
        if a[1] == 'pdelta' and r.chance(.8): a[1] = r.pick(['general', 'linear']); a[2].pop('max_iter', None)
        if a[1] != 'pdelta' and r.chance(.3): a[2]['check_statics'] = True
        if r.chance(.15): steps.append(['anf']+a[1:]+[faults.random_fault(r)])
        steps.append(a)
        if r.chance(.2): steps.append(['q', r.getrandbits(32), 3])
        if r.chance(.1): g.reload()
        if r.chance(.1): g.equal_springs()
        if r.chance(.2): special_load(g, r)
        for _ in range(r.randrange(1, 4)): g.edit(w)
    a = analysis(r, spec=g.spec)
    if a[1] == 'pdelta': a[1] = 'general'
    steps.append(a)
    return dict(steps=steps)

def panel(spec, kind, e):
    """area, centroid and the direction of positive pressure"""
    P = [geom.xyz(spec, e[c]) for c in 'ijmn']
    i, j, m, n = P
    x = j-i
    z = np.cross(x, n-i) if kind == 'plates' else np.cross(x, m-i)
    z = z/np.linalg.norm(z)
    A, S = 0.0, np.zeros(3)
    for a, b, c in ((i, j, m), (i, m, n)):
        t = np.linalg.norm(np.cross(b-a, c-a))/2
        A += t; S += t*(a+b+c)/3
    return A, S/A, z

def distorted(spec, kind, e):
    """Panels whose nodes were moved out of plane (or out of a rectangle, for plates) are outside what the elements are for."""
    i, j, m, n = [geom.xyz(spec, e[c]) for c in 'ijmn']
    d = max(np.linalg.norm(m-i), np.linalg.norm(n-j))
    if abs(np.dot(np.cross(j-i, m-i), n-i)) > 1e-6*d**3: return True
    return kind == 'plates' and max(np.abs((m-j)-(n-i)).max(), abs((j-i)@(n-i))/d) > 1e-6*d

def resultant(spec, combo):
    """Sum of forces and of moments about the origin of everything applied in a combination, and the size of its parts."""
    f = spec.combos[combo]['factors']
    F, M = np.zeros(3), np.zeros(3); size = 0.0
    def add(force, moment, at):
        nonlocal F, M, size
        F = F+force; M = M+moment+np.cross(at, force)
        size = max(size, np.abs(force).max(), np.abs(moment).max()/100)
    for n in spec.nodes.values():
        at = np.array([n['X'], n['Y'], n['Z']], float)
        for d, P, case in n['loads']:
            v = np.zeros(6); v[DIRN[d]] = P*f.get(case, 0.0)
            add(v[:3], v[3:], at)
    for m in spec.members.values():
        T = axes(spec, m); a = geom.xyz(spec, m['i'])
        for d, P, x, case in m['pt']:
            v = P*f.get(case, 0.0)*local_dir(d, T)
            add(T.T@v[:3], T.T@v[3:], a+x*T[0])
        for d, w1, w2, x1, x2, case in m['dist']:
            c = f.get(case, 0.0); L = x2-x1
            if not c or L <= 0: continue
            u = T.T@local_dir(d, T)[:3]
            W = (w1+w2)/2*L
            # first moment about x1, kept apart from W, which may be nil while the moment is not
            W1 = w1*L*L/2+(w2-w1)*L*L/3
            F = F+c*W*u; M = M+c*W*np.cross(a+x1*T[0], u)+c*W1*np.cross(T[0], u)
            size = max(size, abs(c)*max(abs(w1), abs(w2))*L)
    for kind in ('plates', 'quads'):
        for e in getattr(spec, kind).values():
            for p, case in e['pr']:
                if not f.get(case): continue
                A, cen, z = panel(spec, kind, e)
                add(f[case]*p*A*z, np.zeros(3), cen)
    return F, M, size

class P10(Run):
    def do_an(self, op):
        if op[2].get('check_statics'):
            op = [op[0], op[1], dict(op[2], stdout=io.StringIO())]
        return super().do_an(op)

    def analysed(self, kind, opts, e):
        if e is not None: return
        if kind == 'pdelta': return
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        s = self.spec
        if any(distorted(s, k, p) for k in ('plates', 'quads') for p in getattr(s, k).values()): self.st.inc('not judged: distorted panels'); return
        Z = [panel(s, k, p)[2] for k in ('plates', 'quads') for p in getattr(s, k).values()]
        if Z:
            u, sv, vt = np.linalg.svd(np.array(Z)); rank = int((sv > 1e-6).sum())
            dirs = vt[rank:]
        else: dirs = np.eye(3)
        fr = None if Z else Frame(s)
        table = self.table(opts['stdout'].getvalue()) if 'stdout' in opts else None
        L = ob.lc(s)
        for c in selected(s, opts):
            self.balance(kind, opts, c, dirs, L, table)
            if fr is not None: self.nodewise(kind, opts, c, fr, L)
        if table is not None and set(table) != set(selected(s, opts)):
            raise Violation('statics-table', 'the statics table shows combinations %s, analysed were %s' % (sorted(table), selected(s, opts)))

    def reported(self, c):
        s = self.spec
        R = np.zeros((len(s.nodes), 6))
        for i, n in enumerate(s.nodes.values()):
            o = self.model.nodes[n['name']]
            for j in range(6):
                R[i, j] = v = float(getattr(o, RXN[j])[c])
                if not math.isfinite(v): raise Violation('not-finite', 'combination %s: %s of node %s is %r' % (c, RXN[j], n['name'], v))
                if v != 0.0 and not n['sup'][j] and DOFS[j] not in n['spr']:
                    raise Violation('unsupported', 'combination %s: unsupported %s of node %s reports a reaction of %.6g' % (c, DOFS[j], n['name'], v))
        return R

    def balance(self, kind, opts, c, dirs, L, table):
        s = self.spec
        R = self.reported(c)
        X = np.array([geom.xyz(s, h) for h in s.nodes])
        SF = R[:, :3].sum(0); SM = (R[:, 3:]+np.cross(X, R[:, :3])).sum(0)
        F, M, size = resultant(s, c)
        ext = max(L, np.abs(X).max())
        scale = max(size, np.abs(R[:, :3]).max(), np.abs(R[:, 3:]).max()/L, 1e-6)
        for q in ob.DIS:   # large displacements with stiff parts amplify round-off
            d = max(abs(getattr(self.model.nodes[n['name']], q)[c]) for n in s.nodes.values())
            scale = max(scale, d*(100 if q[0] == 'D' else 1e4))
        self.log.add(c, *['%.6g' % v for v in SF])
        self.st.inc('combinations balanced')
        if np.abs(F).max() > 0 or np.abs(M).max() > 0: self.st.inc('combinations with loads')
        for i in range(3):
            if abs(SF[i]+F[i]) > 2e-6*scale:
                raise Violation('force-balance', 'combination %s: applied %s %.8g, reactions %.8g' % (c, 'XYZ'[i], F[i], SF[i]))
        for d in dirs:
            if abs(d@(SM+M)) > 2e-6*scale*ext:
                raise Violation('moment-balance', 'combination %s: moment about (%.3g, %.3g, %.3g): applied %.8g, reactions %.8g' % ((c,)+tuple(d)+(d@M, d@SM)))
        if table is not None:
            if c not in table: raise Violation('statics-table', 'no row for combination %s' % c)
            row = table[c]; self.st.inc('statics rows read')
            want = [F[0], SF[0], F[1], SF[1], F[2], SF[2], M[0], SM[0], M[1], SM[1], M[2], SM[2]]
            for nm, g, v in zip(('FX', 'RX', 'FY', 'RY', 'FZ', 'RZ', 'MX', 'RMX', 'MY', 'RMY', 'MZ', 'RMZ'), row, want):
                res = .51*10**(math.floor(math.log10(abs(g)))-2) if g else 0
                if abs(g-v) > res+2e-6*scale*(ext if 'M' in nm else 1):
                    raise Violation('statics-table', 'combination %s: the statics check shows Sum %s = %g, it is %.8g' % (c, nm, g, v))

    def table(self, text):
        out = {}; head = None
        for line in text.splitlines():
            if not line.startswith('|') or line.count('|') < 3: continue
            f = [x.strip() for x in line.strip('|').split('|')]
            if head is None: head = f; continue
            try: out[f[0]] = [float(x) for x in f[1:]]
            except ValueError: raise Violation('statics-table', 'unreadable row %r' % line)
        if head is None: raise Violation('statics-table', 'statics were to be checked but no table was printed')
        return out

    def nodewise(self, kind, opts, c, fr, L):
        s, m = self.spec, self.model
        ts = opts.get('spring_tolerance', 0) or 0
        on = {}
        Dm = np.array([[getattr(m.nodes[n['name']], d)[c] for d in DOFS] for n in s.nodes.values()])
        dmax = max(np.abs(Dm[:, :3]).max(), L*np.abs(Dm[:, 3:]).max(), 1e-12); rmax = max(np.abs(Dm[:, 3:]).max(), dmax/L)
        for h, e in s.members.items(): on['member', h] = kind == 'linear' or bool(m.members[e['name']].active[c])
        for h, e in s.springs.items(): on['spring', h] = kind == 'linear' or bool(m.springs[e['name']].active[c])
        for i, (h, e) in enumerate(s.nodes.items()):
            for j, dof in enumerate(DOFS):
                if dof not in e['spr']: continue
                k, sg = e['spr'][dof]; d = Dm[i, j]
                a = kind == 'linear' or sg is None or (d >= ts if sg == '+' else d <= -ts)
                if sg is not None and kind != 'linear' and abs(abs(d)-ts) < 1e-7*(dmax if j < 3 else rmax): return
                on['support', h, dof] = a
        D, cond = fr.solve(c, lambda *k: on[k])
        if D is None or cond > 1e11: self.st.inc('ill-conditioned'); return
        want = fr.reactions(c, lambda *k: on[k])
        R = self.reported(c)
        scale = max(np.abs(want[:, :3]).max(), np.abs(want[:, 3:]).max()/L, np.abs(fr.P).max(), 1e-6)
        tol = max(2e-6, cond*1e-14)
        err = np.abs(R-want)/np.array([scale]*3+[scale*L]*3)
        self.st.inc('combinations checked support by support')
        if err.max() > tol:
            i = np.unravel_index(err.argmax(), err.shape)
            raise Violation('reaction', 'combination %s: %s of node %s is reported as %.8g, the forces in the structure require %.8g' % (
                c, RXN[i[1]], list(s.nodes)[i[0]], R[i], want[i]))

def execute(sc, log, st):
    P10(sc, log, st).go()

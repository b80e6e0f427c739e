"""P27: everything a solved model tells about the same thing agrees."""
import math
import numpy as np
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import DOFS
from sim.world import selected
from sim.refsolver import axes, DIRN
from props.common import REAL
from props.p11 import panel_bad
ID = 'P27'
TITLE = 'Everything a solved model tells about the same thing agrees'
RUNS = dict(quick=500, thorough=25000)
STUBS = ['standard output (captured)', 'plot windows (matplotlib Agg back end; the curves are read back from the figure)']
ASSUMPTIONS = ['forces at the nodes are judged after first-order analyses (in second-order ones the last correction is still in them)',
               'one-way parts within round-off of switching are not judged',
               'a panel distorted by moving its nodes is outside the domain of its formulation']

def preload():
    import matplotlib.pyplot

def generate(r, tier):
    g = Gen(r, combos=(0, 3), nodes=(3, 6), panels=.55, mesh=.4, small_mesh=True, springs=.5, sprsup=.5, oneway=.4, tc=.3, rel=.4, internal=.4, enf=.3, loads=(3, 8))
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT); w.update(pressure=2, mesh=.3, panel=1, delnode=.5, rename=.3)
    for k in range(r.randrange(1, 4 if tier == 'quick' else 10)):
        a = analysis(r, spec=g.spec)
        if r.chance(.2): steps.append(['anf']+a[1:]+[faults.random_fault(r)])
        steps.append(a)
        if r.chance(.5): steps.append(['q', r.getrandbits(32), 3])
        if r.chance(.35): steps.append(['look', r.getrandbits(32)])
        if r.chance(.12): steps.append(['draw', r.getrandbits(32)])
        for _ in range(r.randrange(1, 4)): g.edit(w)
    a = analysis(r, spec=g.spec)
    steps += [a, ['look', r.getrandbits(32)]]
    if r.chance(.12): steps.append(['draw', r.getrandbits(32)])
    return dict(steps=steps)

def corners(p):
    """The corners of a panel in its own coordinates, in the order i, j, m, n, and its middle."""
    if p.type == 'Rect': a, b = p.width(), p.height(); return [(0, 0), (a, 0), (a, b), (0, b), (a/2, b/2)]
    return [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)]

class P27(Run):
    combos = ()
    def edited(self, op): self.combos = ()
    def faulted(self, kind, opts, fault, e, fired, where): self.combos = ()
    def analysed(self, kind, opts, e):
        self.combos = (); s = self.spec
        if e is not None: return
        if not geom.valid(s) or not all(x['generated'] for x in s.meshes.values()): self.st.inc('not judged: outside the documented domain'); return
        if not geom.surely_stable(s): self.st.inc('not judged: nearly singular'); return
        self.combos = tuple(selected(s, opts)); self.kind = kind
        for c in self.combos: self.agree(c)

    def vector(self, f, what, n=24):
        v = np.asarray(f, float).ravel()
        if v.shape != (n,) or not np.isfinite(v).all(): raise Violation('not-finite', '%s: %s' % (what, v))
        return v

    def agree(self, c):
        s, m = self.spec, self.model
        idx = {n['name']: i for i, n in enumerate(s.nodes.values())}
        D = np.array([[float(getattr(m.nodes[n], d)[c]) for d in ob.DIS] for n in idx])
        dmax = max(np.abs(D[:, :3]).max(), 1e-12); rmax = max(np.abs(D[:, 3:]).max(), 1e-12)
        # ---- the displacements of the model, its nodes and its elements
        G = self.vector(m.D(c), 'combination %s: displacements of the model' % c, 6*len(idx))
        for n, i in idx.items():
            k = m.nodes[n].ID
            if np.abs(G[6*k:6*k+6]-D[i]).max() > 1e-9*max(dmax, rmax):
                raise Violation('displacement', 'combination %s: node %s moves by %s, the model\'s displacement vector says %s' % (c, n, D[i], G[6*k:6*k+6]))
        F = np.zeros((len(idx), 6)); big = np.zeros(2); slack = np.zeros(2)
        el = []
        for h, e in s.springs.items():
            o = m.springs[e['name']]
            if o.active[c]: el.append(('spring', h, o, 'ij'))
        for h, e in s.members.items():
            o = m.members[e['name']]
            for sub in o.sub_members.values():
                if o.active[c]: el.append(('member', h, sub, 'ij')); continue
                # out of action it has no stiffness, but its nodes still carry what is on it
                f = self.vector(sub.FER(c), 'member %s, combination %s' % (h, c), 12)
                for k, q in enumerate('ij'): F[idx[getattr(sub, q+'_node').name]] += f[6*k:6*k+6]
        for kind in ('plates', 'quads'):
            for h, e in getattr(s, kind).items(): el.append((kind[:-1], h, getattr(m, kind)[e['name']], 'ijmn'))
        L = ob.lc(s)
        for kind, h, o, ends in el:
            what = '%s %s, combination %s' % (kind, h, c)
            at = [idx[getattr(o, q+'_node').name] for q in ends]
            d = self.vector(o.D(c), what, 6*len(ends)); want = D[at].ravel()
            if np.abs(d-want).max() > 1e-9*max(dmax, rmax): raise Violation('displacement', '%s: its ends move by %s, its nodes by %s' % (what, d, want))
            T = np.asarray(o.T(), float)
            if np.abs(self.vector(o.d(c), what, 6*len(ends))-T@want).max() > 1e-8*max(dmax, rmax): raise Violation('displacement', '%s: local displacements are not the global ones turned' % what)
            f, fl = self.vector(o.F(c), what, 6*len(ends)), self.vector(o.f(c), what, 6*len(ends))
            K = np.abs(np.asarray(o.K(), float))@np.abs(want)
            for i, q in enumerate(at):
                F[q] += f[6*i:6*i+6]
                big = np.maximum(big, [np.abs(f[6*i:6*i+3]).max(), np.abs(f[6*i+3:6*i+6]).max()])
                slack = np.maximum(slack, [K[6*i:6*i+3].max(), K[6*i+3:6*i+6].max()])
            if np.abs(f-T.T@fl).max() > 1e-7*max(np.abs(f).max(), 1e-9)+1e-11*K.max(): raise Violation('local-global', '%s: end forces in global directions are not the local ones turned' % what)
        self.st.inc('elements against their nodes', len(el))
        if self.kind == 'pdelta' or m.solution == 'P-Delta': return
        if any(panel_bad(s)) or self.touchy(c, dmax, rmax): self.st.inc('not judged: at the limit'); return
        # ---- every node in equilibrium
        A = np.zeros_like(F); R = np.zeros_like(F)
        fac = s.combos[c]['factors'] if c in s.combos else {'Case 1': 1.0}
        for h, n in s.nodes.items():
            i = idx[n['name']]
            for d, P, case in n['loads']: A[i, DIRN[d]] += P*fac.get(case, 0.0)
            R[i] = [float(getattr(m.nodes[n['name']], q)[c]) for q in ob.RXN]
        big = np.maximum(big, [max(np.abs(A[:, :3]).max(), np.abs(R[:, :3]).max()), max(np.abs(A[:, 3:]).max(), np.abs(R[:, 3:]).max())])
        fs = max(big[0], big[1]/L, 1e-6); ms = max(big[1], fs*L)
        res = F-A-R
        tol = np.array([2e-6*fs+1e-11*slack[0]]*3+[2e-6*ms+1e-11*slack[1]]*3)
        self.st.inc('nodes in equilibrium', len(idx))
        bad = np.abs(res)-tol
        if bad.max() > 0:
            i, j = np.unravel_index(bad.argmax(), bad.shape)
            raise Violation('node', 'combination %s: at node %s the elements take %.8g in %s, applied %.8g and reaction %.8g' % (
                c, list(s.nodes)[i], F[i, j], DOFS[j], A[i, j], R[i, j]))
        # ---- the diagrams of a member end in its end forces
        for h, e in s.members.items():
            o = m.members[e['name']]
            if not o.active[c]: continue
            sub = list(o.sub_members.values()); L1 = s.length(e)
            f = np.concatenate([np.asarray(sub[0].f(c), float).ravel()[:6], np.asarray(sub[-1].f(c), float).ravel()[6:]])
            pts = [p[2] for p in e['pt']]
            for end, x in ((0, 0.0), (1, L1)):
                if any(abs(x-p) < 1e-6*L1 for p in pts): continue
                got = [o.axial(x, c), o.shear('Fy', x, c), o.shear('Fz', x, c), o.torque(x, c), o.moment('My', x, c), o.moment('Mz', x, c)]
                want = f[6*end:6*end+6]*END[end]
                for q, a, b in zip(('axial', 'shear Fy', 'shear Fz', 'torque', 'moment My', 'moment Mz'), got, want):
                    t = 2*(tol[0] if q[0] in 'as' else tol[3])
                    if not abs(float(a)-b) <= t: raise Violation('end', 'combination %s: %s of member %s at x=%.6g is %.9g, its end force %.9g' % (c, q, h, x, a, b))
            self.st.inc('member ends', 2)

    def touchy(self, c, dmax, rmax):
        """Spring supports about to switch: whether they act is for round-off to decide."""
        for n in self.spec.nodes.values():
            for dof, (k, sg) in n['spr'].items():
                d = float(getattr(self.model.nodes[n['name']], ob.DIS[DOFS.index(dof)])[c])
                if sg is not None and abs(d) < 1e-7*(dmax if dof[0] == 'D' else rmax): return True
        return False

    # ---- summaries against what they sum up
    def do_look(self, op):
        s, m = self.spec, self.model
        if not self.combos or any(panel_bad(s)): return
        r = Rng.derive('look', op[1])
        for h, me in s.meshes.items():
            o = m.meshes[me['name']]
            if not o.elements: continue
            every = set(s.combos) <= set(self.combos) and set(m.load_combos) <= set(self.combos)
            for c in [r.pick(self.combos)]+([None] if every else []):
                for q, d, i in (('shear', 'Qx', 0), ('shear', 'Qy', 1), ('moment', 'Mx', 0), ('moment', 'My', 1), ('moment', 'Mxy', 2)):
                    if r.chance(.4): continue
                    glob = q == 'shear' and False
                    v = []
                    for p in o.elements.values():
                        for k in ([c] if c is not None else list(self.combos)):
                            for x, y in corners(p): v.append(float(np.asarray(getattr(p, q)(x, y, True, k), float)[i, 0]))
                    hi, lo = getattr(o, 'max_'+q)(d, c), getattr(o, 'min_'+q)(d, c)
                    t = 1e-9*max(map(abs, v))
                    if abs(hi-max(v)) > t or abs(lo-min(v)) > t:
                        raise Violation('mesh', 'mesh %s, %s: %s from %.9g to %.9g, in its elements from %.9g to %.9g' % (h, 'all combinations' if c is None else c, d, lo, hi, min(v), max(v)))
                    self.st.inc('mesh extremes')
        self.log.add(self.i, 'look')

    def do_draw(self, op):
        s, m = self.spec, self.model
        if not self.combos or not s.members: return
        import matplotlib.pyplot as plt
        r = Rng.derive('draw', op[1])
        h = r.pick(list(s.members)); o = m.members[s.members[h]['name']]; c = r.pick(self.combos); n = r.pick([2, 7, 20])
        if not o.active[c]: return
        for q, d in r.sample([('shear', 'Fy'), ('shear', 'Fz'), ('moment', 'My'), ('moment', 'Mz'), ('torque', None), ('axial', None), ('deflection', 'dy'), ('deflection', 'dz'),
                              ('rel_deflection', 'dy'), ('rel_deflection', 'dz')], 3):
            a = () if d is None else (d,)
            plt.close('all')
            getattr(o, 'plot_'+q)(*a, c, n)
            ax = plt.gca()
            lines = [l for l in ax.get_lines() if len(l.get_xdata()) == n and len(set(map(float, l.get_xdata()))) == n]
            want = np.asarray(getattr(o, q+'_array')(*a, n, c), float)
            sc = max(np.abs(want[1]).max(), 1e-12)
            self.st.inc('curves read')
            if not any(np.abs(np.asarray(l.get_xdata(), float)-want[0]).max() <= 1e-9*want[0].max() and np.abs(np.asarray(l.get_ydata(), float)-want[1]).max() <= 1e-9*sc for l in lines):
                raise Violation('curve', 'member %s, combination %s: the plot of %s %s shows %s, asked directly %s' % (h, c, q, d, [list(map(float, l.get_ydata())) for l in lines][:2], list(want[1])))
            t = ax.get_title()
            if s.members[h]['name'] not in t or c not in t: raise Violation('curve', 'the plot of member %s, combination %s is titled %r' % (s.members[h]['name'], c, t))
        plt.close('all')
        self.log.add(self.i, 'draw')

# axial, shear y, shear z, torque, moment y, moment z at either end, for end forces acting on the member
END = (np.array([1, 1, 1, 1, -1, 1.]), np.array([-1, -1, -1, -1, 1, -1.]))

def execute(sc, log, st):
    P27(sc, log, st).go()

"""P09: one-way elements and supports end in an admissible, balanced state."""
import copy, math
import numpy as np
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import DOFS
from sim.world import selected, analyze
from sim.refsolver import Frame
from props.common import REAL
ID = 'P09'
TITLE = 'One-way elements and supports end in an admissible, balanced state'
RUNS = dict(quick=900, thorough=40000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['combinations in which a one-way part is engaged or not by a margin within round-off (1e-7 of the largest force or displacement) are not judged',
               'second-order analyses: admissibility of the reported state only (no independent second-order solution)',
               'models consist of members, springs and supports (no panels), so that the independent solver covers them']
RXN = ob.RXN

def generate(r, tier):
    g = Gen(r, combos=(1, 4), springs=.75, tc=.85, oneway=.85, sprsup=.85, panels=0, mesh=0, nodes=(3, 6), extra=(0, 3), internal=.35, rel=.3)
    g.base()
    for _ in range(r.randrange(0, 3)): g.tryedit('spr')
    for _ in range(r.randrange(0, 2)): g.tryedit('spring')
    steps = g.ops
    w = dict(EDITS); w.update(DIRECT)
    w.update(panel=0, mesh=0, pressure=0, spr=3, spring=2, member=3, sup=.6, nload=3, merge=.1, rename=.1)
    for k in range(r.randrange(1, 4 if tier == 'quick' else 10)):
        a = analysis(r, linear=r.chance(.15), spec=g.spec)
        if a[1] != 'linear' and r.chance(.2): a[2]['max_iter'] = r.pick([1, 2, 3, 5])
        if a[1] == 'general' and r.chance(.12): a[2].update(spring_tolerance=r.pick([.001, .02]), member_tolerance=r.pick([.01, .5]))
        if r.chance(.1): steps.append(['anf']+a[1:]+[faults.random_fault(r)])
        steps.append(a)
        if r.chance(.15): steps.append(['q', r.getrandbits(32), 3])
        for _ in range(r.randrange(1, 4)): g.edit(w)
        if r.chance(.5): steps.append(analysis(r, linear=False, spec=g.spec))
    steps.append(analysis(r, linear=False, spec=g.spec))
    return dict(steps=steps)

class P09(Run):
    def analysed(self, kind, opts, e):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        s = self.spec
        if e is not None:
            self.st.inc('fault analysis gave up')
            self.must_succeed(kind, opts, e)
            return
        ones = any(m['t'] or m['c'] for m in s.members.values()) or any(x['t'] or x['c'] for x in s.springs.values()) or \
            any(v[1] for n in s.nodes.values() for v in n['spr'].values())
        if kind == 'linear' and ones: return
        fr = Frame(s)
        for c in selected(s, opts): self.judge(kind, opts, c, fr, ones)

    def must_succeed(self, kind, opts, e):
        """With everything engaged already admissible, nothing has to be iterated."""
        if kind != 'general' or not geom.surely_stable(self.spec): return
        s = self.spec; fr = Frame(s)
        for c in selected(s, opts):
            D, cond = fr.solve(c, lambda *a: True)
            if D is None or cond > 1e11: return
            F = max(1e-6, np.abs(fr.P).max())
            for h, m in s.members.items():
                ax = fr.axial(h)
                # loads along a one-way member may make the force in between differ from that at the ends
                if (m['t'] or m['c']) and any(d[0] in ('Fx', 'FX', 'FY', 'FZ') for d in m['pt']+m['dist']): return
                if m['t'] and max(ax) > -1e-6*F or m['c'] and min(ax) < 1e-6*F: return
            for h, x in s.springs.items():
                a = fr.spring_axial(h)
                if x['t'] and a > -1e-6*F or x['c'] and a < 1e-6*F: return
            dm = np.abs(D).max()
            for h, n in s.nodes.items():
                for dof, v in n['spr'].items():
                    d = D[fr.idx[h], DOFS.index(dof)]
                    if v[1] == '+' and d < 1e-6*dm or v[1] == '-' and d > -1e-6*dm: return
        if opts.get('spring_tolerance') or opts.get('member_tolerance'): return
        raise Violation('gave-up', 'with everything engaged all one-way parts are in their permitted state in every combination, but the analysis raised %r' % e)

    def judge(self, kind, opts, c, fr, ones):
        s, m = self.spec, self.model
        ts, tm = opts.get('spring_tolerance', 0), opts.get('member_tolerance', 0)
        Dm = np.array([[getattr(m.nodes[n['name']], d)[c] for d in DOFS] for n in s.nodes.values()])
        Rm = np.array([[getattr(m.nodes[n['name']], d)[c] for d in RXN] for n in s.nodes.values()])
        if not np.isfinite(Dm).all(): raise Violation('not-finite', 'combination %s: completed analysis with displacements that are not finite' % c)
        L = ob.lc(s)
        dmax = max(np.abs(Dm[:, :3]).max(), L*np.abs(Dm[:, 3:]).max(), 1e-12); rmax = max(np.abs(Dm[:, 3:]).max(), dmax/L)
        view = ob.observe(m, s, [c], 'light')
        F = max([abs(v) for (cc, k, h, q), (t, v) in view.items() if t == ob.FORCE and isinstance(v, float)]+[1e-6])
        tolF, tie = 1e-6*F, False
        on = {}
        for h, e in s.members.items():
            o = m.members[e['name']]
            on['member', h] = a = bool(o.active[c])
            if not a:
                if not (e['t'] or e['c']): raise Violation('two-way-inactive', 'combination %s: member %s is inactive although it acts both ways' % (c, h))
                self.st.inc('members disengaged')
                for (cc, k, hh, q), (t, v) in view.items():
                    if k == 'member' and hh == h and t in (ob.FORCE, ob.MOMENT) and isinstance(v, float) and abs(v) > 0:
                        raise Violation('force-in-inactive', 'combination %s: member %s is inactive but its %s is %.6g' % (c, h, q, v))
                for q in ('max_axial', 'min_axial', 'max_torque'):
                    v = getattr(o, q)(c)
                    if abs(v) > 0: raise Violation('force-in-inactive', 'combination %s: member %s is inactive but its %s is %.6g' % (c, h, q, v))
            elif e['t'] or e['c']:
                self.st.inc('one-way members engaged')
                hi, lo = o.max_axial(c), o.min_axial(c)
                if e['t'] and not hi <= tm+tolF: raise Violation('inadmissible', 'combination %s: tension-only member %s carries compression %.6g' % (c, h, hi))
                if e['c'] and not lo >= -tm-tolF: raise Violation('inadmissible', 'combination %s: compression-only member %s carries tension %.6g' % (c, h, -lo))
        for h, e in s.springs.items():
            o = m.springs[e['name']]
            on['spring', h] = a = bool(o.active[c]); ax = float(o.axial(c))
            if not a:
                if not (e['t'] or e['c']): raise Violation('two-way-inactive', 'combination %s: spring %s is inactive although it acts both ways' % (c, h))
                self.st.inc('springs disengaged')
                if abs(ax) > 0 or abs(np.asarray(o.F(c))).max() > 0: raise Violation('force-in-inactive', 'combination %s: spring %s is inactive but reports a force of %.6g' % (c, h, ax))
            elif e['t'] or e['c']:
                self.st.inc('one-way springs engaged')
                if e['t'] and ax > ts+tolF: raise Violation('inadmissible', 'combination %s: tension-only spring %s carries compression %.6g' % (c, h, ax))
                if e['c'] and ax < -ts-tolF: raise Violation('inadmissible', 'combination %s: compression-only spring %s carries tension %.6g' % (c, h, -ax))
        for i, (h, e) in enumerate(s.nodes.items()):
            for j, dof in enumerate(DOFS):
                if dof not in e['spr']: continue
                k, sg = e['spr'][dof]
                d = Dm[i, j]; big = dmax if j < 3 else rmax
                if sg is None: a = True
                else:
                    a = d >= ts if sg == '+' else d <= -ts
                    if ts == 0 and abs(d) < 1e-10*big: pass        # engaged or not makes no difference
                    elif abs(abs(d)-ts) < 1e-7*big: tie = True; self.st.inc('ties')
                    self.st.inc('one-way supports engaged' if a else 'one-way supports disengaged')
                on['support', h, dof] = a
                want = -k*d if a else 0.0
                if not tie and abs(Rm[i, j]-want) > 1e-6*max(F if j < 3 else F*L, 1e-9):
                    raise Violation('support', 'combination %s: spring support %s of node %s (%s, k=%g) displaced by %.6g reports a reaction of %.6g instead of %.6g' % (c, dof, h, sg, k, d, Rm[i, j], want))
        if ones: self.st.inc('one-way states judged')
        self.log.add(c, sorted(k for k, v in on.items() if not v))
        self.st['engagement patterns'] = self.st.get('engagement patterns', 0) + (1 if any(not v for v in on.values()) else 0)
        if kind == 'pdelta' or tie: return
        D, cond = fr.solve(c, lambda *k: on[k])
        if D is None or cond > 1e11: self.st.inc('ill-conditioned'); return
        tol = max(1e-6, cond*1e-14)
        err = max(np.abs(D[:, :3]-Dm[:, :3]).max()/dmax, np.abs(D[:, 3:]-Dm[:, 3:]).max()/rmax)
        if err > tol:
            i = np.unravel_index(np.abs((D-Dm)/np.array([dmax]*3+[rmax]*3)).argmax(), D.shape)
            raise Violation('displacements', 'combination %s: with the engaged parts reported (not engaged: %s), the structure displaces %s of node %s by %.8g, reported %.8g' % (
                c, [k for k, v in on.items() if not v], DOFS[i[1]], list(s.nodes)[i[0]], D[i], Dm[i]))
        # an engaged part must be admissible in the independent solution too
        for h, e in s.members.items():
            if on['member', h] and not any(abs(p[2]) < 1e-9 or abs(p[2]-s.length(e)) < 1e-9 for p in e['pt']):
                ax = fr.axial(h)
                for x, v in ((0.0, ax[0]), (s.length(e), ax[-1])):
                    got = m.members[e['name']].axial(x, c)
                    if abs(got-v) > 1e-5*F+tol*F*10: raise Violation('axial', 'combination %s: axial force of member %s at x=%g is %.8g, reported %.8g' % (c, h, x, v, got))
        for h in s.springs:
            if on['spring', h]:
                v, got = fr.spring_axial(h), m.springs[s.springs[h]['name']].axial(c)
                if abs(got-v) > 1e-5*F+tol*F*10: raise Violation('axial', 'combination %s: force of spring %s is %.8g, reported %.8g' % (c, h, v, got))
        self.st.inc('states solved independently')

def execute(sc, log, st):
    P09(sc, log, st).go()

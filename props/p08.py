"""P08: merging coincident nodes and renaming preserve the structure."""
import copy, math
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import extract, diff, DOFS, Inapplicable
from props.p07 import P07
from props.common import REAL
ID = 'P08'
TITLE = 'Merging coincident nodes and renaming preserve the structure'
RUNS = dict(quick=450, thorough=20000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['groups of coincident nodes are smaller than the tolerance and clearly apart from each other (no chains)',
               'coincident nodes do not carry different spring supports or imposed displacements in the same direction']

def split(g, r, tol):
    """Operations that double some nodes and attach elements, supports and loads to the doubles; None if the merged structure would not do."""
    s = g.spec; ops = []
    dup = {}
    hs = list(s.nodes)
    for h in r.sample(hs, min(len(hs), r.randrange(1, 4))):
        for rep in range(r.weighted([(1, 5), (2, 1)])):
            d = g.h('d'); off = r.pick([0, 0, 0, .3*tol, .4*tol])
            n = s.nodes[h]; p = [float(n['X']), float(n['Y']), float(n['Z'])]
            if off == .4*tol: p = [c+off for c in p]
            else: p[r.randrange(3)] += off
            ops.append(['node', d, g.nm('n', d)]+p); dup.setdefault(h, []).append(d)
    if not s.mats: return None
    trial = s.copy()
    try:
        for o in ops: g._apply(trial, o)
    except Inapplicable: return None
    alld = [d for v in dup.values() for d in v]
    orig = {d: h for h, v in dup.items() for d in v}
    def more(op):
        try: g._apply(trial, op); ops.append(op); return True
        except Inapplicable: return False
    for _ in range(r.randrange(1, 6)):
        d = r.pick(alld)
        others = [h for h in trial.nodes if orig.get(h, h) != orig[d]]
        if not others: break
        o = r.pick(others); t = r.randrange(9)
        old, g.spec = g.spec, trial
        try:
            op = None
            if t <= 2: op = g.op_member(*r.sample([d, o], 2))
            elif t == 3: op = g.op_spring(*r.sample([d, o], 2))
            elif t == 4:
                v = g.op_sup(d); op = v
            elif t == 5: op = g.op_spr(d)
            elif t == 6:
                op = g.op_enf(d)
            elif t == 7:
                op = g.op_nload(d)
                same = [l for h in [orig[d]]+dup[orig[d]] for l in trial.nodes[h]['loads']]
                if same and r.chance(.5): op[2:] = list(r.pick(same))       # the same load at nodes that become one
            else:
                ks = [(k, h) for k in ('plates', 'quads') for h, e in s.__dict__[k].items() if orig[d] in [e[c] for c in 'ijmn']]
                if ks:
                    k, h = r.pick(ks); e = getattr(s, k)[h]
                    c = [d if e[x] == orig[d] else e[x] for x in 'ijmn']
                    hh = g.h(k[0]); op = [k[:-1], hh, g.nm(k[0], hh)]+c+[r.num(1, 5, 2), e['mat'], 1, 1]
        finally: g.spec = old
        if op:
            if op[0] in ('sup', 'spr', 'enf') and op[1] != d: continue
            if more(op) and op[0] == 'member' and r.chance(.5):
                old, g.spec = g.spec, trial
                l = g.op_mpt(op[1]) if r.chance(.5) else g.op_mdist(op[1])
                g.spec = old
                more(l)
    merged = trial.copy()
    # conflicts between the doubles are outside the property
    groups = [[h]+v for h, v in dup.items()]
    for grp in groups:
        for dof in DOFS:
            if sum(1 for h in grp if dof in merged.nodes[h]['spr']) > 1 or sum(1 for h in grp if dof in merged.nodes[h]['enf']) > 1: return None
    g._apply(merged, ['merge', tol])
    for m in list(merged.members.values())+list(merged.springs.values()):
        if m['i'] == m['j']: return None
    if not geom.valid(merged) or not geom.surely_stable(merged): return None
    return ops, trial, merged

def adjacent_meshes(g, r):
    """Two rectangular meshes that share an edge; supports come after merging."""
    if g.spec.meshes or not g.spec.mats: return None
    s = g.step; mat = g.any_of('mats'); ops = []
    et = r.pick(['Quad', 'Rect']); plane = r.pick(['XY', 'YZ', 'XZ'])
    for k in range(2):
        h = g.h('ms'); o = [s*8., 0., 0.]
        ax = dict(XY=0, YZ=2, XZ=0)[plane]; o[ax] += k*s
        ops += [['mesh', h, None if r.chance(.4) else 'u'+h, 'rect', dict(mesh_size=s*r.pick([1, .5]) if k == 0 else ops[0][4]['mesh_size'], width=s, height=s, thickness=r.num(1, 4, 2), mat=mat,
                 origin=o, plane=plane, element_type=et)], ['gen', h]]
    return ops

def apart(g, r, tol):
    """Nodes just beyond the tolerance from existing ones: they have to stay apart."""
    ops = []; trial = g.spec.copy()
    for h in r.sample(list(trial.nodes), min(len(trial.nodes), r.randrange(1, 3))):
        n = trial.nodes[h]; d = g.h('d')
        u = [r.uniform(.6, 1)*r.pick([-1, 1]) for _ in range(3)]
        f = tol*r.uniform(1.03, 1.6)/math.sqrt(sum(c*c for c in u))
        more = [['node', d, g.nm('n', d)]+[float(n[a])+f*c for a, c in zip('XYZ', u)], ['sup', d, [True]*6]]
        try:
            for o in more: g._apply(trial, o)
        except Inapplicable: continue
        ops += more
    merged = trial.copy(); g._apply(merged, ['merge', tol])
    # (a definition with nodes this close is not analysed: they go away again)
    return (ops, [['delnode', o[1]] for o in ops if o[0] == 'node']) if len(merged.nodes) == len(trial.nodes) else None

def generate(r, tier):
    g = Gen(r, combos=(0, 3), springs=.4, panels=.5, mesh=.2, nodes=(3, 5), small_mesh=True)
    g.base()
    steps = g.ops
    for k in range(r.randrange(1, 4 if tier == 'quick' else 8)):
        tol = r.pick([.001, .001, .01])
        x = r.random()
        if x < .2 and not g.spec.meshes:
            ops = adjacent_meshes(g, r)
            if ops:
                trial = g.spec.copy()
                for o in ops: g._apply(trial, o)
                merged = trial.copy(); g._apply(merged, ['merge', tol])
                old, g.spec = g.spec, merged
                h = [h for h in merged.meshes][-2]
                sup = [['sup', o[1], [True]*6] for o in g.support_mesh(merged, h, 'rect')]
                h2 = [h for h in merged.meshes][-1]
                sup += [['sup', o[1], [True]*6] for o in g.support_mesh(trial, h2, 'rect')]
                try:
                    for o in sup: g._apply(merged, o)
                except Inapplicable: merged = None
                if merged and geom.valid(merged) and geom.surely_stable(merged):
                    if r.chance(.3): steps.append(['rename']); 
                    steps.extend(ops)
                    if r.chance(.3): steps.append(['rename'])
                    steps.append(['merge', tol]); steps.extend(sup); g.spec = merged
                    steps.append(analysis(r, spec=g.spec))
                else: g.spec = old
        elif x < .8:
            for _ in range(5):
                got = split(g, r, tol)
                if got: break
            if got:
                ops, trial, merged = got
                # definition order of the elements is arbitrary: interleave an analysis or a rename
                steps.extend(ops)
                if r.chance(.2): steps.append(['an', 'general', {}])
                if r.chance(.2): steps.append(['rename'])
                steps.append(['merge', tol]); g.spec = merged
                if r.chance(.3): steps.append(['rename'])
                steps.append(analysis(r, spec=g.spec))
        if r.chance(.5):
            steps.append(analysis(r, spec=g.spec))
            steps.append(['rename'])
            if r.chance(.5): steps.append(analysis(r, spec=g.spec))
        if r.chance(.4): g.edit()
        if r.chance(.3):
            got = apart(g, r, tol)
            if got:
                steps.extend(got[0]); steps.append(['merge', tol]); steps.extend(got[1])
        if r.chance(.2): steps.append(['merge', tol]); g._apply(g.spec, ['merge', tol])
        steps.append(analysis(r, spec=g.spec))
    return dict(steps=steps)

class P08(P07):
    def edit(self, op):
        if op[0] == 'rename' and self.model.solution is not None and self.done:
            before = self.view(); status = self.model.solution
            r = Run.edit(self, op)
            if self.model.solution is not None:
                if self.model.solution != status: raise Violation('status', 'renaming changed the status from %r to %r' % (status, self.model.solution))
                d = ob.compare(before, self.view(), ob.lc(self.spec), 1e-12)
                if d: raise Violation('rename-results', 'renaming changed results: %s' % d)
                self.st.inc('renamed while solved')
            return r
        if op[0] == 'merge':
            n = len(self.spec.nodes)
            r = Run.edit(self, op)
            self.st.inc('nodes merged', n-len(self.spec.nodes))
            return r
        return Run.edit(self, op)
    def analysed(self, kind, opts, e):
        self.checked('after an analysis')
        if geom.coincident(self.spec): return
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        self.against_fresh(kind, opts, e)
        self.st.inc('analyses compared')

def execute(sc, log, st):
    P08(sc, log, st).go()

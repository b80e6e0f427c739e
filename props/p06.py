"""P06: a model never claims to be solved for a definition it was not analysed for."""
import copy
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS
from sim import faults, geom, observe as ob
from sim.world import analyze, selected
from props.common import REAL
ID = 'P06'
TITLE = 'A model never claims to be solved for a definition it was not analysed for'
RUNS = dict(quick=700, thorough=25000)
STUBS = ['standard output (captured)']
ASSUMPTIONS = ['edits are editing calls (model and mesh methods); direct assignment to attributes of entities is outside the property',
               'an edit that cannot alter the results (an unused material, say) may leave the model solved; the oracle compares the results held']

KINDS = dict(EDITS)
KINDS.update(delaux=1.2, merge=.8, rename=.7, delspring=1.2, delmember=1.2, delnode=1.2, selfw=.8, delloads=.6, mesh=.8, opening=.8, mat=.4, sec=.4, pressure=1.2)

def generate(r, tier):
    g = Gen(r, combos=(0, 3), springs=.6, aux=.6, panels=.5, mesh=.35, nodes=(3, 5), sec=.4)
    g.base()
    steps = g.ops
    for k in range(r.randrange(4, 9 if tier == 'quick' else 18)):
        steps.append(analysis(r, spec=g.spec))
        if r.chance(.2): steps.append(['q', r.getrandbits(32), 3])
        x = r.random()
        if x < .06: steps.append(['meshlater', r.getrandbits(32)])
        elif r.chance(.08):
            hs = [h for h, n in g.spec.nodes.items() if '.' not in h and not n['spr'] and not n['enf'] and not all(n['sup'])]
            if hs:
                h = r.pick(hs); steps.append(['mergelater', h, g.h('d'), analysis(r, spec=g.spec)[1:]])
                g._apply(g.spec, ['sup', h, [True]*6])
        elif x < .12:
            # an edit whose result is certainly unstable
            bad, good = g.destabilise(); steps.extend(bad); steps.append(analysis(r, spec=g.spec)); steps.extend(good)
            for o in bad+good: g._apply(g.spec, o)
        elif x < .2 and k:
            steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
            g.edit(KINDS)
        elif x < .3: g.withdraw() or g.edit(KINDS)
        elif x < .34: g.reload() or g.edit(KINDS)
        else:
            kind = r.pick(list(KINDS)) if r.chance(.5) else None
            if kind is None or not g.tryedit(kind): g.edit(KINDS)
        if r.chance(.15): g.edit(KINDS)
    return dict(steps=steps)

class P06(Run):
    def claim(self, what):
        """The model says it is solved: then its results must be those of its present definition."""
        m = self.model
        if m.solution is None: self.st.inc('claims withdrawn'); return
        self.st.inc('claims checked')
        if self.kind is None: raise Violation('claim', '%s: the model reports %r without any completed analysis' % (what, m.solution))
        if any(not x['generated'] for x in self.spec.meshes.values()):
            f = copy.deepcopy(m); e = analyze(f, self.kind, {k: v for k, v in self.opts.items() if k != 'log'})
            if e is None and len(f.nodes) != len(m.nodes):
                raise Violation('claim', '%s: the model reports itself as solved, but the analysis did not include the whole mesh' % what)
        else: f, e = self.fresh(self.kind, self.opts)
        if e is not None:
            raise Violation('claim', '%s: the model reports itself as solved, but the present definition cannot be analysed: %r' % (what, e))
        combos = selected(self.spec, self.opts)
        ka, kb = ob.result_keys(f), ob.result_keys(m)
        # results of combinations that are not part of a tag-limited analysis would be stale
        if ka != kb: raise Violation('claim', '%s: the model reports itself as solved and has results for %s; analysing the present definition gives %s' % (what, kb, ka))
        a, b = self.view(f, combos), self.view(m, combos)
        d = ob.compare(a, b, ob.lc(self.spec), self.tol)
        if d: raise Violation('claim', '%s: the model reports itself as solved, but its results are not those of the present definition: %s' % (what, d))
        self.log.add('claim', ob.digest(b))

    coin = False
    def do_mergelater(self, op):
        """A supported node is put on top of another, and merged with it after an analysis."""
        _, h, d, a = op; s = self.spec
        if h not in s.nodes or d in s.nodes or s.nodes[h]['spr'] or s.nodes[h]['enf'] or not geom.valid(s): return
        if any(h in geom.internal_nodes(s, m) for m in s.members.values()): return
        n = s.nodes[h]
        self.coin = True
        for o in (['node', d, 'u'+d, n['X'], n['Y'], n['Z']], ['sup', d, [True]*6]): self.w.do(o)
        self.do_an(['an']+a)
        self.coin = False
        self.w.do(['merge', .001]); self.st.inc('edit merge'); self.edited(['merge'])

    def edited(self, op):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        if self.model.solution is not None:
            self.claim('after %s' % op[0])
    def analysed(self, kind, opts, e):
        if not self.coin and not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        if e is not None: self.kind = None; return
        self.st.inc('solved')
    def faulted(self, kind, opts, fault, e, fired, where):
        if e is None: self.kind, self.opts, self.done = kind, opts, selected(self.spec, opts)
        elif self.model.solution is not None: self.claim('after an analysis that failed (%s)' % where)
    def do_q(self, op):
        Run.do_q(self, op)
        if self.model.solution is not None and self.i % 3 == 0: self.claim('after queries')
    def do_meshlater(self, op):
        """A mesh is added, then given an opening or generated explicitly, each after an analysis."""
        r = Rng.derive('ml', op[1])
        if not self.spec.mats or self.model.solution is None or len(self.spec.meshes) > 2: return
        h = 'ml%d' % self.i
        if h in self.spec.meshes: return
        mesh = ['mesh', h, None if r.chance(.5) else 'u'+h, 'rect', dict(mesh_size=50., width=200., height=100., thickness=2., mat=r.pick(list(self.spec.mats)),
                origin=[5000.+1000*self.i, 0., 0.])]
        self.w.do(mesh); self.edited(mesh)
        self.st.inc('edit mesh')
        if r.chance(.5):
            # pretend nothing else happened: an analysis cannot succeed (the mesh floats), but the status may be inspected
            o = ['opening', h, 'o', 60., 20., 40., 30.]
            self.w.do(o); self.st.inc('edit opening'); self.edited(o)
        g = ['gen', h]; self.w.do(g); self.st.inc('edit gen'); self.edited(g)
        for n in list(self.spec.meshes[h]['gen_nodes']):
            s = ['sup', n, [True]*6]; self.w.do(s)
        self.edited(['sup'])

def execute(sc, log, st):
    P06(sc, log, st).go()

"""P07: additions and deletions keep the model closed and free of ghosts."""
import copy
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import extract, diff, DOFS, MODEL_ATTR
from props.common import REAL
ID = 'P07'
TITLE = 'Additions and deletions keep the model closed and free of ghosts'
RUNS = dict(quick=900, thorough=30000)
STUBS = ['standard output (captured)']

KINDS = dict(node=4, aux=2, spring=3, member=3, panel=2, mesh=.6, sup=1, spr=1.5, enf=1, rel=1, combo=1, nload=2, mpt=1.5, mdist=1.5, selfw=.5, pressure=1.2,
             delloads=.6, delnode=4, delaux=2, delspring=3, delmember=3, merge=.8, rename=.6, mat=.5, sec=.3)

def generate(r, tier):
    g = Gen(r, combos=(0, 2), springs=.7, aux=.7, panels=.6, mesh=.3, nodes=(3, 5), sec=.4, autonames=.5, stable=False, loads=(2, 5))
    g.base()
    steps = g.ops
    n = r.randrange(10, 26 if tier == 'quick' else 70)
    for k in range(n):
        x = r.random()
        if x < .10: steps.append(analysis(r, spec=g.spec))
        elif x < .14: steps.append(['q', r.getrandbits(32), 3])
        elif x < .17: steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        elif x < .22: steps.append(['bad', r.getrandbits(32)])
        elif x < .28: steps.append(['twin', r.getrandbits(32)])
        elif x < .33: steps.append(['reuse', r.getrandbits(32)])
        elif x < .38: steps.append(['auto', r.getrandbits(32)])
        elif x < .42: steps.append(['clear', r.getrandbits(32)])
        else: g.edit(KINDS)
    return dict(steps=steps)

class P07(Run):
    def edited(self, op):
        self.checked('after %s' % op[0])

    def checked(self, where):
        m, s = self.model, self.spec
        d = diff(s.canon(), extract(m))
        if d: raise Violation('definition', '%s: %s' % (where, d))
        self.st.inc('definitions compared')
        # every reference is to an object of this model, under its own name
        for kind in ('nodes', 'aux', 'springs', 'members', 'plates', 'quads'):
            for k, o in getattr(m, MODEL_ATTR[kind]).items():
                if o.name != k: raise Violation('name', '%s: the %s entered as %r calls itself %r' % (where, kind, k, o.name))
        for kind, ends in (('springs', 'ij'), ('members', 'ij'), ('plates', 'ijmn'), ('quads', 'ijmn')):
            for k, o in getattr(m, MODEL_ATTR[kind]).items():
                for c in ends:
                    n = getattr(o, c+'_node')
                    if m.nodes.get(n.name) is not n:
                        raise Violation('dangling', '%s: %s %r refers to node %r, which is not the model\'s' % (where, kind, k, n.name))
        for k, me in m.meshes.items():
            if not me.is_generated(): continue
            for nm, n in me.nodes.items():
                if m.nodes.get(nm) is not n: raise Violation('mesh-node', '%s: mesh %r lists node %r, which is not in the model under that name' % (where, k, nm))
            for nm, e in me.elements.items():
                if (m.quads if e.type == 'Quad' else m.plates).get(nm) is not e:
                    raise Violation('mesh-element', '%s: mesh %r lists element %r, which is not in the model under that name' % (where, k, nm))
        # what the model says about itself
        used = {h for k in ('springs', 'members', 'plates', 'quads') for e in getattr(s, k).values() for h in (e['i'], e['j'], e.get('m'), e.get('n'))}
        want = sorted(n['name'] for h, n in s.nodes.items() if h not in used)
        o = m.orphaned_nodes
        got = sorted(o() if callable(o) else o)
        if want != got: raise Violation('orphans', '%s: unattached nodes are %s, the model reports %s' % (where, want, got))
        cases = sorted({l[2] for n in s.nodes.values() for l in n['loads']} | {l[3] for e in s.members.values() for l in e['pt']} |
                       {l[5] for e in s.members.values() for l in e['dist']} | {p[1] for k in ('plates', 'quads') for e in getattr(s, k).values() for p in e['pr']})
        lc = m.load_cases
        got = list(lc() if callable(lc) else lc)
        if got != cases: raise Violation('load-cases', '%s: load cases in use are %s, the model reports %s' % (where, cases, got))

    def refused(self, op, e):
        raise Violation('legal-edit-refused', '%s raised %r' % (op, e))

    # -- edits chosen while running, so that they can depend on the names the model picked
    def do_auto(self, op):
        """Adds entities without giving names, after deletions and beside names that look automatic."""
        r = Rng.derive('auto', op[1]); s = self.spec
        ns = list(s.nodes)
        for k in range(r.randrange(1, 4)):
            h = 'au%d_%d' % (self.i, k); nm = r.pick([None, ''])
            t = r.randrange(6)
            ij = r.sample(ns, 2) if len(ns) > 1 else None
            mat = r.pick(list(s.mats)) if s.mats else None
            if t == 0 or not ij: o = ['node', h, nm, r.num(500, 900), r.num(500, 900), r.num(500, 900)]
            elif t == 1: o = ['aux', h, nm, r.num(500, 900), r.num(500, 900), 0.]
            elif t == 2: o = ['spring', h, nm, ij[0], ij[1], r.num(1, 9), False, False]
            elif t == 3 and mat: o = ['member', h, nm, ij[0], ij[1], mat, dict(A=1., Iy=2., Iz=3., J=4.), None, False, False, None]
            elif t == 4 and mat and len(ns) > 3: o = [r.pick(['plate', 'quad']), h, nm]+r.sample(ns, 4)+[1.5, mat, 1, 1]
            elif mat: o = ['mesh', h, nm, 'rect', dict(mesh_size=50., width=50., height=100., thickness=2., mat=mat, origin=[7000.+100*self.i, 0., 0.])]
            else: continue
            self.edit(o)
            if r.chance(.3) and t in (2, 3): self.edit(['del'+o[0], h])
            if r.chance(.2) and t == 0: self.edit(['delnode', h])

    def do_reuse(self, op):
        """Deletes something that has been used and enters something new under the same name."""
        r = Rng.derive('reuse', op[1]); s = self.spec
        kind = r.pick(['nodes', 'springs', 'members', 'aux'])
        if not getattr(s, kind): return
        h = r.pick(list(getattr(s, kind))); e = copy.deepcopy(getattr(s, kind)[h]); new = 're%d' % self.i
        if kind == 'nodes':
            if len(s.nodes) < 3: return
            self.edit(['delnode', h]); self.edit(['node', new, e['name'], e['X'], e['Y'], e['Z']])
        elif kind == 'aux': self.edit(['delaux', h]); self.edit(['aux', new, e['name'], e['X']+1, e['Y']+2, e['Z']+3])
        elif kind == 'springs': self.edit(['delspring', h]); self.edit(['spring', new, e['name'], e['j'], e['i'], 7.0, False, False])
        else: self.edit(['delmember', h]); self.edit(['member', new, e['name'], e['j'], e['i'], e['mat'], dict(A=1., Iy=2., Iz=3., J=4.), None, False, False, None])
        self.st.inc('names reused')

    def do_twin(self, op):
        """A node joined to others by every kind of element, then deleted again."""
        r = Rng.derive('twin', op[1]); s = self.spec
        ns = list(s.nodes); 
        if len(ns) < 3 or not s.mats: return
        h = 'tw%d' % self.i; mat = r.pick(list(s.mats))
        self.edit(['node', h, None, r.num(200, 900), r.num(200, 900), r.num(200, 900)])
        for k, t in enumerate(r.sample(['spring', 'member', 'plate', 'quad'], r.randrange(1, 5))):
            for rep in range(r.randrange(1, 3)):
                hh = '%s_%d%d' % (h, k, rep)
                if t == 'spring': self.edit(['spring', hh, None]+r.sample([h, r.pick(ns)], 2)+[5., False, r.chance(.5)])
                elif t == 'member': self.edit(['member', hh, None]+r.sample([h, r.pick(ns)], 2)+[mat, dict(A=1., Iy=2., Iz=3., J=4.), None, False, False, None])
                else: self.edit([t, hh, None]+r.sample([h]+r.sample(ns, 3), 4)+[1.5, mat, 1, 1])
        self.edit(['delnode', h])
        self.st.inc('joined nodes deleted')

    def do_clear(self, op):
        """Loads of every kind on many entities (some of which share a name), then all loads deleted."""
        r = Rng.derive('clear', op[1]); s = self.spec; case = r.pick(['D', 'L', 'Q'])
        if r.chance(.6) and s.mats and len(s.nodes) > 3:
            both = r.pick(['A', 'cl%d' % self.i])
            for t in ('plate', 'quad'):
                if all(e['name'] != both for e in getattr(s, t+'s').values()):
                    self.edit([t, 'cl%s%d' % (t[0], self.i), both]+r.sample(list(s.nodes), 4)+[1.5, r.pick(list(s.mats)), 1, 1])
        for h in list(s.nodes):
            if r.chance(.5): self.edit(['nload', h, r.pick(['FX', 'FY', 'MZ']), 1.5, case])
        for h in list(s.members):
            L = s.length(s.members[h])
            if L <= 0: continue
            if r.chance(.5): self.edit(['mpt', h, r.pick(['Fy', 'FX', 'Mz']), 2.5, round(.4*L, 3), case])
            if r.chance(.5): self.edit(['mdist', h, r.pick(['Fz', 'FY']), .1, .2, None, None, case])
        for t in 'pq':
            for h in list(getattr(s, t+'lates' if t == 'p' else 'quads')):
                if r.chance(.7): self.edit([t+'p', h, .01, case])
        if r.chance(.3): self.edit(['selfw', 'FY', -1.0, case])
        self.edit(['delloads'])
        self.st.inc('loads of every kind deleted')

    def do_bad(self, op):
        from props.p05 import catalogue
        import io, contextlib
        r = Rng.derive('bad', op[1])
        what, call = r.pick(catalogue(r, self.spec, self.model))
        try:
            with contextlib.redirect_stdout(io.StringIO()): call()
        except Exception: pass
        else: raise Skip('an invalid edit was accepted')      # P05's business
        self.st.inc('fault refused edit')
        self.checked('after a refused edit (%s)' % what)

    def analysed(self, kind, opts, e):
        self.checked('after an analysis')
        if e is None and geom.valid(self.spec) and geom.surely_stable(self.spec):
            # nothing that has been deleted still acts
            self.against_fresh(kind, opts, e, level='light')
            self.st.inc('analyses compared')
        if e is not None and geom.valid(self.spec) and geom.surely_stable(self.spec): self.against_fresh(kind, opts, e)
    def faulted(self, kind, opts, fault, e, fired, where): self.checked('after an interrupted analysis')
    def end(self): self.checked('at the end')

def execute(sc, log, st):
    P07(sc, log, st).go()

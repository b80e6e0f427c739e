"""P05: a rejected edit changes nothing."""
import copy
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import extract, diff, DOFS
from sim.world import MODEL_ATTR
from props.common import REAL
ID = 'P05'
TITLE = 'A rejected edit changes nothing'
RUNS = dict(quick=700, thorough=20000)
STUBS = ['standard output (captured)']

def generate(r, tier):
    g = Gen(r, combos=(0, 3), springs=.6, aux=.6, sec=.6, panels=.5, mesh=.25, nodes=(3, 5))
    g.base()
    steps = g.ops
    for k in range(r.randrange(1, 3 if tier == 'quick' else 6)):
        if r.chance(.25): steps.append(['bad', r.getrandbits(32)])
        if r.chance(.75): steps.append(analysis(r, spec=g.spec))
        if r.chance(.3): steps.append(['q', r.getrandbits(32), 4])
        for _ in range(r.randrange(4, 14)):
            steps.append(['bad', r.getrandbits(32)])
            if r.chance(.12): g.edit()
    steps.append(['bad', r.getrandbits(32)])
    steps.append(analysis(r, spec=g.spec))
    return dict(steps=steps)

# (what, always refused) -> function of (rng, spec, model) returning a call, or None when not applicable
def catalogue(r, spec, m):
    from PyNite.Section import Section
    def some(kind):
        d = getattr(spec, kind)
        return d[r.pick(list(d))]['name'] if d else None
    two = r.sample([n['name'] for n in spec.nodes.values()], 2) if len(spec.nodes) > 1 else None
    four = r.sample([n['name'] for n in spec.nodes.values()], 4) if len(spec.nodes) > 3 else None
    mat = some('mats'); NO = r.pick(['no such', 'N999', 'zz'])
    out = []
    def add(what, ok, f): 
        if ok: out.append((what, f))
    P = (1.0, 2.0, 3.0)
    n, mem, spr, pl, qu, aux, sec, mesh = (some(k) for k in ('nodes', 'members', 'springs', 'plates', 'quads', 'aux', 'secs', 'meshes'))
    add('node name taken', n, lambda: m.add_node(n, *P))
    add('auxiliary node name taken', aux, lambda: m.add_auxnode(aux, *P))
    add('material name taken', mat, lambda: m.add_material(mat, 1.0, 1.0, .3, .1))
    add('section name taken', sec, lambda: m.add_section(sec, Section(m, sec, 1., 2., 3., 4., mat)))
    add('spring name taken', spr and two, lambda: m.add_spring(spr, two[0], two[1], 10.0))
    add('member name taken', mem and two and mat, lambda: m.add_member(mem, two[0], two[1], mat, 1., 2., 3., 4.))
    add('plate name taken', pl and four, lambda: m.add_plate(pl, *four, 1.0, mat))
    add('quad name taken', qu and four, lambda: m.add_quad(qu, *four, 1.0, mat))
    add('rectangle mesh name taken', mesh, lambda: m.add_rectangle_mesh(mesh, 10, 20, 20, 1.0, mat))
    add('annulus mesh name taken', mesh, lambda: m.add_annulus_mesh(mesh, 10, 40, 20, 1.0, mat))
    add('frustrum mesh name taken', mesh, lambda: m.add_frustrum_mesh(mesh, 10, 40, 20, 30, 1.0, mat))
    add('cylinder mesh name taken', mesh, lambda: m.add_cylinder_mesh(mesh, 10, 40, 20, 1.0, mat))
    for who, nm in (('named', 'fresh'), ('auto-named', None)):
        add('%s spring to an unknown node' % who, two, lambda nm=nm: m.add_spring(nm, two[0], NO, 10.0))
        add('%s spring from an unknown node' % who, two, lambda nm=nm: m.add_spring(nm, NO, two[1], 10.0, True))
        add('%s member to an unknown node' % who, two and mat, lambda nm=nm: m.add_member(nm, two[0], NO, mat, 1., 2., 3., 4.))
        add('%s member from an unknown node' % who, two and mat, lambda nm=nm: m.add_member(nm, NO, two[0], mat, 1., 2., 3., 4.))
        add('%s member of unknown material' % who, two, lambda nm=nm: m.add_member(nm, two[0], two[1], NO, 1., 2., 3., 4.))
        add('%s member of unknown section' % who, two and mat, lambda nm=nm: m.add_member(nm, two[0], two[1], mat, section_name=NO))
        add('%s plate with an unknown node' % who, four and mat, lambda nm=nm: m.add_plate(nm, *four[:3], NO, 1.0, mat))
        add('%s quad with an unknown node' % who, four and mat, lambda nm=nm: m.add_quad(nm, *four[:2], NO, four[3], 1.0, mat))
        add('%s plate of unknown material' % who, four, lambda nm=nm: m.add_plate(nm, *four, 1.0, NO))
        add('%s quad of unknown material' % who, four, lambda nm=nm: m.add_quad(nm, *four, 1.0, NO))
    add('member with unknown auxiliary node', two and mat, lambda: m.add_member('fresh', two[0], two[1], mat, 1., 2., 3., 4., aux_node=NO))
    add('delete unknown node', True, lambda: m.delete_node(NO))
    add('delete unknown auxiliary node', True, lambda: m.delete_auxnode(NO))
    add('delete unknown spring', True, lambda: m.delete_spring(NO))
    add('delete unknown member', True, lambda: m.delete_member(NO))
    add('support at unknown node', True, lambda: m.def_support(NO, True, True, True))
    add('support spring at unknown node', True, lambda: m.def_support_spring(NO, 'DY', 10.0))
    add('support spring in invalid freedom', n, lambda: m.def_support_spring(n, r.pick(['DQ', 'FX', 'dx', '']), 10.0, r.pick([None, '+'])))
    add('support spring with invalid direction', n, lambda: m.def_support_spring(n, r.pick(DOFS), 10.0, r.pick(['x', '+-', 'up', 1])))
    add('imposed displacement at unknown node', True, lambda: m.def_node_disp(NO, 'DY', .1))
    add('imposed displacement in invalid direction', n, lambda: m.def_node_disp(n, r.pick(['DQ', 'FY', 'dy', '']), .1))
    add('releases of unknown member', True, lambda: m.def_releases(NO, *([True]*12)))
    add('load on unknown node', True, lambda: m.add_node_load(NO, 'FX', 1.0))
    add('nodal load in invalid direction', n, lambda: m.add_node_load(n, r.pick(['Fx', 'DX', 'FQ', '']), 1.0, 'D'))
    add('point load on unknown member', True, lambda: m.add_member_pt_load(NO, 'Fy', 1.0, 1.0))
    add('point load in invalid direction', mem, lambda: m.add_member_pt_load(mem, r.pick(['fy', 'DX', 'FQ', '']), 1.0, 1.0))
    add('distributed load on unknown member', True, lambda: m.add_member_dist_load(NO, 'Fy', 1.0, 1.0))
    add('distributed load in invalid direction', mem, lambda: m.add_member_dist_load(mem, r.pick(['fy', 'Mx', 'MZ', '']), 1.0, 1.0))
    add('pressure on unknown plate', True, lambda: m.add_plate_surface_pressure(NO, .1))
    add('pressure on unknown quad', True, lambda: m.add_quad_surface_pressure(NO, .1))
    add('self weight in invalid direction', spec.members, lambda: m.add_member_self_weight(r.pick(['Fq', 'Mx', 'up']), 1.0))
    return out

ALL = None

class P05(Run):
    def state(self):
        m = self.model
        s = dict(solution=m.solution, definition=extract(m), order={k: list(getattr(m, a)) for k, a in MODEL_ATTR.items()},
                 combos=list(m.load_combos), ids={k: [id(o) for o in getattr(m, a).values()] for k, a in MODEL_ATTR.items()})
        s['inside'] = inside(m)
        return s

    def do_bad(self, op):
        r = Rng.derive('bad', op[1])
        cat = catalogue(r, self.spec, self.model)
        if not cat: return
        what, call = r.pick(cat)
        before = self.state()
        view = self.view() if self.model.solution is not None and self.done else None
        import io, contextlib
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                call()
            e = None
        except Exception as ex: e = ex
        self.log.add(self.i, what, type(e).__name__)
        self.st.inc('fault '+what)
        if e is None:
            raise Violation('accepted: '+what, 'the call with "%s" was accepted' % what)
        after = self.state()
        for k in before:
            if before[k] != after[k]:
                d = diff(before['definition'], after['definition']) if k == 'definition' else delta(before[k], after[k])
                raise Violation('changed', 'refused edit (%s: %r) changed the model: %s: %s' % (what, e, k, d))
        if view is not None:
            d = ob.compare(view, self.view(), ob.lc(self.spec), 1e-12)
            if d: raise Violation('results', 'refused edit (%s: %r) changed the results: %s' % (what, e, d))
        self.st.inc('refused edits')

    def analysed(self, kind, opts, e):
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        if self.i == len(self.sc['steps'])-1: self.against_fresh(kind, opts, e)

def inside(m):
    """Plain attributes of every entity that are not part of the definition as such."""
    out = {}
    for coll in ('nodes', 'aux_nodes', 'springs', 'members', 'plates', 'quads', 'meshes', 'materials', 'sections'):
        for k, o in getattr(m, coll).items():
            for a, v in vars(o).items():
                if isinstance(v, (int, float, str, bool, type(None))): out[coll, k, a] = v
                elif isinstance(v, (list, dict)) and a != 'sub_members': out[coll, k, a] = plain(v)
    for a, v in vars(m).items():
        if isinstance(v, (int, float, str, bool, type(None))): out[a] = v
    return out

def plain(v):
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    if isinstance(v, (int, float, str, bool, type(None))): return v
    try: return float(v)
    except Exception: return id(v)

def delta(a, b):
    if isinstance(a, dict):
        for k in list(a)+[k for k in b if k not in a]:
            if a.get(k) != b.get(k): return '%s: %s -> %s' % (k, a.get(k), b.get(k))
    return '%s -> %s' % (a, b)

def execute(sc, log, st):
    P05(sc, log, st).go()

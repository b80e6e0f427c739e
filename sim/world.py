"""Real PyNite model plus reference definition, driven by the same operations."""
import copy, sys, os, io
from sim.core import Violation
from sim.spec import Spec, Inapplicable, extract, diff, DOFS, MODEL_ATTR, KINDS

EDIT_OPS = {'node','aux','mat','sec','spring','member','plate','quad','mesh','gen','opening','sup','spr','enf','rel',
            'combo','nload','mpt','mdist','selfw','pp','qp','delloads','delnode','delaux','delspring','delmember',
            'merge','rename','setm','setk','setn','setq','setf'}
DIRECT_OPS = {'setm', 'setk', 'setn', 'setq', 'setf'}      # attribute assignment, not an editing call

def api(model, spec, op):
    """Perform one editing operation on the real model through its public API."""
    k = op[0]
    N = lambda r: spec.name('nodes', r)
    if k == 'node': return model.add_node(op[2], *op[3:6])
    if k == 'aux': return model.add_auxnode(op[2], *op[3:6])
    if k == 'mat': return model.add_material(op[2], *op[3:7])
    if k == 'sec':
        from PyNite.Section import Section
        return model.add_section(op[2], Section(model, op[2], op[3], op[4], op[5], op[6], spec.name('mats', op[7])))
    if k == 'spring': return model.add_spring(op[2], N(op[3]), N(op[4]), op[5], op[6], op[7])
    if k == 'member':
        _, h, nm, i, j, mat, props, aux, t, c, sec = op
        kw = dict(tension_only=t, comp_only=c)
        if aux is not None: kw['aux_node'] = spec.name('aux', aux)
        if sec is not None: kw['section_name'] = spec.name('secs', sec)
        else: kw.update(Iy=props['Iy'], Iz=props['Iz'], J=props['J'], A=props['A'])
        return model.add_member(nm, N(i), N(j), spec.name('mats', mat), **kw)
    if k in ('plate', 'quad'):
        f = model.add_plate if k == 'plate' else model.add_quad
        return f(op[2], N(op[3]), N(op[4]), N(op[5]), N(op[6]), op[7], spec.name('mats', op[8]), op[9], op[10])
    if k == 'mesh':
        return add_mesh(model, spec, op[2], op[3], op[4])
    if k == 'gen': return model.meshes[spec.name('meshes', op[1])].generate()
    if k == 'opening': return model.meshes[spec.name('meshes', op[1])].add_rect_opening(*op[2:7])
    if k == 'sup': return model.def_support(N(op[1]), *op[2])
    if k == 'spr': return model.def_support_spring(N(op[1]), op[2], op[3], op[4])
    if k == 'enf': return model.def_node_disp(N(op[1]), op[2], op[3])
    if k == 'rel': return model.def_releases(spec.name('members', op[1]), *op[2])
    if k == 'combo':
        return model.add_load_combo(op[1], dict(op[2]), None if op[3] is None else list(op[3]))
    if k == 'nload': return model.add_node_load(N(op[1]), op[2], op[3], op[4])
    if k == 'mpt': return model.add_member_pt_load(spec.name('members', op[1]), op[2], op[3], op[4], op[5])
    if k == 'mdist': return model.add_member_dist_load(spec.name('members', op[1]), op[2], op[3], op[4], op[5], op[6], op[7])
    if k == 'selfw': return model.add_member_self_weight(op[1], op[2], op[3])
    if k == 'pp': return model.add_plate_surface_pressure(spec.name('plates', op[1]), op[2], op[3])
    if k == 'qp': return model.add_quad_surface_pressure(spec.name('quads', op[1]), op[2], op[3])
    if k == 'delloads': return model.delete_loads()
    if k == 'delnode': return model.delete_node(N(op[1]))
    if k == 'delaux': return model.delete_auxnode(spec.name('aux', op[1]))
    if k == 'delspring': return model.delete_spring(spec.name('springs', op[1]))
    if k == 'delmember': return model.delete_member(spec.name('members', op[1]))
    if k == 'merge': return model.merge_duplicate_nodes(op[1])
    if k == 'rename': return model.rename()
    if k == 'setm': return setattr(model.members[spec.name('members', op[1])], op[2], op[3])
    if k == 'setk': return setattr(model.springs[spec.name('springs', op[1])], 'ks', op[2])
    if k == 'setn': return setattr(model.nodes[N(op[1])], op[2], op[3])
    if k == 'setq': return setattr(model.quads[spec.name('quads', op[1])], 't', op[2])
    if k == 'setf': return model.load_combos[op[1]].AddLoadCase(op[2], op[3])
    raise ValueError('unknown op %r' % (op,))

def add_mesh(model, spec, name, kind, kw):
    kw = dict(kw)
    kw['material_name'] = spec.name('mats', kw.pop('mat'))
    f = dict(rect=model.add_rectangle_mesh, annulus=model.add_annulus_mesh, frustrum=model.add_frustrum_mesh,
             cylinder=model.add_cylinder_mesh)[kind]
    return f(name, **kw)

NEW_KIND = dict(node='nodes', aux='aux', mat='mats', sec='secs', spring='springs', member='members', plate='plates',
                quad='quads', mesh='meshes')

class World:
    def __init__(self, log=None):
        from PyNite import FEModel3D
        self.model = FEModel3D()
        self.spec = Spec()
        self.log = log
        self.last_kind = None       # kind and options of the last completed analysis

    # ---- edits -----------------------------------------------------------------------------------
    def do(self, op):
        """Returns 'ok', 'inapplicable' or the exception raised by the model."""
        try:
            before = self.spec.copy() if op[0] in ('rename',) else None
            trial = self.spec
            self._check(op)
        except Inapplicable:
            return 'inapplicable'
        ids = self._ids() if op[0] == 'rename' else None
        try:
            ret = api(self.model, self.spec, op)
        except Inapplicable:
            return 'inapplicable'
        except Exception as e:
            return e
        if op[0] in NEW_KIND:
            kind = NEW_KIND[op[0]]
            name = op[2]
            if not name:
                d = getattr(self.model, MODEL_ATTR[kind])
                if isinstance(ret, str): name = ret
                else:
                    new = [k for k in d if k not in self.spec.by_name(kind)]
                    if len(new) != 1: raise Violation('auto-name', 'adding an auto-named %s added names %s' % (op[0], new))
                    name = new[0]
                if name in self.spec.by_name(kind):
                    raise Violation('auto-name', 'auto-named %s got the name %r which is already taken' % (op[0], name))
            self.spec.apply(op, name)
        else:
            self.spec.apply(op)
        if op[0] == 'rename': self._read_names(ids)
        if op[0] in ('gen', 'mesh'): self.absorb()      # (cylinders are generated at once)
        return 'ok'

    def _check(self, op):
        """Raise Inapplicable before touching the model if the reference definition cannot take `op`."""
        t = self.spec
        k = op[0]
        if k in ('spring', 'member', 'plate', 'quad'):
            e = {'spring': op[3:5], 'member': op[3:5]}.get(k, op[3:7])
            hs = [t.ref('nodes', r) for r in e]
            if len(set(hs)) != len(hs): raise Inapplicable('degenerate')
        if k in NEW_KIND:
            if op[1] in getattr(t, NEW_KIND[k]): raise Inapplicable('handle exists')
            if op[2] and op[2] in t.by_name(NEW_KIND[k]): raise Inapplicable('name exists')
        if k == 'member':
            t.ref('mats', op[5])
            if op[7] is not None: t.ref('aux', op[7])
            if op[10] is not None: t.ref('secs', op[10])
        if k in ('plate', 'quad'): t.ref('mats', op[8])
        if k == 'sec': t.ref('mats', op[7])
        if k == 'mesh': t.ref('mats', op[4]['mat'])
        if k in ('gen', 'opening'):
            m = t.meshes[t.ref('meshes', op[1])]
            if m['generated']: raise Inapplicable('already generated')
        if k in ('sup', 'spr', 'enf', 'nload', 'delnode', 'setn'): t.ref('nodes', op[1])
        if k in ('rel', 'mpt', 'mdist', 'delmember', 'setm'): t.ref('members', op[1])
        if k in ('mpt',):
            if op[4] > t.length(t.members[t.ref('members', op[1])]) + 1e-9: raise Inapplicable('beyond member')
        if k == 'mdist':
            L = t.length(t.members[t.ref('members', op[1])])
            if op[6] is not None and op[6] > L + 1e-9: raise Inapplicable('beyond member')
        if k == 'delaux': t.ref('aux', op[1])
        if k in ('delspring', 'setk'): t.ref('springs', op[1])
        if k == 'pp': t.ref('plates', op[1])
        if k in ('qp', 'setq'): t.ref('quads', op[1])
        if k == 'setf' and op[1] not in t.combos: raise Inapplicable('combo')

    def _ids(self):
        out = {}
        for kind in ('nodes', 'springs', 'members', 'plates', 'quads', 'meshes', 'aux'):
            bn = self.spec.by_name(kind)
            for k, o in getattr(self.model, MODEL_ATTR[kind]).items():
                if k in bn: out[(kind, id(o))] = bn[k]
        return out

    def _read_names(self, ids):
        for kind in ('nodes', 'springs', 'members', 'plates', 'quads'):
            d = getattr(self.model, MODEL_ATTR[kind])
            seen = {}
            for k, o in d.items():
                h = ids.get((kind, id(o)))
                if h is None: raise Violation('rename', 'after renaming, %s %r is not an entity that existed before' % (kind, k))
                if h in seen: raise Violation('rename', 'after renaming, one %s is reachable as %r and %r' % (kind, seen[h], k))
                seen[h] = k
            lost = [self.spec.__dict__[kind][h]['name'] for h in getattr(self.spec, kind) if h not in seen]
            if lost: raise Violation('rename', 'renaming lost %s %s' % (kind, lost))
            for h, k in seen.items(): getattr(self.spec, kind)[h]['name'] = k

    def absorb(self):
        """Take over the nodes and elements of newly generated meshes into the reference definition."""
        pend = [(h, m) for h, m in self.spec.meshes.items() if not m['generated']
                and m['name'] in self.model.meshes and self.model.meshes[m['name']].is_generated()]
        if not pend: return
        known = self.spec.by_name('nodes')
        for h, m in pend:
            mesh = self.model.meshes[m['name']]
            m['generated'] = True
            mat = m['kw']['mat']
            names = self.spec.by_name('nodes')
            idx = 0
            for name in list(mesh.nodes):
                n = mesh.nodes[name]
                if name in names: continue
                hh = '%s.n%d' % (h, idx); idx += 1
                self.spec.nodes[hh] = dict(name=name, X=float(n.X), Y=float(n.Y), Z=float(n.Z), sup=[False]*6, spr={}, enf={}, loads=[])
                m['gen_nodes'].append(hh)
            names = self.spec.by_name('nodes')
            idx = 0
            for name, e in mesh.elements.items():
                kind = 'quads' if e.type == 'Quad' else 'plates'
                hh = '%s.e%d' % (h, idx); idx += 1
                c = []
                for a in ('i_node', 'j_node', 'm_node', 'n_node'):
                    nn = getattr(e, a).name
                    if nn not in names: raise Violation('mesh-integrity', 'element %s of mesh %s is attached to node %s which is not in the model' % (name, m['name'], nn))
                    c.append(names[nn])
                mt = self.spec.mats[mat]
                getattr(self.spec, kind)[hh] = dict(name=name, i=c[0], j=c[1], m=c[2], n=c[3], t=float(e.t), mat=mat,
                    kx=float(e.kx_mod), ky=float(e.ky_mod), pr=[[a[0], a[1]] for a in e.pressures], E=mt['E'], nu=mt['nu'])
                m['gen_els'].append((kind, hh))

    def note_default_combo(self):
        if not self.spec.combos and 'Combo 1' in self.model.load_combos and len(self.model.load_combos) == 1:
            self.spec.combos['Combo 1'] = dict(factors={'Case 1': 1.0}, tags=None)

    def check_definition(self, where=''):
        d = diff(self.spec.canon(), extract(self.model))
        if d: raise Violation('definition', '%s%s' % (where, d))


# ---- fresh models --------------------------------------------------------------------------------
def build(spec, order=None, names=None, combos=None):
    """A newly built model with the definition `spec`.
    order: optional function(kind, handles) -> handles in the order to enter them
    names: optional function(kind, handle, name) -> name to use
    combos: optional list of combination names to include, in order"""
    from PyNite import FEModel3D
    from PyNite.Section import Section
    order = order or (lambda kind, hs: hs)
    names = names or (lambda kind, h, n: n)
    m = FEModel3D()
    nm = {}
    for kind in KINDS:
        for h, e in getattr(spec, kind).items(): nm[kind, h] = names(kind, h, e['name'])
    calls = []
    for h in order('mats', list(spec.mats)):
        e = spec.mats[h]; m.add_material(nm['mats', h], e['E'], e['G'], e['nu'], e['rho'])
    for h in order('secs', list(spec.secs)):
        e = spec.secs[h]
        m.add_section(nm['secs', h], Section(m, nm['secs', h], e['A'], e['Iy'], e['Iz'], e['J'], nm['mats', e['mat']]))
    for h in order('nodes', list(spec.nodes)):
        e = spec.nodes[h]; m.add_node(nm['nodes', h], e['X'], e['Y'], e['Z'])
    for h in order('aux', list(spec.aux)):
        e = spec.aux[h]; m.add_auxnode(nm['aux', h], e['X'], e['Y'], e['Z'])
    for h in order('springs', list(spec.springs)):
        e = spec.springs[h]
        m.add_spring(nm['springs', h], nm['nodes', e['i']], nm['nodes', e['j']], e['ks'], e['t'], e['c'])
    for h in order('members', list(spec.members)):
        e = spec.members[h]
        kw = {}
        if e['aux'] is not None: kw['aux_node'] = nm['aux', e['aux']]
        m.add_member(nm['members', h], nm['nodes', e['i']], nm['nodes', e['j']], nm['mats', e['mat']], Iy=e['Iy'], Iz=e['Iz'],
                     J=e['J'], A=e['A'], tension_only=e['t'], comp_only=e['c'], **kw)
        mm = m.members[nm['members', h]]
        if e['E'] != spec.mats[e['mat']]['E']: mm.E = e['E']
        if e['G'] != spec.mats[e['mat']]['G']: mm.G = e['G']
        if any(e['rel']): m.def_releases(nm['members', h], *e['rel'])
    for kind, f in (('plates', m.add_plate), ('quads', m.add_quad)):
        for h in order(kind, list(getattr(spec, kind))):
            e = getattr(spec, kind)[h]
            f(nm[kind, h], *[nm['nodes', e[c]] for c in 'ijmn'], e['t'], nm['mats', e['mat']], e['kx'], e['ky'])
    for h in order('nodes', list(spec.nodes)):
        e = spec.nodes[h]; name = nm['nodes', h]
        if any(e['sup']): m.def_support(name, *e['sup'])
        for d, (k, s) in e['spr'].items(): m.def_support_spring(name, d, k, s)
        for d, v in e['enf'].items(): m.def_node_disp(name, d, v)
    loads = []
    for h, e in spec.nodes.items():
        for l in e['loads']: loads.append(('n', h, l))
    for h, e in spec.members.items():
        for l in e['pt']: loads.append(('p', h, l))
        for l in e['dist']: loads.append(('d', h, l))
    for h, e in spec.plates.items():
        for l in e['pr']: loads.append(('pp', h, l))
    for h, e in spec.quads.items():
        for l in e['pr']: loads.append(('qp', h, l))
    for t, h, l in order('loads', loads):
        if t == 'n': m.add_node_load(nm['nodes', h], l[0], l[1], l[2])
        elif t == 'p': m.add_member_pt_load(nm['members', h], l[0], l[1], l[2], l[3])
        elif t == 'd': m.add_member_dist_load(nm['members', h], l[0], l[1], l[2], l[3], l[4], l[5])
        elif t == 'pp': m.add_plate_surface_pressure(nm['plates', h], l[0], l[1])
        elif t == 'qp': m.add_quad_surface_pressure(nm['quads', h], l[0], l[1])
    for c in order('combos', list(spec.combos) if combos is None else list(combos)):
        e = spec.combos[c]
        m.add_load_combo(c, dict(e['factors']), None if e['tags'] is None else list(e['tags']))
    return m


# ---- analyses --------------------------------------------------------------------------------------
def analyze(model, kind, opts=None):
    """Run one analysis through the public API. Returns None or the exception raised."""
    opts = dict(opts or {})
    old = sys.stdout
    sink = None
    if 'stdout' in opts: sink = opts.pop('stdout')
    if sink is None: sink = io.StringIO()
    sys.stdout = sink
    try:
        if kind == 'general': model.analyze(**opts)
        elif kind == 'linear': model.analyze_linear(**{k: v for k, v in opts.items() if k not in ('max_iter',)})
        elif kind == 'pdelta': model.analyze_PDelta(**{k: v for k, v in opts.items() if k not in ('check_statics',)})
        else: raise ValueError(kind)
        return None
    except BaseException as e:
        if isinstance(e, (SystemExit, GeneratorExit)): raise
        return e
    finally:
        sys.stdout = old

def selected(spec, opts):
    """Names of the combinations an analysis with these options must solve."""
    tags = (opts or {}).get('combo_tags')
    out = []
    for n, c in spec.combos.items():
        if tags is None or (c['tags'] is not None and any(t in c['tags'] for t in tags)): out.append(n)
    return out

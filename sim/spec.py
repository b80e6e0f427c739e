"""Reference definition of a model, independent of PyNite: the small executable model that every
simulated history is compared with.  Entities are known by *handles* chosen by the simulator; names are
an attribute, so that renaming and automatic naming do not disturb references."""
import copy, math
from sim.core import Violation

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
KINDS = ('nodes', 'aux', 'mats', 'secs', 'springs', 'members', 'plates', 'quads', 'meshes')
MODEL_ATTR = dict(nodes='nodes', aux='aux_nodes', mats='materials', secs='sections', springs='springs',
                  members='members', plates='plates', quads='quads', meshes='meshes')

class Inapplicable(Exception):
    """The operation refers to something that does not exist (only happens while minimising)."""

class Spec:
    def __init__(self):
        for k in KINDS: setattr(self, k, {})
        self.combos = {}
        self.alias = {}

    def copy(self):
        return copy.deepcopy(self)

    # ---- references -------------------------------------------------------------------------
    def ref(self, kind, r):
        d = getattr(self, kind)
        if isinstance(r, (list, tuple)):
            if r[0] == 'at':
                for h, n in self.nodes.items():
                    if abs(n['X']-r[1]) < 1e-6 and abs(n['Y']-r[2]) < 1e-6 and abs(n['Z']-r[3]) < 1e-6:
                        return h
                raise Inapplicable(str(r))
            if r[0] == 'mnode':
                lst = self.meshes.get(r[1], {}).get('gen_nodes') or []
                if r[2] >= len(lst): raise Inapplicable(str(r))
                r = lst[r[2]]
            elif r[0] == 'mel':
                lst = [e for k, e in (self.meshes.get(r[1], {}).get('gen_els') or []) if k == kind]
                if r[2] >= len(lst): raise Inapplicable(str(r))
                r = lst[r[2]]
        seen = 0
        while kind == 'nodes' and r in self.alias and r not in d:
            r = self.alias[r]; seen += 1
            if seen > 50: break
        if r not in d: raise Inapplicable('%s %s' % (kind, r))
        return r

    def name(self, kind, r):
        return getattr(self, kind)[self.ref(kind, r)]['name']

    def by_name(self, kind):
        return {e['name']: h for h, e in getattr(self, kind).items()}

    def length(self, m):
        a, b = self.nodes[m['i']], self.nodes[m['j']]
        return ((a['X']-b['X'])**2 + (a['Y']-b['Y'])**2 + (a['Z']-b['Z'])**2)**0.5

    # ---- operations ---------------------------------------------------------------------------
    def apply(self, op, name=None):
        """Apply an accepted operation; `name` is the name the model gave to the new entity."""
        getattr(self, 'op_' + op[0])(op, name)

    def op_node(self, op, name):
        _, h, nm, x, y, z = op
        self.nodes[h] = dict(name=name or nm, X=x, Y=y, Z=z, sup=[False]*6, spr={}, enf={}, loads=[])
    def op_aux(self, op, name):
        _, h, nm, x, y, z = op
        self.aux[h] = dict(name=name or nm, X=x, Y=y, Z=z)
    def op_mat(self, op, name):
        _, h, nm, E, G, nu, rho = op
        self.mats[h] = dict(name=name or nm, E=E, G=G, nu=nu, rho=rho)
    def op_sec(self, op, name):
        _, h, nm, A, Iy, Iz, J, mat = op
        self.secs[h] = dict(name=name or nm, A=A, Iy=Iy, Iz=Iz, J=J, mat=self.ref('mats', mat))
    def op_spring(self, op, name):
        _, h, nm, i, j, ks, t, c = op
        self.springs[h] = dict(name=name or nm, i=self.ref('nodes', i), j=self.ref('nodes', j), ks=ks, t=t, c=c)
    def op_member(self, op, name):
        _, h, nm, i, j, mat, props, aux, t, c, sec = op
        m = dict(name=name or nm, i=self.ref('nodes', i), j=self.ref('nodes', j), mat=self.ref('mats', mat),
                 aux=None if aux is None else self.ref('aux', aux), t=t, c=c,
                 sec=None if sec is None else self.ref('secs', sec), rel=[False]*12, pt=[], dist=[])
        src = self.secs[m['sec']] if m['sec'] is not None else props
        for k in ('A', 'Iy', 'Iz', 'J'): m[k] = src[k]
        mt = self.mats[m['mat']]
        m['E'], m['G'] = mt['E'], mt['G']
        self.members[h] = m
    def _panel(self, kind, op, name):
        _, h, nm, i, j, m, n, t, mat, kx, ky = op
        mh = self.ref('mats', mat)
        getattr(self, kind)[h] = dict(name=name or nm, i=self.ref('nodes', i), j=self.ref('nodes', j),
            m=self.ref('nodes', m), n=self.ref('nodes', n), t=t, mat=mh, kx=kx, ky=ky, pr=[],
            E=self.mats[mh]['E'], nu=self.mats[mh]['nu'])
    def op_plate(self, op, name): self._panel('plates', op, name)
    def op_quad(self, op, name): self._panel('quads', op, name)
    def op_mesh(self, op, name):
        _, h, nm, kind, kw = op
        self.meshes[h] = dict(name=name or nm, kind=kind, kw=copy.deepcopy(kw), openings=[], generated=False,
                              gen_nodes=[], gen_els=[])
    def op_gen(self, op, name):
        pass        # nodes and elements are absorbed from the model by the world
    def op_opening(self, op, name):
        _, h, nm, xl, yb, w, hh = op
        self.meshes[self.ref('meshes', h)]['openings'].append([nm, xl, yb, w, hh])
    def op_sup(self, op, name):
        self.nodes[self.ref('nodes', op[1])]['sup'] = list(op[2])
    def op_spr(self, op, name):
        _, n, dof, k, d = op
        self.nodes[self.ref('nodes', n)]['spr'][dof] = [k, d]
        if k is None: del self.nodes[self.ref('nodes', n)]['spr'][dof]
    def op_enf(self, op, name):
        _, n, dof, v = op
        e = self.nodes[self.ref('nodes', n)]['enf']
        if v is None: e.pop(dof, None)
        else: e[dof] = v
    def op_rel(self, op, name):
        self.members[self.ref('members', op[1])]['rel'] = list(op[2])
    def op_combo(self, op, name):
        _, nm, factors, tags = op
        self.combos[nm] = dict(factors=dict(factors), tags=None if tags is None else list(tags))
    def op_nload(self, op, name):
        _, n, d, P, case = op
        self.nodes[self.ref('nodes', n)]['loads'].append([d, P, case])
    def op_mpt(self, op, name):
        _, m, d, P, x, case = op
        self.members[self.ref('members', m)]['pt'].append([d, P, x, case])
    def op_mdist(self, op, name):
        _, m, d, w1, w2, x1, x2, case = op
        mm = self.members[self.ref('members', m)]
        mm['dist'].append([d, w1, w2, 0 if x1 is None else x1, self.length(mm) if x2 is None else x2, case])
    def op_selfw(self, op, name):
        _, d, f, case = op
        for mm in self.members.values():
            w = f*self.mats[mm['mat']]['rho']*mm['A']
            mm['dist'].append([d, w, w, 0, self.length(mm), case])
    def op_pp(self, op, name):
        self.plates[self.ref('plates', op[1])]['pr'].append([op[2], op[3]])
    def op_qp(self, op, name):
        self.quads[self.ref('quads', op[1])]['pr'].append([op[2], op[3]])
    def op_delloads(self, op, name):
        for n in self.nodes.values(): n['loads'] = []
        for m in self.members.values(): m['pt'] = []; m['dist'] = []
        for p in list(self.plates.values()) + list(self.quads.values()): p['pr'] = []
    def op_delnode(self, op, name):
        h = self.ref('nodes', op[1])
        del self.nodes[h]
        for k in ('springs', 'members'):
            d = getattr(self, k)
            for e in [e for e, v in d.items() if h in (v['i'], v['j'])]: del d[e]
        for k in ('plates', 'quads'):
            d = getattr(self, k)
            for e in [e for e, v in d.items() if h in (v['i'], v['j'], v['m'], v['n'])]: del d[e]
    def op_delaux(self, op, name):
        h = self.ref('aux', op[1])
        del self.aux[h]
        for m in self.members.values():
            if m['aux'] == h: m['aux'] = None
    def op_delspring(self, op, name): del self.springs[self.ref('springs', op[1])]
    def op_delmember(self, op, name): del self.members[self.ref('members', op[1])]
    def op_merge(self, op, name):
        tol = op[1]
        hs = list(self.nodes)
        gone = set()
        for a, h1 in enumerate(hs):
            if h1 in gone: continue
            for h2 in hs[a+1:]:
                if h2 in gone: continue
                n1, n2 = self.nodes[h1], self.nodes[h2]
                d = ((n1['X']-n2['X'])**2 + (n1['Y']-n2['Y'])**2 + (n1['Z']-n2['Z'])**2)**0.5
                if d > tol: continue
                gone.add(h2); self.alias[h2] = h1
                n1['sup'] = [p or q for p, q in zip(n1['sup'], n2['sup'])]
                for dof, v in n2['spr'].items():
                    n1['spr'].setdefault(dof, list(v))
                for dof, v in n2['enf'].items():
                    n1['enf'].setdefault(dof, v)
                n1['loads'].extend([list(l) for l in n2['loads']])
                for k in ('springs', 'members', 'plates', 'quads'):
                    for e in getattr(self, k).values():
                        for c in ('i', 'j', 'm', 'n'):
                            if e.get(c) == h2: e[c] = h1
        for h in gone: del self.nodes[h]
    def op_rename(self, op, name):
        pass        # new names are read back by the world (by object identity)
    def op_setm(self, op, name):
        self.members[self.ref('members', op[1])][op[2]] = op[3]
    def op_setk(self, op, name):
        self.springs[self.ref('springs', op[1])]['ks'] = op[2]
    def op_setn(self, op, name):
        self.nodes[self.ref('nodes', op[1])][op[2]] = op[3]
    def op_setq(self, op, name):
        self.quads[self.ref('quads', op[1])]['t'] = op[2]
    def op_setf(self, op, name):
        if op[1] not in self.combos: raise Inapplicable(op[1])
        self.combos[op[1]]['factors'][op[2]] = op[3]

    # ---- canonical, name-keyed definition (compared with what the model reports) ----------------
    def canon(self):
        N = lambda h: self.nodes[h]['name'] if h in self.nodes else '<gone %s>' % h
        out = {}
        out['nodes'] = {n['name']: dict(xyz=[n['X'], n['Y'], n['Z']], sup=[bool(s) for s in n['sup']],
            spr={d: [float(v[0]), v[1]] for d, v in n['spr'].items() if v[0] is not None},
            enf={d: float(v) for d, v in n['enf'].items()},
            loads=[[l[0], float(l[1]), l[2]] for l in n['loads']]) for n in self.nodes.values()}
        out['aux'] = {n['name']: [n['X'], n['Y'], n['Z']] for n in self.aux.values()}
        out['springs'] = {s['name']: dict(e=[N(s['i']), N(s['j'])], ks=float(s['ks']), t=bool(s['t']), c=bool(s['c']))
                          for s in self.springs.values()}
        out['members'] = {m['name']: dict(e=[N(m['i']), N(m['j'])],
            p=[float(m[k]) for k in ('E', 'G', 'A', 'Iy', 'Iz', 'J')],
            aux=None if m['aux'] is None else self.aux[m['aux']]['name'], t=bool(m['t']), c=bool(m['c']),
            rel=[bool(r) for r in m['rel']], pt=[[p[0], float(p[1]), float(p[2]), p[3]] for p in m['pt']],
            dist=[[d[0], float(d[1]), float(d[2]), float(d[3]), float(d[4]), d[5]] for d in m['dist']])
            for m in self.members.values()}
        for k in ('plates', 'quads'):
            out[k] = {p['name']: dict(e=[N(p[c]) for c in 'ijmn'], p=[float(p['t']), float(p['kx']), float(p['ky'])],
                pr=[[float(a), c] for a, c in p['pr']]) for p in getattr(self, k).values()}
        out['combos'] = {n: dict(f={k: float(v) for k, v in c['factors'].items()}, tags=c['tags'])
                         for n, c in self.combos.items()}
        out['materials'] = {m['name']: [float(m[k]) for k in ('E', 'G', 'nu', 'rho')] for m in self.mats.values()}
        out['sections'] = {s['name']: [float(s[k]) for k in ('A', 'Iy', 'Iz', 'J')] for s in self.secs.values()}
        out['meshes'] = {m['name']: m['kind'] for m in self.meshes.values()}
        return out


def extract(model):
    """The definition a model reports through its public attributes, in the same canonical form."""
    out = {}
    ident = {id(n): k for k, n in model.nodes.items()}
    def nm(node):
        k = ident.get(id(node))
        if k is None: return '<node %s not in model>' % getattr(node, 'name', node)
        return k
    def keyname(kind, key, obj):
        if getattr(obj, 'name', key) != key:
            return '%s<called %s>' % (key, obj.name)
        return key
    out['nodes'] = {}
    for k, n in model.nodes.items():
        spr = {}
        enf = {}
        for d in DOFS:
            s = getattr(n, 'spring_' + d)
            if s[0] is not None: spr[d] = [float(s[0]), s[1]]
            e = getattr(n, 'Enforced' + d)
            if e is not None: enf[d] = float(e)
        out['nodes'][keyname('node', k, n)] = dict(xyz=[n.X, n.Y, n.Z], sup=[bool(getattr(n, 'support_' + d)) for d in DOFS],
            spr=spr, enf=enf, loads=[[l[0], float(l[1]), l[2]] for l in n.NodeLoads])
    out['aux'] = {keyname('aux', k, n): [n.X, n.Y, n.Z] for k, n in model.aux_nodes.items()}
    out['springs'] = {keyname('spring', k, s): dict(e=[nm(s.i_node), nm(s.j_node)], ks=float(s.ks), t=bool(s.tension_only),
                      c=bool(s.comp_only)) for k, s in model.springs.items()}
    out['members'] = {keyname('member', k, m): dict(e=[nm(m.i_node), nm(m.j_node)],
        p=[float(v) for v in (m.E, m.G, m.A, m.Iy, m.Iz, m.J)],
        aux=None if m.auxNode is None else (m.auxNode if isinstance(m.auxNode, str) else
             (m.auxNode.name if m.auxNode in model.aux_nodes.values() else '<aux %s not in model>' % m.auxNode.name)),
        t=bool(m.tension_only), c=bool(m.comp_only), rel=[bool(r) for r in m.Releases],
        pt=[[p[0], float(p[1]), float(p[2]), p[3]] for p in m.PtLoads],
        dist=[[d[0], float(d[1]), float(d[2]), float(d[3]), float(d[4]), d[5]] for d in m.DistLoads])
        for k, m in model.members.items()}
    for kind in ('plates', 'quads'):
        out[kind] = {keyname(kind, k, p): dict(e=[nm(p.i_node), nm(p.j_node), nm(p.m_node), nm(p.n_node)],
            p=[float(p.t), float(p.kx_mod), float(p.ky_mod)], pr=[[float(a[0]), a[1]] for a in p.pressures])
            for k, p in getattr(model, kind).items()}
    out['combos'] = {k: dict(f={a: float(b) for a, b in c.factors.items()},
                             tags=None if c.combo_tags is None else list(c.combo_tags))
                     for k, c in model.load_combos.items()}
    out['materials'] = {k: [float(v) for v in (m.E, m.G, m.nu, m.rho)] for k, m in model.materials.items()}
    out['sections'] = {k: [float(v) for v in (s.A, s.Iy, s.Iz, s.J)] for k, s in model.sections.items()}
    out['meshes'] = {k: {'RectangleMesh': 'rect', 'AnnulusMesh': 'annulus', 'FrustrumMesh': 'frustrum',
                         'CylinderMesh': 'cylinder'}.get(type(m).__name__, type(m).__name__) for k, m in model.meshes.items()}
    return out


def _same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try: return abs(a-b) <= 1e-9*max(abs(a), abs(b), 1e-9)
        except TypeError: return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a) if False else \
            (a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b

def diff(want, got, order=False):
    """First difference between two canonical definitions, or None."""
    for kind in want:
        w, g = want[kind], got[kind]
        miss = [k for k in w if k not in g]
        extra = [k for k in g if k not in w]
        if miss or extra:
            return '%s: missing %s, unexpected %s' % (kind, miss[:4], extra[:4])
        for k in w:
            if not _same(w[k], g[k]):
                if isinstance(w[k], dict) and isinstance(g[k], dict):
                    for f in w[k]:
                        if not _same(w[k][f], g[k].get(f)):
                            return '%s %s: %s should be %s, is %s' % (kind, k, f, w[k][f], g[k].get(f))
                return '%s %s: should be %s, is %s' % (kind, k, w[k], g[k])
        if order and list(w) != list(g):
            return '%s: order should be %s, is %s' % (kind, list(w)[:8], list(g)[:8])
    return None

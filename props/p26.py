"""P26: a saved, restored or copied model carries on where the original was, and on its own."""
import copy, pickle, io, base64, errno, math
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, proc, queries, observe as ob
from sim.spec import extract, diff, MODEL_ATTR
from sim.world import World, analyze
from props.common import REAL
ID = 'P26'
TITLE = 'A saved, restored or copied model carries on, and on its own'
RUNS = dict(quick=300, thorough=12000)
STUBS = ['standard output (captured)', 'file the model is saved to (in memory; fills up or tears on demand)', 'crash of the process (the saved bytes are all that reaches a freshly forked interpreter with another hash seed)']
ASSUMPTIONS = ['models are saved with pickle and copied with copy.deepcopy, the means Python offers; shallow copies share everything and are outside the property',
               'results of the copy and of the original may differ by round-off (arrays may be laid out differently after saving)']
KINDS = dict(EDITS); KINDS.update(DIRECT)
preload = proc.start

def generate(r, tier):
    g = Gen(r, combos=(0, 3), nodes=(3, 5), mesh=.25, small_mesh=True, panels=.3, oneway=.4, tc=.4, springs=.5, aux=.4, sec=.4, internal=.5)
    g.base()
    steps = g.ops; n = 1
    mode = r.pick(['same', 'same', 'own'])
    def an(spec):
        a = analysis(r, spec=spec); return a
    branch = {0: g.spec}; cur = 0
    for k in range(r.randrange(5, 11 if tier == 'quick' else 24)):
        x = r.random()
        if x < .3: g.edit(KINDS) if r.chance(.7) else g.edit(KINDS) or None
        elif x < .5: steps.append(analysis(r, spec=g.spec))
        elif x < .57: steps.append(['anf']+analysis(r, spec=g.spec)[1:]+[faults.random_fault(r)])
        elif x < .68: steps.append(['q', r.getrandbits(32), r.randrange(1, 6)])
        elif x < .72: steps.append(['cut', r.getrandbits(32), round(r.random(), 5)])
        elif x < .92 or n == 1:
            how = r.weighted([('deepcopy', 3), ('pickle', 2), ('crash', 2), ('broken', 1), ('torn', .5)])
            op = ['copy', how, r.getrandbits(32)]
            if how == 'crash': op.append(analysis(r, spec=g.spec) if r.chance(.7) else None)
            steps.append(op)
            if how in ('deepcopy', 'pickle', 'crash'):
                branch[n] = g.spec.copy(); n += 1
                if r.chance(.5):
                    branch[cur] = g.spec; cur = n-1; g.spec = branch[cur]; steps.append(['go', cur])
        else:
            branch[cur] = g.spec; cur = r.randrange(n); g.spec = branch[cur]; steps.append(['go', cur])
    for b in r.sample(list(branch), len(branch)):
        branch[cur] = g.spec; cur = b; g.spec = branch[b]
        steps.append(['go', b]); steps.append(analysis(r, spec=g.spec))
    return dict(steps=steps)

class Full(io.BytesIO):
    """A file on a disk with room for n bytes."""
    def __init__(self, n): super().__init__(); self.n = n
    def write(self, b):
        if self.tell()+len(b) > self.n:
            super().write(b[:max(0, self.n-self.tell())]); raise OSError(errno.ENOSPC, 'No space left on device')
        return super().write(b)

def restart(arg):
    """In a new process: what became of the saved model, and what an analysis of it gives."""
    from sim import env
    w, kind, opts, done = pickle.loads(base64.b64decode(arg['data']))
    run = P26.resume(w, kind, opts, done)
    out = dict(problem=None)
    try:
        run.faithful(arg['had'], 'restored in another process')
        if arg['an']: run.do_an(arg['an'])
    except Violation as v: out['problem'] = [v.cls, v.detail]
    except Skip as s: out['skip'] = str(s)
    out['data'] = base64.b64encode(pickle.dumps((run.w, run.kind, run.opts, run.done))).decode()
    return out

def keys(model): return repr([sorted(k) if isinstance(k, set) else k for k in ob.result_keys(model)])

def attached(m, what):
    """Every reference between the parts of a model is to the model's own parts."""
    for kind, ends in (('springs', 'ij'), ('members', 'ij'), ('plates', 'ijmn'), ('quads', 'ijmn')):
        for k, o in getattr(m, MODEL_ATTR[kind]).items():
            for c in ends:
                n = getattr(o, c+'_node')
                if m.nodes.get(n.name) is not n:
                    raise Violation('not-attached', '%s: %s %r refers to a node %r that is not the model\'s' % (what, kind, k, n.name))
    for k, me in m.meshes.items():
        if not me.is_generated(): continue
        for nm, n in me.nodes.items():
            if m.nodes.get(nm) is not n: raise Violation('not-attached', '%s: mesh %r lists a node %r that is not the model\'s' % (what, k, nm))
        for nm, e in me.elements.items():
            if (m.quads if e.type == 'Quad' else m.plates).get(nm) is not e:
                raise Violation('not-attached', '%s: mesh %r lists an element %r that is not the model\'s' % (what, k, nm))

class Quiet:
    def add(self, *a): pass
    def inc(self, *a): pass

class P26(Run):
    def __init__(self, sc, log, st):
        super().__init__(sc, log, st)
        self.branches = [dict(w=self.w, kind=None, opts=None, done=[])]; self.cur = 0
        self.kept = {}
    @classmethod
    def resume(cls, w, kind, opts, done):
        run = cls(dict(steps=[]), Quiet(), Quiet())
        run.w = w; run.kind, run.opts, run.done = kind, opts, done; run.i = 0
        run.branches = [dict(w=w, kind=kind, opts=opts, done=done)]
        return run

    # ---- what a model amounts to
    def state(self, w, done):
        m = w.model
        s = dict(status=m.solution, defn=extract(m), keys=keys(m))
        s['view'] = ob.observe(m, w.spec, done, 'full') if m.solution is not None and done and not geom.coincident(w.spec) else None
        return s
    def differs(self, a, b, spec, what, cls):
        if a['status'] != b['status']: raise Violation(cls, '%s: solution status %r instead of %r' % (what, b['status'], a['status']))
        d = diff(a['defn'], b['defn'])
        if d: raise Violation(cls, '%s: definition: %s' % (what, d))
        if a['keys'] != b['keys']: raise Violation(cls, '%s: results for %s instead of %s' % (what, b['keys'], a['keys']))
        if (a['view'] is None) != (b['view'] is None): raise Violation(cls, '%s: results there and not there' % what)
        if a['view'] is not None:
            d = ob.compare(a['view'], b['view'], ob.lc(spec), 1e-9)
            if d: raise Violation(cls, '%s: %s' % (what, d))
    def faithful(self, had, what):
        """The active model against a digest of the one it comes from."""
        w = self.w
        w.check_definition(what+': ')
        if w.model.solution != had['status']: raise Violation('copy', '%s: solution status %r instead of %r' % (what, w.model.solution, had['status']))
        if keys(w.model) != had['keys']: raise Violation('copy', '%s: results for other combinations' % what)

    # ---- company
    def keep(self):
        b = self.branches[self.cur]; b.update(w=self.w, kind=self.kind, opts=self.opts, done=list(self.done))
        self.kept[self.cur] = self.state(self.w, self.done)
    def others(self, what):
        """Every branch but the active one is as it was left."""
        for k, s in self.kept.items():
            if k == self.cur: continue
            b = self.branches[k]
            self.differs(s, self.state(b['w'], b['done']), b['w'].spec, 'model %d after %s of model %d' % (k, what, self.cur), 'not-independent')
    def do_go(self, op):
        if op[1] >= len(self.branches): return
        self.keep(); self.others('the calls')
        self.cur = op[1]; b = self.branches[self.cur]
        self.w, self.kind, self.opts, self.done = b['w'], b['kind'], b['opts'], list(b['done'])
        self.log.add(self.i, 'go', self.cur)
    def do_cut(self, op):
        """A query that is interrupted."""
        r = Rng.derive('cut', op[1])
        q = queries.pick_query(r, self.spec, self.done or list(self.spec.combos), bad=0)
        if q is None: return
        try: twin = copy.deepcopy(self.model)
        except Exception as e: raise Violation('copy-refused', 'deepcopy of the model: %r' % (e,))
        n = faults.count_lines(lambda: queries.try_ask(twin, self.spec, q))
        c = faults.LineClock(1+int(op[2]*max(n-1, 0)), KeyboardInterrupt)
        c.run(lambda: queries.try_ask(self.model, self.spec, q))
        if c.fired: self.st.inc('fault line in a query'); self.st.inc('at '+c.fired)
        self.log.add(self.i, 'cut')

    # ---- copies
    def do_copy(self, op):
        how, r = op[1], Rng.derive('copy', op[2])
        self.kept.pop(self.cur, None)
        first = r.chance(.5)
        before = self.state(self.w, self.done) if first else None
        had = dict(status=self.model.solution, keys=keys(self.model))
        state = (self.w, self.kind, self.opts, list(self.done))
        proto = r.pick([2, 4, 5, pickle.HIGHEST_PROTOCOL])
        log, self.w.log = self.w.log, None
        try:
            if how == 'deepcopy': new = copy.deepcopy(self.model)
            else: data = pickle.dumps(self.model, proto)
        except Exception as e: raise Violation('copy-refused', '%s of the model: %r' % (how, e))
        self.st.inc('copies '+how)
        if how in ('broken', 'torn'):
            room = r.randrange(0, len(data))
            f = Full(room)
            try: pickle.dump(self.model, f, proto); raise Violation('copy', 'saving to a full disk passed for done')
            except OSError: self.st.inc('fault disk full while saving')
            if how == 'torn':
                try: m = pickle.loads(f.getvalue())
                except Exception: self.st.inc('fault torn file')
                else: raise Violation('copy', 'a torn file was read as a model')
            after = self.state(self.w, self.done)
            if before is not None: self.differs(before, after, self.spec, 'after a failed attempt to save', 'original-changed')
            self.log.add(self.i, 'copy', how); return
        w2 = World(); w2.spec = self.spec.copy(); w2.last_kind = self.w.last_kind
        if how == 'deepcopy': w2.model = new
        elif how == 'pickle': w2.model = pickle.loads(data)
        else:
            arg = dict(data=base64.b64encode(pickle.dumps((self.w, self.kind, self.opts, list(self.done)), proto)).decode(), had=had, an=op[3])
            a = proc.ask(r.pick(proc.SEEDS), 'props.p26:restart', arg)
            if a.get('died'): raise Violation('copy', 'the process that continues with the saved model dies')
            if a.get('error'): raise RuntimeError(a['error'])
            if a.get('problem'): raise Violation(a['problem'][0], 'carried on in another process: '+a['problem'][1])
            if a.get('skip'): raise Skip(a['skip'])
            w2, k2, o2, d2 = pickle.loads(base64.b64decode(a['data']))
        if first: self.differs(before, self.state(self.w, self.done), self.spec, 'the original after %s' % how, 'original-changed')
        attached(self.model, 'the original'); attached(w2.model, 'the copy (%s)' % how)
        b = dict(w=w2, kind=self.kind, opts=self.opts, done=list(self.done))
        if how == 'crash': b.update(kind=k2, opts=o2, done=list(d2))
        if how != 'crash' or not op[3]:
            new = self.state(w2, b['done'])
            self.differs(self.state(self.w, self.done), new, self.spec, 'the copy (%s)' % how, 'copy')
        self.branches.append(b); self.kept[len(self.branches)-1] = self.state(w2, b['done'])
        self.log.add(self.i, 'copy', how, had['status'])

    # ---- the usual
    def edited(self, op):
        self.w.check_definition('after %s: ' % op[0]); attached(self.model, 'after %s' % op[0]); self.others(op[0])
    def faulted(self, kind, opts, fault, e, fired, where): self.others('a failed analysis')
    def analysed(self, kind, opts, e):
        self.others('an analysis')
        if geom.coincident(self.spec): return
        if not geom.valid(self.spec): raise Skip('definition outside the documented domain')
        self.against_fresh(kind, opts, e)
        self.st.inc('analyses compared')
    def end(self):
        self.kept.pop(self.cur, None); self.others('everything')

def execute(sc, log, st):
    P26(sc, log, st).go()

"""P16: reports show the current results and fail loudly without touching the model."""
import copy, io, os, sys, shutil, tempfile, errno, math
from html.parser import HTMLParser
from sim.core import Violation, Skip, Rng
from sim.hist import Run
from sim.gen import Gen, analysis, EDITS, DIRECT
from sim import faults, geom, observe as ob
from sim.spec import extract, diff
from sim.world import selected
from props.common import REAL as REAL0
ID = 'P16'
TITLE = 'Reports show the current results and fail loudly without touching the model'
RUNS = dict(quick=350, thorough=15000)
REAL = REAL0+['PyNite/Reporting.py', 'PyNite/Report_Template.html', 'jinja2', 'pdfkit']
STUBS = ['the wkhtmltopdf process (a stand-in for subprocess.Popen that keeps the HTML it is given and writes the output file inside a scratch directory)',
         'standard output (captured)']
ASSUMPTIONS = ['what a report must show is what the query methods of a copy of the model answer at that moment',
               'a converter that fails says so by its exit status, its absence, or by leaving no output']

SECTIONS = ['node_table', 'member_table', 'member_releases', 'plate_table', 'node_reactions', 'node_displacements', 'member_end_forces',
            'member_internal_forces', 'plate_corner_forces', 'plate_center_forces', 'plate_corner_membrane', 'plate_center_membrane']
TITLES = {'Nodes & Supports': 'node_table', 'Members': 'member_table', 'Member End Releases': 'member_releases', 'Plates': 'plate_table', 'Quads': 'plate_table',
          'Node Reactions': 'node_reactions', 'Node Displacements': 'node_displacements', 'Member End Forces': 'member_end_forces',
          'Member Max/Min Internal Forces': 'member_internal_forces', 'Plate Out-of-Plane Corner Forces': 'plate_corner_forces',
          'Plate Out-of-Plane Center Forces': 'plate_center_forces', 'In-Plane (Membrane) Corner Stresses': 'plate_corner_membrane',
          'In-Plane (Membrane) Center Stresses': 'plate_center_membrane'}

# ---- what the converter would be given ------------------------------------------------------------------
class Tables(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = {}; self.title = None; self.buf = None; self.row = None; self.body = False; self.order = []
    def handle_starttag(self, t, a):
        if t == 'h3': self.buf = ''
        elif t == 'table': self.out.setdefault(self.title, []); self.body = False
        elif t == 'tbody': self.body = True
        elif t == 'tr': self.row = []
        elif t == 'td': self.buf = ''
    def handle_endtag(self, t):
        if t == 'h3': self.title = ' '.join((self.buf or '').split()); self.buf = None; self.order.append(self.title); self.out.setdefault(self.title, None)
        elif t == 'td' and self.row is not None: self.row.append((self.buf or '').strip()); self.buf = None
        elif t == 'tr':
            if self.row: self.out.setdefault(self.title, []); self.out[self.title] = (self.out[self.title] or [])+[self.row]
            self.row = None
    def handle_data(self, d):
        if self.buf is not None: self.buf += d

def tables(html):
    p = Tables(); p.feed(html); p.close()
    return p.out

class Converter:
    """Stands in for the wkhtmltopdf process.  mode: None, or how it fails."""
    def __init__(self, scratch, mode=None):
        self.scratch, self.mode, self.html, self.calls, self.missed = scratch, mode, [], 0, False
        self.exe = os.path.join(scratch, 'wkhtmltopdf')
        open(self.exe, 'w').close()
        conv = self
        class Popen:
            def __init__(self, args, *a, **kw):
                self.args = list(args); self.returncode = 0
                if os.path.basename(str(args[0])) in ('which', 'where.exe'): return
                conv.calls += 1
                if conv.mode == 'enoent': raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(args[0]))
                if conv.mode == 'enomem': raise OSError(errno.ENOMEM, 'Cannot allocate memory')
                if conv.mode == 'eacces': raise PermissionError(errno.EACCES, 'Permission denied', str(args[0]))
                if conv.mode == 'emfile': raise OSError(errno.EMFILE, 'Too many open files')
                if conv.mode == 'memory': raise MemoryError('injected')
                if conv.mode == 'eagain': raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            def communicate(self, input=None, timeout=None):
                if os.path.basename(str(self.args[0])) in ('which', 'where.exe'):
                    return ((b'' if conv.mode == 'missing' else conv.exe.encode()+b'\n'), b'')
                conv.html.append((input or b'').decode('utf-8'))
                m = conv.mode
                if m == 'ctrlc': raise KeyboardInterrupt('injected')
                if m == 'eio': raise OSError(errno.EIO, 'Input/output error')
                if m == 'timeout': raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
                if m == 'value': raise ValueError('I/O operation on closed file')
                if m == 'thread': raise RuntimeError("can't start new thread")
                if m == 'network': self.returncode = 1; return b'', b'Exit with code 1 due to network error: ContentNotFoundError\n'
                if m == 'epipe': raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
                out = str(self.args[-1])
                inside = os.path.realpath(out).startswith(os.path.realpath(conv.scratch)+os.sep)
                if m == 'exit1': self.returncode = 1; return b'', b'Exit with code 1\n'
                if m == 'nospace':
                    if inside and os.path.isdir(os.path.dirname(out)): open(out, 'wb').write(b'%PDF-1.4 trunc')
                    self.returncode = 1; return b'', b'Error: Unable to write to destination\n'
                if m == 'segv': self.returncode = -11; return b'', b''
                if m == 'xserver': self.returncode = 1; return b'', b'wkhtmltopdf: cannot connect to X server\n'
                if m == 'nothing': return b'', b''                  # claims success, writes nothing
                if m == 'empty':
                    if inside: open(out, 'wb').close()
                    return b'', b''
                if inside:
                    if os.path.isdir(os.path.dirname(out)): open(out, 'wb').write(b'%PDF-1.4 '+(input or b''))
                    else: self.returncode = 1; return b'', b'Error: Unable to write to destination\n'
                return b'', b''
            def wait(self, timeout=None): return self.returncode
            def poll(self): return self.returncode
            def kill(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): return False
        self.Popen = Popen
    def __enter__(self):
        import subprocess
        self.old = subprocess.Popen; subprocess.Popen = self.Popen
        if self.mode in ('css', 'template'):
            # the style sheet or the template cannot be read
            import builtins
            self.oldopen = real = builtins.open; name = dict(css='MainStyleSheet.css', template='Report_Template.html')[self.mode]
            def fake(f, *a, **k):
                if isinstance(f, (str, os.PathLike)) and os.path.basename(os.fspath(f)) == name:
                    self.missed = True; raise PermissionError(errno.EACCES, 'Permission denied', str(f))
                return real(f, *a, **k)
            builtins.open = fake
        return self
    def __exit__(self, *a):
        import subprocess
        subprocess.Popen = self.old
        if self.mode in ('css', 'template'):
            import builtins
            builtins.open = self.oldopen
        return False

MODES = ['missing', 'enoent', 'enomem', 'eagain', 'ctrlc', 'epipe', 'exit1', 'nospace', 'segv', 'xserver', 'nothing', 'empty', 'nodir', 'dirgone',
         'eacces', 'emfile', 'memory', 'eio', 'timeout', 'value', 'thread', 'network', 'css', 'template']

def preload():
    import PyNite.Reporting

def report_step(r, fault=None):
    off = {s: False for s in SECTIONS if r.chance(.25)} if r.chance(.5) else {}
    if r.chance(.1): off = {s: False for s in SECTIONS if s != off and r.chance(.8)}
    return ['rep', off, fault]

def generate(r, tier):
    g = Gen(r, combos=(0, 3), panels=.45, mesh=.15, nodes=(3, 5), small_mesh=True, loads=(2, 5))
    g.base()
    steps = g.ops
    w = dict(EDITS); w.update({k: v*.5 for k, v in DIRECT.items()})
    if r.chance(.15): steps.append(report_step(r))
    for k in range(r.randrange(2, 4 if tier == 'quick' else 9)):
        if r.chance(.75) or k == 0: steps.append(analysis(r, spec=g.spec))
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .45: steps.append(report_step(r))
            elif x < .75: steps.append(report_step(r, dict(kind='conv', mode=r.pick(MODES)) if r.chance(.55) else
                                                   dict(kind='line', frac=round(r.random(), 5), exc=r.pick(['KeyboardInterrupt', 'MemoryError']))))
            elif x < .85: steps.append(['q', r.getrandbits(32), r.randrange(1, 5)])
            elif x < .93: steps.append(['anf', r.pick(['general', 'linear']), {}, faults.random_fault(r)])
            else: steps.append(analysis(r, spec=g.spec))
        for _ in range(r.randrange(0, 3)): g.edit(w)
    steps.append(analysis(r, spec=g.spec)); steps.append(report_step(r))
    return dict(steps=steps)

def cell(t):
    try: return float(t)
    except ValueError: return t

class P16(Run):
    def __init__(self, *a):
        super().__init__(*a)
        self.scratch = tempfile.mkdtemp(prefix='verif-p16-')
        self.n = 0

    def expected(self, title, done):
        """Rows of a table, computed by asking a copy of the model."""
        import numpy as np
        m = self.twin; s = self.spec
        if title == 'Nodes & Supports':
            return [[e['name'], e['X'], e['Y'], e['Z']]+[bool(x) for x in e['sup']] for e in s.nodes.values()]
        if title == 'Members':
            return [[e['name'], s.nodes[e['i']]['name'], s.nodes[e['j']]['name'], e['A'], e['Iy'], e['Iz'], e['J'], e['E'], e['G']] for e in s.members.values()]
        if title == 'Member End Releases': return [[e['name']]+[bool(x) for x in e['rel']] for e in s.members.values()]
        if title in ('Plates', 'Quads'):
            return [[e['name']]+[s.nodes[e[c]]['name'] for c in 'ijmn']+[e['t'], e['E'], e['nu']] for e in getattr(s, title.lower()).values()]
        out = []
        for c in done:
            if title in ('Node Reactions', 'Node Displacements'):
                for n in m.nodes.values():
                    out.append([n.name, c]+[float(getattr(n, a)[c]) for a in (ob.RXN if title == 'Node Reactions' else ob.DIS)])
            elif title == 'Member End Forces':
                for x in m.members.values():
                    L = x.L()
                    out.append([x.name, c, x.axial(0, c), x.axial(L, c), x.shear('Fy', 0, c), x.shear('Fz', 0, c), x.shear('Fy', L, c), x.shear('Fz', L, c),
                                x.moment('My', 0, c), x.moment('Mz', 0, c), x.moment('My', L, c), x.moment('Mz', L, c), x.torque(0, c), x.torque(L, c)])
            elif title == 'Member Max/Min Internal Forces':
                for x in m.members.values():
                    out.append([x.name, c, x.max_axial(c), x.min_axial(c), x.max_shear('Fy', c), x.min_shear('Fy', c), x.max_shear('Fz', c), x.min_shear('Fz', c),
                                x.max_moment('My', c), x.min_moment('My', c), x.max_moment('Mz', c), x.min_moment('Mz', c), x.max_torque(c), x.min_torque(c)])
            else:
                for kind in ('plates', 'quads'):
                    for p in getattr(m, kind).values():
                        if kind == 'plates': w, h = p.width(), p.height(); pts = [(0, 0), (w, 0), (w, h), (0, h)]; mid = (w/2, h/2)
                        else: pts = [(-1, -1), (1, -1), (1, 1), (-1, 1)]; mid = (0, 0)
                        row = [p.name, c]
                        for x, y in (pts if 'Corner' in title else [mid]):
                            if 'Membrane' in title: row += [float(v) for v in np.asarray(p.membrane(x, y, True, c), float).ravel()[:3]]
                            else: row += [float(v) for v in np.asarray(p.shear(x, y, True, c), float).ravel()[:2]]+[float(v) for v in np.asarray(p.moment(x, y, True, c), float).ravel()[:3]]
                        out.append(row)
        return out

    def check_html(self, html, off):
        got = tables(html)
        want = [t for t, s in TITLES.items() if off.get(s, True)]
        miss = [t for t in want if t not in got]; extra = [t for t in got if t not in want]
        if miss or extra: raise Violation('sections', 'with %s switched off the report lacks %s and has %s' % (sorted(k for k in off if not off[k]), miss, extra))
        solved = self.model.solution is not None
        done = self.done if solved else []
        for t in want:
            rows = got[t] or []
            exp = self.expected(t, done)
            lc = t not in ('Nodes & Supports', 'Members', 'Member End Releases', 'Plates', 'Quads')
            key = lambda row: tuple(str(x) for x in row[:2 if lc else 1])
            a = sorted(exp, key=key); b = sorted(rows, key=key)
            if [key(x) for x in a] != [key(x) for x in b]:
                ka, kb = [key(x) for x in a], [key(x) for x in b]
                raise Violation('rows', '%s, table "%s": missing %s, unexpected %s, %d rows instead of %d' % ('solved' if solved else 'not solved', t,
                    [k for k in ka if k not in kb][:3], [k for k in kb if k not in ka][:3], len(kb), len(ka)))
            big = {}
            for x in a:
                for j, v in enumerate(x):
                    if isinstance(v, float) and math.isfinite(v): big[x[1], j] = max(big.get((x[1], j), 0), abs(v))
            rel = 6e-3 if 'Plane' in t else 6e-4
            for x, y in zip(a, b):
                if len(x) != len(y): raise Violation('columns', 'table "%s" has %d columns, expected %d' % (t, len(y), len(x)))
                scale = max([big.get((x[1], j), 0) for j in range(len(x))]+[1e-12])
                for j, (p, q) in enumerate(zip(x, y)):
                    if isinstance(p, (int, float)) and not isinstance(p, bool):
                        q = cell(q); p = float(p)
                        if not isinstance(q, float): raise Violation('value', 'table "%s", row %s: %r where %.6g is expected' % (t, x[:2], q, p))
                        if math.isnan(p) and math.isnan(q): continue
                        if not abs(p-q) <= rel*abs(p)+1e-9*scale and not abs(p-q) <= 1e-12:
                            raise Violation('value', 'table "%s", row %s, column %d: the report shows %s, a query gives %.6g' % (t, x[:2], j+1, y[j], p))
                    elif str(p) != q: raise Violation('value', 'table "%s", row %s, column %d: the report shows %r, the model has %r' % (t, x[:2], j+1, q, p))
            self.st.inc('rows checked', len(rows))

    def do_rep(self, op):
        _, off, fault = op
        self.n += 1
        from PyNite import Reporting
        self.twin = copy.deepcopy(self.model)
        status = self.model.solution; before = extract(self.model)
        done = [c for c in self.done if c in self.spec.combos]
        view = self.view(combos=done, level='light') if status is not None else None
        mode = fault['mode'] if fault and fault['kind'] == 'conv' else None
        path = os.path.join(self.scratch, 'r%d.pdf' % self.n)
        if mode == 'nodir': path = os.path.join(self.scratch, 'no such directory', 'r.pdf')
        if mode == 'dirgone': path = os.path.join(self.scratch, 'wkhtmltopdf', 'r.pdf')
        conv = Converter(self.scratch, mode)
        call = lambda: Reporting.create_report(self.model, path, **off)
        e = clock = None
        old = sys.stdout; sys.stdout = io.StringIO()
        try:
            if fault and fault['kind'] == 'line':
                with Converter(self.scratch):
                    t2 = copy.deepcopy(self.model); p2 = os.path.join(self.scratch, 'count.pdf')
                    n = faults.count_lines(lambda: Reporting.create_report(t2, p2, **off))
                with conv:
                    clock = faults.LineClock(max(1, min(n, 1+int(fault['frac']*n))), faults.EXC[fault['exc']])
                    _, e = clock.run(call)
            else:
                with conv:
                    try: call()
                    except (Exception, KeyboardInterrupt) as x: e = x
        finally: sys.stdout = old
        where = 'no fault' if not fault else 'converter: %s' % mode if mode else '%s at %s' % (fault['exc'], clock.fired)
        self.log.add(self.i, 'rep', sorted(off), where, type(e).__name__ if e else 'ok', status)
        self.st.inc('reports')
        if mode in ('css', 'template') and not conv.missed: mode = None         # (read before, and kept: not reached)
        struck = mode is not None or (clock is not None and clock.fired)
        if struck: self.st.inc('fault '+('converter '+mode if mode else 'line '+fault['exc']))
        if clock is not None and clock.fired: self.st.inc('at '+clock.fired)
        # the model is as it was
        if self.model.solution != status: raise Violation('status', 'a report (%s) changed the status of the model from %r to %r' % (where, status, self.model.solution))
        d = diff(before, extract(self.model))
        if d: raise Violation('definition', 'a report (%s) changed the model: %s' % (where, d))
        if view is not None:
            d = ob.compare(view, self.view(combos=done, level='light'), ob.lc(self.spec), 1e-12)
            if d: raise Violation('results-changed', 'a report (%s) changed results: %s' % (where, d))
        # failures are reported
        if struck:
            if e is None: raise Violation('silent', 'the report claims success although it was struck (%s)' % where)
            self.st.inc('reports that failed loudly')
            return
        if e is not None:
            if status is None:                  # nothing to report on: a refusal is an answer, too
                self.st.inc('reports refused'); return
            raise Violation('refused', 'a report on a solved model raises %s: %s' % (type(e).__name__, e))
        if conv.calls != 1 or not conv.html: raise Violation('not-produced', 'the report returns without having given anything to the converter')
        if not os.path.exists(path): raise Violation('not-produced', 'the report returns but the file asked for does not exist')
        self.check_html(conv.html[-1], off)
        self.st.inc('reports read')

    def faulted(self, kind, opts, fault, e, fired, where):
        if e is None: self.kind, self.opts, self.done = kind, opts, selected(self.spec, opts)

    def end(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

def execute(sc, log, st):
    p = P16(sc, log, st)
    try: p.go()
    finally: p.end()

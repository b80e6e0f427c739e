"""P24  Drawings show the model as it is, whatever was drawn before.

Histories of edits, analyses and drawings with long-lived renderers: pyvista, VTK, and the older function that opens a
window at once.  The scene graph they prepare is real VTK / pyvista; windows, interaction and images are stand-ins.
Faults: an interrupt or a failed allocation at any line of the drawing code, a graphics call that fails, a window that
cannot be opened."""
import copy, io, sys, math, warnings
from sim.core import Violation, Rng
from sim.gen import Gen, EDITS, DIRECT, analysis
from sim.hist import Run
from sim.spec import extract, diff
from sim import observe as ob, faults, scene

ID = 'P24'
TITLE = 'Drawings show the model as it is'
RUNS = dict(quick=400, thorough=6000)
REAL = ['PyNite.FEModel3D', 'PyNite.Rendering', 'PyNite.Visualization', 'pyvista plotter and VTK scene graph (meshes, actors, mappers, texts)', 'numpy', 'scipy.sparse']
STUBS = ['render window, interactor, image writer (no display: the scene is read instead of the pixels)']
FILES = dict(pv='Rendering.py', vtk='Visualization.py', old='Visualization.py')
MAPS = ['dz', 'Mx', 'My', 'Mxy', 'Qx', 'Qy', 'Sx', 'Sy', 'Txy']
GLOBAL = ['MX', 'MY', 'QX', 'QY', 'SX', 'SY']
DEFAULT = dict(size=5, combo='Combo 1', case=None, nodes=True, labels=True, deformed=False, scale=30, loads=True, color=None, theme='default', bar=False)

def preload():
    import PyNite.Rendering, PyNite.Visualization

def draw_step(r, fault=None):
    return ['draw', r.randrange(2), r.weighted([('pv', 4), ('vtk', 4), ('old', 2)]), r.getrandbits(32), fault]

def fault(r):
    x = r.random()
    if x < .5: return dict(kind='line', frac=round(r.random(), 5), exc=r.pick(['KeyboardInterrupt', 'MemoryError']))
    if x < .8: return dict(kind='call', frac=round(r.random(), 5), exc=r.pick(['MemoryError', 'RuntimeError', 'OSError']))
    return dict(kind='window', exc=r.pick(['RuntimeError', 'OSError', 'KeyboardInterrupt']))

def generate(r, tier):
    g = Gen(r, combos=(0, 3), panels=.45, mesh=.15, nodes=(3, 5), small_mesh=True, loads=(2, 6))
    g.base()
    steps = g.ops
    def zeros():
        if r.chance(.35):
            c = r.pick(['D', 'L', 'Case 1'])
            g.tryedit('combo') if r.chance(.4) else None
            if g.spec.combos: g.emit(['combo', r.pick(list(g.spec.combos)+['zero']), {k: r.pick([0.0, 1.0, -1.2]) for k in ['D', 'L', 'Case 1'] if r.chance(.7)} or {c: 0.0}, None])
        if r.chance(.2) and g.spec.nodes: g.emit(['nload', r.pick(list(g.spec.nodes)), r.pick(['FX', 'FY', 'MZ']), 0.0, r.pick(['D', 'Case 1'])])
    w = dict(EDITS); w.update({k: v*.5 for k, v in DIRECT.items()})
    zeros()
    if r.chance(.3): steps.append(draw_step(r))
    for k in range(r.randrange(2, 4 if tier == 'quick' else 9)):
        if r.chance(.8) or k == 0: steps.append(analysis(r, spec=g.spec))
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .6: steps.append(draw_step(r))
            elif x < .8: steps.append(draw_step(r, fault(r)))
            elif x < .86: steps.append(['q', r.getrandbits(32), r.randrange(1, 5)])
            elif x < .93: steps.append(['anf', r.pick(['general', 'linear']), {}, faults.random_fault(r)])
            else: steps.append(analysis(r, spec=g.spec))
        for _ in range(r.randrange(0, 3)): g.edit(w)
        if r.chance(.3): zeros()
    if r.chance(.7): steps.append(analysis(r, spec=g.spec))
    steps.append(draw_step(r)); steps.append(draw_step(r))
    return dict(steps=steps)

# ---- stand-ins for what needs a display -----------------------------------------------------------------
class Windows:
    """Render windows, interactors and image writers that do nothing, or fail."""
    def __init__(self): self.fail = None; self.opened = 0; self.scenes = []
    def hit(self, *a, **kw):
        self.opened += 1
        if self.fail is not None: raise self.fail('injected: no window')

class FakeWindow:
    def __init__(self, win): self.win, self.rens, self.size = win, [], (300, 300)
    def SetWindowName(self, n): pass
    def AddRenderer(self, r): self.rens.append(r); self.win.scenes.append(r)
    def GetSize(self): return self.size
    def SetSize(self, w, h=None): self.size = tuple(w) if h is None else (w, h)
    def Render(self): self.win.hit()
    def Finalize(self): pass
    def __getattr__(self, n): return lambda *a, **kw: None

class FakeThing:
    def __getattr__(self, n): return lambda *a, **kw: b'' if n == 'GetResult' else None

class VtkProxy:
    """The vtk module as the drawing code sees it: windows are stand-ins, and the k-th object asked for may fail."""
    def __init__(self, win):
        import vtk
        self._vtk, self._win, self.n, self.k, self.exc = vtk, win, 0, None, None
    def __getattr__(self, name):
        self.__dict__['n'] += 1
        if self.k is not None and self.n == self.k: raise self.exc('injected')
        if name == 'vtkRenderWindow': return lambda: FakeWindow(self._win)
        if name in ('vtkRenderWindowInteractor', 'vtkWindowToImageFilter', 'vtkPNGWriter'): return FakeThing
        return getattr(self._vtk, name)

class CallClock:
    """The k-th graphics call of a pyvista plotter fails."""
    NAMES = ('add_mesh', 'add_point_labels', 'clear', 'reset_camera')
    def __init__(self, plotter, k=None, exc=None):
        self.p, self.n, self.k, self.exc, self.fired = plotter, 0, k, exc, False
    def __enter__(self):
        for nm in self.NAMES:
            f = getattr(self.p, nm)
            def g(*a, _f=f, **kw):
                self.n += 1
                if self.n == self.k: self.fired = True; raise self.exc('injected')
                return _f(*a, **kw)
            setattr(self.p, nm, g)
        return self
    def __exit__(self, *a):
        for nm in self.NAMES: self.p.__dict__.pop(nm, None)
        return False

class Drawing:
    """One long-lived renderer and the settings asked of it so far."""
    def __init__(self, lib, model, win, proxy):
        self.lib, self.win, self.proxy, self.o = lib, win, proxy, dict(DEFAULT)
        if lib == 'pv':
            from PyNite.Rendering import Renderer
            self.r = Renderer(model)
            p = self.r.plotter
            p.show = win.hit; p.screenshot = win.hit
        elif lib == 'vtk':
            from PyNite.Visualization import Renderer
            self.r = Renderer(model)
        else:
            self.r = None; self.model = model
    NAMES = dict(size='annotation_size', nodes='render_nodes', labels='show_labels', deformed='deformed_shape', scale='deformed_scale', loads='render_loads',
                 color='color_map', bar='scalar_bar')
    def set(self, o):
        """Bring the settings to `o`, touching only what is to change."""
        r = self.r
        if self.lib != 'old':
            for k, nm in self.NAMES.items():
                if o[k] != self.o[k]:
                    if self.lib == 'pv': setattr(r, nm, o[k])
                    else: getattr(r, 'set_'+nm)(o[k])
            if o['theme'] != self.o['theme']: r.theme = o['theme']
            if (o['combo'], o['case']) != (self.o['combo'], self.o['case']):
                if o['case'] is not None: setattr(r, 'case', o['case']) if self.lib == 'pv' else r.set_case(o['case'])
                else: setattr(r, 'combo_name', o['combo']) if self.lib == 'pv' else r.set_combo_name(o['combo'])
        self.o = dict(o)
    def draw(self, how):
        o = self.o
        if self.lib == 'pv':
            if how == 'update': self.r.update()
            elif how == 'show': self.r.render_model()
            else: self.r.screenshot('nowhere.png', interact=how == 'shot')
        elif self.lib == 'vtk':
            if how == 'update': self.r.update()
            elif how == 'show': self.r.render_model(interact=False)
            else: self.r.screenshot('nowhere.png', interact=how == 'shot')
        else:
            from PyNite.Visualization import render_model
            self.win.scenes.clear()
            render_model(self.model, o['size'], o['deformed'], o['scale'], o['loads'], o['color'], o['bar'], o['combo'], o['case'], o['labels'],
                         'nowhere.png' if how in ('shot', 'shot2') else None, o['theme'])
    def scene(self):
        return scene.read_pv(self.r.plotter) if self.lib == 'pv' else scene.read_vtk(self.r.renderer if self.lib == 'vtk' else self.win.scenes[-1])

class P24(Run):
    def __init__(self, *a):
        super().__init__(*a)
        import PyNite.Visualization as V
        scene.patch_labels()
        self.win = Windows(); self.proxy = VtkProxy(self.win)
        self.V, self.real = V, V.vtk
        V.vtk = self.proxy
        V.Renderer.scalar = None
        self.drawings = {}
        self.quiet = warnings.catch_warnings(); self.quiet.__enter__(); warnings.simplefilter('ignore')

    def close(self):
        self.V.vtk = self.real
        self.quiet.__exit__(None, None, None)
        for d in self.drawings.values():
            if d.lib == 'pv': d.r.plotter.close()
        import pyvista as pv
        pv.close_all()

    def settings(self, r, d):
        """New settings for a renderer: some changed, all possible for the model as it is now."""
        o = dict(d.o); s = self.spec
        solved = self.model.solution is not None
        done = [c for c in self.done if c in s.combos] if solved else []
        cases = sorted({l[-1] for n in s.nodes.values() for l in n['loads']} | {l[-1] for m in s.members.values() for l in m['pt']+m['dist']}
                       | {p[-1] for k in ('plates', 'quads') for e in getattr(s, k).values() for p in e['pr']})
        ch = lambda p: r.chance(p)
        X = [n[c] for n in s.nodes.values() for c in 'XYZ']
        if ch(.3): o['size'] = r.pick([1, 2.5, 5, 12])
        if ch(.25): o['nodes'] = ch(.7)
        if ch(.25): o['labels'] = ch(.7)
        if ch(.25): o['loads'] = ch(.8)
        if ch(.3): o['scale'] = r.pick([1, 30, 100, 7.5])
        if ch(.2): o['theme'] = r.pick(['default', 'print'])
        if ch(.25): o['bar'] = ch(.5)
        o['color'] = r.pick(MAPS+(GLOBAL if d.lib == 'pv' else [])) if ch(.5) else o['color'] if ch(.5) else None
        o['deformed'] = ch(.5)
        if ch(.5) or o['case'] is None and o['combo'] not in s.combos:
            if ch(.3) and cases: o['case'], o['combo'] = r.pick(cases+['no such case'] if ch(.1) else cases), None
            elif s.combos: o['combo'], o['case'] = r.pick(list(s.combos)), None
        want = o['color'] or o['deformed']
        if want and o['case'] is None and o['combo'] not in done and done and ch(.8): o['combo'] = r.pick(done)
        if want and o['case'] is not None and done and ch(.6): o['combo'], o['case'] = r.pick(done), None
        if o['case'] is not None or o['combo'] not in done: o['color'], o['deformed'] = None, False
        if d.lib == 'old': o['nodes'] = True
        if o['loads'] and scene.arrows(s, o) > 150: o['loads'] = False       # thousands of arrows: a drawing without end
        return o

    def do_draw(self, op):
        _, idx, lib, seed, flt = op
        r = Rng.derive('draw', seed)
        key = (idx, lib)
        self.win.fail = None; self.proxy.k = None
        if key not in self.drawings: self.drawings[key] = Drawing(lib, self.model, self.win, self.proxy)
        d = self.drawings[key]
        twin = copy.deepcopy(self.model)
        self.st.inc('drawings '+lib)
        status = self.model.solution; before = extract(self.model)
        done = [c for c in self.done if c in self.spec.combos]
        view = self.view(combos=done, level='light') if status is not None else None
        if r.chance(.06):                       # not available for load cases: has to be refused
            o = dict(d.o, deformed=True, case='D', combo=None); bad = True
        else: o = self.settings(r, d); bad = False
        d.set(o)
        how = r.weighted([('update', 5), ('show', 3), ('shot', 1), ('shot2', 1)])
        if flt and flt['kind'] == 'window' and how == 'update': how = 'show'
        opened = self.win.opened
        e = clock = None; fired = False
        if flt and flt['kind'] != 'window':
            # the same drawing of a copy, by a renderer of its own, tells how many places there are to strike
            d2 = Drawing(lib, copy.deepcopy(self.model), self.win, self.proxy); d2.set(o)
            if flt['kind'] == 'line': n = faults.count_lines(lambda: d2.draw(how), file=FILES[lib])
            else: n, _ = self.calls(d2, how, None, None)
            if lib == 'pv': d2.r.plotter.close()
            k = max(1, min(n, 1+int(flt['frac']*n)))
        exc = faults.EXC[flt['exc']] if flt else None
        if flt and flt['kind'] == 'line':
            clock = faults.LineClock(k, exc, file=FILES[lib]); _, e = clock.run(lambda: d.draw(how)); fired = bool(clock.fired)
        elif flt and flt['kind'] == 'call': (_, fired), e = self.calls(d, how, k, exc, True)
        else:
            if flt: self.win.fail = exc
            try: d.draw(how)
            except (Exception, KeyboardInterrupt) as x: e = x
            fired = bool(flt) and self.win.opened > opened
        self.win.fail = None
        where = 'no fault' if not fired else '%s %s%s' % (flt['exc'], flt['kind'], ' at '+clock.fired if clock else '')
        told = {k: v for k, v in o.items() if v != DEFAULT[k]}
        name = dict(pv='pyvista', vtk='VTK', old='render_model()')[lib]
        self.log.add(self.i, 'draw', idx, lib, how, sorted(told.items(), key=str), where, type(e).__name__ if e else 'ok', status)
        if fired:
            self.st.inc('fault %s %s' % (flt['kind'], flt['exc']))
            if clock is not None: self.st.inc('at '+clock.fired)
        # the model is as it was
        if self.model.solution != status: raise Violation('status', 'a drawing (%s, %s) changed the status of the model from %r to %r' % (name, where, status, self.model.solution))
        x = diff(before, extract(self.model))
        if x: raise Violation('definition', 'a drawing (%s, %s) changed the model: %s' % (name, where, x))
        if view is not None:
            x = ob.compare(view, self.view(combos=done, level='light'), ob.lc(self.spec), 1e-12)
            if x: raise Violation('results-changed', 'a drawing (%s, %s) changed results: %s' % (name, where, x))
        # failures are reported
        if fired:
            if e is None: raise Violation('silent', 'a drawing (%s) claims success although it was struck (%s)' % (name, where))
            self.st.inc('drawings that failed loudly'); return
        if bad:
            if e is None: raise Violation('silent', 'a drawing (%s) of the deformed shape for a load case is not refused' % name)
            self.st.inc('drawings refused'); return
        if lib == 'old' and e is not None and not self.spec.combos and o['loads'] and o['case'] is None:
            self.st.inc('drawings refused'); return
        if not self.spec.nodes and e is not None: self.st.inc('drawings refused'); return
        if e is not None: raise Violation('refused', 'a drawing (%s, %s) raises %s: %s' % (name, told, type(e).__name__, e))
        if how != 'update' and self.win.opened == opened: raise Violation('not-shown', 'a drawing (%s) returns without having opened a window' % name)
        s = d.scene()
        x = scene.expected(self.spec, twin, 'pv' if lib == 'pv' else 'vtk', o)
        scale = max([abs(n[c]) for n in self.spec.nodes.values() for c in 'XYZ']+[10*o['size']])
        bad = scene.mismatch(x, s, scale)
        if bad: raise Violation('scene-'+bad[0], 'a drawing (%s, %s): %s' % (name, told, bad[1]))
        self.st.inc('scenes read'); self.st.inc('lines in scenes', len(s.segs)); self.st.inc('faces in scenes', len(s.quads)); self.st.inc('texts in scenes', len(s.texts))

    def calls(self, d, how, k, exc, catch=False):
        """Draw with the k-th graphics call failing: (calls made, struck)."""
        e = None
        if d.lib == 'pv':
            with CallClock(d.r.plotter, k, exc) as c:
                try: d.draw(how)
                except (Exception, KeyboardInterrupt) as x: e = x
            out = (c.n, c.fired)
        else:
            self.proxy.n, self.proxy.k, self.proxy.exc = 0, k, exc
            try: d.draw(how)
            except (Exception, KeyboardInterrupt) as x: e = x
            out = (self.proxy.n, k is not None and self.proxy.n >= k)
            self.proxy.k = None
        return (out, e) if catch else out

    def edited(self, op):
        if op[0] in DIRECT: self.done = []             # results of before an attribute was set are nobody's to judge

    def faulted(self, kind, opts, fault, e, fired, where):
        if e is None:
            from sim.world import selected
            self.kind, self.opts, self.done = kind, opts, selected(self.spec, opts)

def execute(sc, log, st):
    p = P24(sc, log, st)
    try: p.go()
    finally: p.close()

ASSUMPTIONS = ['sizes and shapes of symbols (supports, arrows, arcs) follow the present conventions of each renderer; colours, line widths, cameras and sphere meshes are not judged',
 'deformed shapes and contours are asked for only where the model is analysed for the combination',
 'drawings needing more than 150 arrows for distributed loads are made without loads',
 'names of nodes are not judged while nodes are switched off; auxiliary nodes are judged in VTK scenes only; magnitudes of loads are not judged while labels are off']
LEVEL_NOTE = ('Seeded random search over histories of edits, analyses, settings, drawings and faults. Scenes are read back from the real VTK and pyvista '
 'objects (lines, faces with values, points, texts) and compared with an independent description of the model; pixels are not rendered.')

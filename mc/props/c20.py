"""The Blender addon and the demo program show complete roofs, for every setting and after every history.

Both programs are executed with stand-ins of Blender and matplotlib that record what they are given."""
import importlib.util
import math
import os
import sys
import types
from collections import Counter
from itertools import product
from unittest import mock

import core
import roof

SCALES = [.5, .7, 1., 1.3, 2., 3.]
ZS = [0., .4, 1., 2.5]
PITCHES = [0., 1., 10., 30., 45., 60., 79.]


class Stubs:
    """replaces modules while the programs are imported"""

    def __init__(self, **mods):
        self.mods = mods

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *_):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class Blender:
    """records meshes, added objects and registered classes"""

    def __init__(self):
        self.meshes, self.added = [], []
        self.classes, self.maps, self.menu = [], [], []
        outer = self

        class Mesh:
            def __init__(self, name):
                self.name, self.data = name, None

            def from_pydata(self, verts, edges, faces, *a, **k):
                self.data = [tuple(v) for v in verts], list(edges), [list(f) for f in faces]

            def update(self, *a, **k):
                pass

            def validate(self, *a, **k):
                return False

        def new(name='', *a, **k):
            m = Mesh(name)
            outer.meshes.append(m)
            return m

        class Operator:
            pass

        class AddObjectHelper:
            pass

        bpy = types.ModuleType('bpy')
        bpy.types = types.ModuleType('bpy.types')
        bpy.types.Operator = Operator
        bpy.props = types.ModuleType('bpy.props')
        bpy.props.FloatVectorProperty = lambda **k: ('property', k)
        bpy.data = types.SimpleNamespace(meshes=types.SimpleNamespace(new=new))
        bpy.utils = types.SimpleNamespace(register_class=self.classes.append, unregister_class=self.classes.remove,
                                          register_manual_map=self.maps.append, unregister_manual_map=self.maps.remove)
        bpy.types.VIEW3D_MT_mesh_add = types.SimpleNamespace(append=self.menu.append, remove=self.menu.remove)
        extras = types.ModuleType('bpy_extras')
        extras.object_utils = types.ModuleType('bpy_extras.object_utils')
        extras.object_utils.AddObjectHelper = AddObjectHelper
        extras.object_utils.object_data_add = lambda context, mesh, *a, **k: self.added.append(mesh)
        self.modules = {'bpy': bpy, 'bpy.types': bpy.types, 'bpy.props': bpy.props, 'bpy_extras': extras,
                        'bpy_extras.object_utils': extras.object_utils}


def load(path, name, package=False):
    spec = importlib.util.spec_from_file_location(name, path, submodule_search_locations=[os.path.dirname(path)] if package else None)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def load_addon():
    b = Blender()
    with Stubs(**b.modules):
        return b, load(os.path.join(roof.REPO, '__init__.py'), 'mc_addon', True)


class Axes:
    def __init__(self):
        self.lines = []

    def clear(self):
        self.lines = []

    cla = clear

    def plot(self, xs, ys, zs, *a, **k):
        self.lines += [tuple(zip(xs, ys, zs))[i:i+2] for i in range(len(xs)-1)]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Slider:
    last = None

    def __init__(self, *a, **k):
        self.valmin, self.valmax = k.get('valmin'), k.get('valmax')
        self.fn = None
        Slider.last = self

    def on_changed(self, fn):
        self.fn = fn


def load_demo():
    ax = Axes()
    plt = mock.MagicMock()
    plt.figure.return_value.add_subplot.return_value = ax
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    mpl.widgets = types.ModuleType('matplotlib.widgets')
    mpl.widgets.Slider = Slider
    with Stubs(**{'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.widgets': mpl.widgets}):
        return ax, load(os.path.join(roof.REPO, 'demo.py'), 'mc_demo')


def building(mesh, scale):
    """complaints about the mesh of the addon: a closed building, open at the bottom only"""
    V, edges, F = mesh
    ground = [i for i, v in enumerate(V) if abs(v[2]) < 1e-9]
    eaves = 5.*scale[2]
    de = Counter(e for f in F for e in roof.fedges(f))
    if any(not 0 <= i < len(V) for f in F for i in f):
        return ['a face has an index without a vertex']
    if any(k > 1 for k in de.values()):
        return ['two faces use an edge in the same direction']
    free = [e for e in de if (e[1], e[0]) not in de]
    if scale[2] and (any(i not in ground for e in free for i in e) or len(free) != 26):
        return ['the building is not closed: %d edges have one face' % len(free)]
    # the walls stand on the contour, and the others are the roof
    base = [[V[i][:2] for i in range(26)]]
    walls = [f for f in F if len(f) == 4 and sum(i < 26 for i in f) == 2]
    if len(walls) != 26:
        return ['%d walls instead of 26' % len(walls)]
    for f in walls:
        low = sorted(f)[:2]
        for i in f:
            want = 0. if i < 26 else eaves
            if abs(V[i][2]-want) > 1e-4 or min(math.dist(V[i][:2], V[j][:2]) for j in low) > 1e-4:
                return ['a wall has a vertex at %s' % (V[i],)]
        (a, b) = next((a, b) for a, b in roof.fedges(f) if a < 26 and b < 26)
        if (b-a) % 26 != 1:
            return ['wall %r is not directed outwards' % f]
    R = roof.Roof.__new__(roof.Roof)
    R.contours, R.tan, R.height, R.z, R.infos, R.n0, R.error = base, .6, 0., eaves, [(26, 26)], 52, None
    R.V = V
    R.faces = [f for f in F if not (len(f) == 4 and sum(i < 26 for i in f) == 2)]
    bad = roof.wellformed(R)
    if bad or not roof.usable(R):
        return bad or ['no roof']
    # faces of almost parallel walls may have been merged, since there was a spike between them
    return roof.wallcover(R)+roof.tiling(R)+roof.slope(R, .6*max(scale[:2]))


class C20(core.Check):
    id = 'C20'
    technique = 'exhaustive exploration of settings and histories of the addon and the demo program, executed with recording stand-ins of Blender and matplotlib'
    rule = ('addon: every scale of a grid and every history of two of them, every register/unregister history of length 4; '
            'demo: every history of three slider positions')
    level_note = ('Complete for the listed scales, pitches and lengths of histories. Blender and matplotlib are replaced by stand-ins, '
                  'which record the mesh and the lines; the rendering is not covered.')

    def tasks(self, tier):
        n = 1 if tier == 'quick' else 2
        T = [('scale', x, y) for x in SCALES for y in SCALES]
        T += [('register',)]
        T += [('scales', x, z) for x in SCALES for z in ZS]
        T += [('pitch', p, n) for p in PITCHES]
        return T

    def run(self, task, rec):
        bad, err = roof.outcome(self.task, task, rec)
        bad = bad or ([err] if err else None)
        if bad:
            rec.violation(' '.join(map(str, task)), bad[0], {'task': task})
        rec.sample({'task': task})

    def task(self, task, rec):
        return getattr(self, 'do_'+task[0])(rec, *task[1:])

    def add(self, m, b, scale, rec):
        op = types.SimpleNamespace(scale=types.SimpleNamespace(x=scale[0], y=scale[1], z=scale[2]))
        cls = getattr(m, 'OBJECT_OT_add_object', None)
        n = len(b.added)
        rec.execution()
        rec.transition()
        if cls is not None:
            o = cls()
            o.scale = op.scale
            res = o.execute(None)
            if res != {'FINISHED'}:
                return None, 'the operator returns %r' % (res,)
        else:
            m.add_object(op, None)
        if len(b.added) != n+1 or b.added[-1].data is None:
            return None, '%d objects were added with scale %s' % (len(b.added)-n, scale)
        return b.added[-1].data, None

    def do_scale(self, rec, x, y):
        b, m = load_addon()
        for z in ZS:
            mesh, bad = self.add(m, b, (x, y, z), rec)
            if bad:
                return [bad]
            rec.state()
            bad = building(mesh, (x, y, z))
            if bad:
                return ['scale %s: %s' % ((x, y, z), bad[0])]
            rec.outcome(sorted(map(len, mesh[2])))

    def do_scales(self, rec, x, z):
        """the second building does not depend on the first one"""
        first = {}
        for s in ((1., 1., 1.), (2., x, z)):
            b, m = load_addon()
            first[s], bad = self.add(m, b, s, rec)
            if bad:
                return [bad]
        for p, q in product(((x, 1., z), (1., 1., 1.), (2., x, z)), first):
            b, m = load_addon()
            self.add(m, b, p, rec)
            mesh, bad = self.add(m, b, q, rec)
            rec.state()
            if bad or mesh != first[q]:
                return [bad or 'the building with scale %s differs after one with scale %s' % (q, p)]

    def do_register(self, rec):
        for ops in product((0, 1), repeat=4):
            b, m = load_addon()
            on = False
            for i in ops:
                if on == bool(i):
                    break           # Blender refuses that
                (m.register if i else m.unregister)()
                on = bool(i)
                rec.transition()
                rec.state()
                n = (len(b.classes), len(b.menu))
                if on != all(n) or not on and any(n) or not on and b.maps:
                    return ['after %s: %s classes and menu entries' % (ops, n)]
            rec.execution()

    def do_pitch(self, rec, p, n):
        ax, m = load_demo()
        V, infos = [tuple(v) for v in m.VERTS], [(m.FIRST_VERTEX_INDEX, m.NUM_VERTS)]+list(m.HOLES_INFO or ())
        C = [[V[i][:2] for i in range(s, s+k)] for s, k in infos]
        want = {}
        for q in PITCHES+[30.]:
            R = roof.Roof(C, tan=math.tan(math.radians(q)))
            bad = [R.error] if R.error else roof.wellformed(R) or roof.wallcover(R)+roof.tiling(R)+roof.slope(R)
            if bad:
                return ['pitch %g: %s' % (q, bad[0])]
            want[q] = sorted(self.line(R.V[a], R.V[b]) for f in R.faces for a, b in roof.fedges(f))
        for history in product(PITCHES, repeat=n+1):
            ax, m = load_demo()
            m.run_demo()
            if not ax.lines:
                rec.notes.add('the demo does not draw with ax.plot(), it was not checked')
                return
            s = Slider.last
            if s is None or s.fn is None:
                rec.notes.add('the demo has no slider')
                return
            rec.execution()
            done = []
            for q in (getattr(m, 'DEFAULT_PITCH', 30.), p)+history:
                if done:
                    s.fn(q)
                done.append(q)
                rec.state()
                rec.transition()
                got = sorted(self.line(a, b) for a, b in ax.lines)
                if q in want and not self.same(got, want[q]):
                    return ['after the pitches %s the demo does not show the roof with pitch %g' % (done[:-1], q)]

    @staticmethod
    def line(a, b):
        return tuple(sorted([tuple(round(float(x)+0., 3) for x in p) for p in (a, b)]))

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all(math.dist(p[i], q[i]) < .01 for p, q in zip(a, b) for i in (0, 1))

    def replay(self, data):
        t = tuple(data['task'])
        bad, err = roof.outcome(self.task, t, core.Recorder())
        return bad or ([err] if err else [])


CHECK = C20()

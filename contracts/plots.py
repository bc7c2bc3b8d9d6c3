"""V01: plots, judged at the calls of the plotting library"""
import os
import types

import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, VCError, S, SB, Str, SymSeq, SymMap, SymArr, U, raises, same, snapshot, diff, term
from vcg.terms import num
from contracts.files import patched, Os, Files
from contracts.wing import Any
from contracts.cpacs import Np

PLOTS = ('geometry', 'lattice', 'matrix_downwash', 'results')
DRAW2 = ('plot', 'scatter', 'fill', 'quiver', 'matshow', 'plot_surface', 'imshow', 'pcolormesh', 'plot_wireframe', 'plot_trisurf', 'add_collection', 'add_collection3d', 'add_patch', 'add_line', 'pcolor', 'arrow', 'contourf')
QUIET = ('set_', 'get_', 'annotate', 'text', 'legend', 'grid', 'view_init', 'tick_params', 'axis', 'margins', 'autoscale', 'invert_', 'subplots_adjust', 'suptitle', 'tight_layout', 'add_axes', 'gca', 'add_subplot')
EYE = {'x': 0, 'y': 1, 'z': 2}


def equal(p, q):
    """equal polynomials (used to pair drawn points with corners; the pairing is proved afterwards)"""
    return len(p) == len(q) and all(x is y or not tm.nf(tm.sub(term(x), term(y))) for x, y in zip(p, q))


class Axes:
    def __init__(self, scene, fig, three):
        self.scene, self.fig, self.three = scene, fig, three
        self.labels, self.lim, self.aspect = {}, {}, None

    def view(self):
        """coordinates shown along the axes, as labelled"""
        r = ''
        for a in 'xyz' if self.three else 'xy':
            t = str(self.labels.get(a, '')).strip().lower()
            r += t[:1] if t[:1] in EYE and t[:1] else '?'
        return r

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        if nm in ('set_xlabel', 'set_ylabel', 'set_zlabel'):
            return lambda t, *a, **k: self.labels.__setitem__(nm[4], t)
        if nm in ('set_xlim', 'set_ylim', 'set_zlim', 'set_xlim3d', 'set_ylim3d', 'set_zlim3d'):
            return lambda *a, **k: self.lim.__setitem__(nm[4], tuple(a[0]) if len(a) == 1 else tuple(a))
        if nm == 'set_aspect':
            return lambda x, *a, **k: setattr(self, 'aspect', x)
        if nm in DRAW2:
            return lambda *a, **k: self.scene.drawn.append((self, nm, a, k))
        if nm.startswith(QUIET):
            return lambda *a, **k: self.scene.drawn.append((self, 'note', a, k)) if nm in ('text', 'annotate') else None
        raise VCError('call of the plotting library: axes.' + nm)


class Figure:
    def __init__(self, scene):
        self.scene, self.axes, self.open, self.saved = scene, [], True, []
        self.bars = []

    def gca(self, **k):
        if not self.axes:
            return self.add_subplot(**k)
        return self.axes[-1]

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self.scene, self, k.get('projection') == '3d'))
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        r = [self.add_subplot(**(k.get('subplot_kw') or {})) for _ in range(nrows * ncols)]
        return r[0] if len(r) == 1 else np.array(r, dtype=object)

    def savefig(self, fname, *a, **k):
        self.scene.save(self, fname, k)

    def colorbar(self, m, *a, **k):
        self.bars.append(m)
        return types.SimpleNamespace(set_label=lambda *a, **k: None)

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        if nm.startswith(QUIET):
            return lambda *a, **k: None
        raise VCError('call of the plotting library: figure.' + nm)


class Scene:
    """stand-in for matplotlib.pyplot: what is drawn, saved, shown"""

    def __init__(self):
        self.figures, self.drawn, self.shown, self.files = [], [], [], []
        self.order = []

    def figure(self, *a, **k):
        f = Figure(self)
        self.figures.append(f)
        self.order.append(('figure', f))
        return f

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, **k)

    def close(self, which=None):
        for f in self.figures:
            if which in ('all', f) or which is None and f is [g for g in self.figures if g.open][-1:][0]:
                f.open = False

    def save(self, fig, fname, k):
        self.order.append(('save', fig, fname, fig.open))

    def show(self, *a, **k):
        self.order.append(('show', [f for f in self.figures if f.open]))

    def tight_layout(self, *a, **k):
        pass

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise VCError('call of the plotting library: pyplot.' + nm)


class Mask:
    """comparison of two vectors, entry by entry"""

    def __init__(self, ts):
        self.ts = ts

    def __iter__(self):
        return iter([SB(t) for t in self.ts])

    def __getitem__(self, i):
        return SB(self.ts[i])

    def any(self):
        return SB(tm.or_(*self.ts))

    def all(self):
        return SB(tm.and_(*self.ts))

    def __invert__(self):
        return Mask([tm.not_(t) for t in self.ts])

    def __and__(self, o):
        return Mask([tm.and_(a, b) for a, b in zip(self.ts, o.ts)])

    def __or__(self, o):
        return Mask([tm.or_(a, b) for a, b in zip(self.ts, o.ts)])


def choice(m, a, b):
    """entries of a where the mask holds, of b elsewhere"""
    n = len(m.ts)
    a, b = (np.broadcast_to(np.asarray(x, dtype=object), (n,)) for x in (a, b))
    return ps.obj_array([S(tm.ite(t, term(x), term(y))) for t, x, y in zip(m.ts, a, b)]).view(Row)


class Row(np.ndarray):
    """vectors whose comparison is no case distinction"""

    def _cmp(self, o, f):
        if self.ndim != 1:
            raise VCError('comparison of tables')
        return Mask([f(term(x), term(y)) for x, y in zip(np.asarray(self), np.broadcast_to(np.asarray(o, dtype=object), self.shape))])

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: tm.lt(y, x))

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: tm.le(y, x))

    def __getitem__(self, i):
        if type(i) is Mask:
            return self.copy()
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, i, x):
        if type(i) is Mask:
            x = choice(i, x, self)
            i = slice(None)
        np.ndarray.__setitem__(self, i, x)


class Pt(np.ndarray):
    """rows of points; the extreme values are characterised by what they bound"""

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, i)
        return r if isinstance(r, np.ndarray) and r.ndim > 1 else r.view(np.ndarray) if isinstance(r, np.ndarray) else r

    def _ext(self, axis, sign):
        if axis not in (0,) or self.ndim != 2:
            raise VCError('extreme values of points')
        v = ps.vc()
        out = []
        for j in range(self.shape[1]):
            m = v.real('ext')
            for x in np.asarray(self)[:, j]:
                v.assume(m <= x if sign < 0 else m >= x)
            out.append(m)
        return ps.obj_array(out).view(Row)

    def min(self, axis=None, out=None, **k):
        return self._ext(axis, -1)

    def max(self, axis=None, out=None, **k):
        return self._ext(axis, 1)


class Cols:
    """array with one point (and its deformation) per row, number of rows unknown"""
    ndim = 2

    def __init__(self, name, cols, n):
        self.name, self.cols, self.n, self.shape = name, tuple(cols), n, (n, len(cols))

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None):
            if isinstance(i[1], slice):
                return Cols(self.name, self.cols[i[1]], self.n)
            if isinstance(i[1], (list, tuple)):
                return Cols(self.name, [self.cols[j] for j in i[1]], self.n)
            return Column(self.name, self.cols[int(i[1])])
        raise VCError('points of a deformation field')

    @property
    def T(self):
        return [Column(self.name, j) for j in self.cols]

    def copy(self):
        return self


class Column:
    ndim = 1

    def __init__(self, name, j, sign=1):
        self.name, self.j, self.sign = name, j, sign

    def __neg__(self):
        return Column(self.name, self.j, -self.sign)

    def key(self):
        return self.name, self.j, self.sign


class Colour:
    def __init__(self, val):
        self.val = val


def shown_points(call):
    """points of a polyline or polygon of known size: list of tuples"""
    ax, m, a, k = call
    n = 3 if ax.three else 2
    xs = [np.asarray(x, dtype=object).ravel().tolist() for x in a[:n]]
    if len(a) < n or len({len(x) for x in xs}) != 1:
        raise VCError('arguments of axes.' + m)
    return list(zip(*xs))


def proj(p, view):
    return tuple(p[EYE[c]] for c in view)


def reflect(p, sym):
    ax = {1: 2, 2: 1, 3: 0}[sym]
    return [-x if i == ax else x for i, x in enumerate(p)]


class Outline:
    """obligation: polylines through named points: edges that must be drawn and edges that may be drawn (pairs of names)"""

    def __init__(self, v, what, axes):
        self.v, self.what, self.axes = v, what, axes
        self.pts, self.must, self.may = {}, [], []

    def add(self, tag, points, must, may=()):
        for q, p in points.items():
            self.pts[tag + q] = p
        self.must += [(tag + a, tag + b) for a, b in must]
        self.may += [(tag + a, tag + b) for a, b in may]

    def judge(self, calls):
        v = self.v
        for ax in self.axes:
            view = ax.view()
            at = {q: proj(p, view) for q, p in self.pts.items()}
            edges = []
            for c in calls:
                if c[0] is not ax:
                    continue
                if c[1] not in ('plot', 'fill'):
                    v.check('%s: only outlines are drawn' % self.what, False)
                    continue
                seq = [self.find(p, at) for p in shown_points(c)]
                if c[1] == 'fill':
                    seq.append(seq[0])
                for x in seq:
                    v.check('%s: the line runs through the given corners' % self.what, bool(x))
                edges += [(x, y) for x, y in zip(seq, seq[1:])]
            ok = lambda e, x, y: e[0] in x and e[1] in y or e[1] in x and e[0] in y
            for x, y in edges:
                v.check('%s: no other line is drawn' % self.what, any(ok(e, x, y) for e in self.must + self.may))
            for e in self.must:
                v.check('%s: every edge is drawn in the %s view' % (self.what, view), any(ok(e, x, y) for x, y in edges))

    def find(self, p, at):
        v = self.v
        hit = {q for q, t in at.items() if equal(p, t)}
        for q in sorted(hit)[:1]:
            v.check('%s: position' % self.what, same(list(p), list(at[q])))
        return hit


class Ghost:
    """everything the plots are made of"""

    def __init__(self, v, known, ac, make):
        self.v, self.known, self.ac, self.make = v, known, ac, make
        self.scene = Scene()
        self.loops = {}
        self.aircraft = a = types.SimpleNamespace()
        a.uid = 'plane'
        a.size = v.real('size')
        v.assume(a.size > 0)
        a.refs = {'gcenter': ps.obj_array([v.real('cg%d' % i) for i in range(3)])}
        a.has_deformed_wings = v.choose(False, True)
        self.nw = v.int('wings', 1)
        a.wings = SymMap('wings', self.nw, lambda k: v.str('uid'), self.wing, spec=self.spec('deformation points', self.j_wing), canon='values')
        self.np_ = v.int('panels', 1)
        p, pan = {}, self.panel

        def arr(name, f):
            return SymSeq(name, self.np_, f, self.spec('panels', self.j_panel))
        self.lattice = types.SimpleNamespace(p=arr('p', pan), c=arr('c', lambda k: self.pvec('c', k)), v=arr('v', lambda k: self.quad('v', k)), n=arr('n', lambda k: self.pvec('n', k)))
        self.state = types.SimpleNamespace(aero={'airspeed': v.real('airspeed')})
        self.V = self.state.free_stream_velocity_vector = ps.obj_array([v.real('V%d' % i) for i in range(3)])
        V = self.V
        v.assume(V[0] * V[0] + V[1] * V[1] + V[2] * V[2] > 0)
        self.lo, self.hi = v.real('lo'), v.real('hi')
        v.assume(self.lo <= self.hi)
        g = self

        class Data(SymArr):
            def max(self, axis=None, out=None, **k):
                return g.hi

            def min(self, axis=None, out=None, **k):
                return g.lo

            def ptp(self, axis=None, out=None, **k):
                return g.hi - g.lo
        self.Data = Data
        self.asked = []

        class Panelwise(dict):
            def __getitem__(s, key):
                g.asked.append(key)
                return Data(g.np_, lambda k: g.value(k))
        self.vlmdata = types.SimpleNamespace(panelwise=Panelwise(), matrix_downwash=np.eye(2))
        self.values = {}

    # -------------------------------------------------------- model
    def pvec(self, nm, k):
        return ps.obj_array([U('%s%d' % (nm, i), k) for i in range(3)])

    def quad(self, nm, k):
        return np.array([[U('%s%d%d' % (nm, q, i), k) for i in range(3)] for q in range(4)], dtype=object)

    def panel(self, k):
        return self.quad('p', k)

    def value(self, k):
        x = U('data', k)
        self.v.assume(self.lo <= x, invariant=True)
        self.v.assume(x <= self.hi, invariant=True)
        return x

    def wing(self, k):
        v = self.v
        w = types.SimpleNamespace()
        w.is_deformed = v.choose(False, True) if self.aircraft.has_deformed_wings else False
        w.def_field = w.def_field_mirror = None
        if w.is_deformed:
            if v.choose(True, False):
                w.def_field = Cols('field', range(6), v.int('rows', 1))
            if v.choose(True, False):
                w.def_field_mirror = Cols('mirrored field', range(6), v.int('rows', 1))
        return w

    def corners(self):
        return {q: self.v.vec('vert_' + q) for q in 'abcd'}

    def segments(self, a):
        v = self.v
        v.check('segments of this aircraft', a is self.aircraft)

        def elem(k):
            s = types.SimpleNamespace(vertices=self.corners(), uid=v.str('uid'))
            w = types.SimpleNamespace(symmetry=v.choose(0, 1, 2, 3), uid=v.str('uid'))
            s.parent_wing = w
            s.symmetry = w.symmetry
            return (k, s.uid, s), (k, w.uid, w)
        return SymSeq('segments', self.ns, elem, self.spec('segments', self.j_segment))

    def controls(self, a):
        v = self.v
        v.check('controls of this aircraft', a is self.aircraft)

        def elem(k):
            w = types.SimpleNamespace(symmetry=v.choose(0, 1, 2, 3), uid=v.str('uid'))
            one = v.choose(True, False)
            w.segments = {'in': types.SimpleNamespace(vertices=self.corners())}
            if not one:
                w.segments['out'] = types.SimpleNamespace(vertices=self.corners())
            c = object.__new__(self.ac.WingControl)
            c.__dict__.update(parent_wing=w, _device_type=v.choose('flap', 'slat'), _uid='c', segment_uid={'inner': 'in', 'outer': 'in' if one else 'out'},
                              rel_vertices={q: v.real(q) for q in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')}, rel_hinge_vertices={q: v.real('h' + q) for q in ('xsi_inner', 'xsi_outer')},
                              deflection=v.real('deflection'), deflection_mirror=v.real('deflection'))
            return (k, 'c', c), (k, w.uid, w)
        return SymSeq('controls', self.nc, elem, self.spec('controls', self.j_control))

    def ot(self):
        g = self
        return types.SimpleNamespace(all_segments=g.segments, all_controls=g.controls, count_all_wings=lambda a: g.nw, count_all_segments=lambda a: g.ns, count_all_controls=lambda a: g.nc)

    # -------------------------------------------------------- loops
    def spec(self, what, judge):
        g = self
        v = self.v
        i = self.loops[what] = self.loops.get(what, 0)

        class Sp(Any):
            def init(s, k, loc):
                s.no = (what, g.plot, g.loops[what])
                g.loops[what] += 1
                s.inner = len(g.done)

            def begin(s, k, elem, loc):
                s.mark, s.asked = len(g.scene.drawn), len(g.asked)
                s.order = len(g.scene.order)
                s.figs = [f for f in g.scene.figures if f.open]

            def body(s, k, elem, loc, ch):
                new = [c for c in g.scene.drawn[s.mark:]]
                if any(c[1] != 'note' for c in new):
                    g.known.setdefault('drawing', set()).add(s.no)
                if g.known.get('ready'):
                    if s.no in g.known.get('drawing', ()):
                        judge(k, elem, [c for c in new if c[1] != 'note'], s)
                    else:
                        v.check('%s: nothing is drawn' % what, not new)
                    v.check('%s: nothing is saved or shown on the way' % what, what == 'keys' or len(g.scene.order) == s.order)

            def allows(s, change):
                return g.mine(change[1])

            def exit(s, n, loc):
                if s.no in g.known.get('drawing', ()):
                    g.done.append((what, [f for f in g.scene.figures if f.open]))
        return Sp()

    def mine(self, x):
        """records of the stand-ins, no objects of the program"""
        sc = self.scene
        return type(x) in (Axes, Figure, Scene) or any(x is y for y in (sc.drawn, sc.order, sc.figures, sc.shown, sc.files, self.done, self.asked)) or any(x is f.axes or x is f.bars or x is f.saved for f in sc.figures) \
            or any(x is a.labels or x is a.lim for f in sc.figures for a in f.axes)

    def views(self, s=None):
        """axes of the figures that are open"""
        return [a for f in self.scene.figures if f.open for a in f.axes]

    def j_segment(self, k, elem, calls, s):
        (_, _, seg), (_, _, w) = elem
        self.sym_outline('segment', {q: seg.vertices[q] for q in 'abcd'}, ('ab', 'bc', 'cd', 'da'), (), w.symmetry, calls)

    def sym_outline(self, what, pts, must, may, sym, calls, more=()):
        o = Outline(self.v, what, self.views())
        for m in ([0, 1] if sym else [0]):
            f = (lambda p: reflect(p, sym)) if m else list
            o.add('m' if m else '', {q: f(p) for q, p in pts.items()}, must, may)
        o.judge(calls)

    def j_control(self, k, elem, calls, s):
        (_, _, c), (_, _, w) = elem
        v = self.v
        ins, out = w.segments[c.segment_uid['inner']].vertices, w.segments[c.segment_uid['outer']].vertices
        r, h = c.rel_vertices, c.rel_hinge_vertices

        def at(q, eta, xsi):
            return [(1 - eta) * ((1 - xsi) * q['a'][i] + xsi * q['d'][i]) + eta * ((1 - xsi) * q['b'][i] + xsi * q['c'][i]) for i in range(3)]
        flap = c._device_type == 'flap'
        xi, xo = r['xsi_inner'], r['xsi_outer']
        pts = {'a': at(ins, r['eta_inner'], xi if flap else 0), 'b': at(out, r['eta_outer'], xo if flap else 0), 'c': at(out, r['eta_outer'], 1 if flap else xo), 'd': at(ins, r['eta_inner'], 1 if flap else xi),
               'p': at(ins, r['eta_inner'], h['xsi_inner']), 'q': at(out, r['eta_outer'], h['xsi_outer'])}
        self.sym_outline('control', pts, (('da', 'ab', 'bc') if flap else ('bc', 'cd', 'da')) + ('pq',), ('cd', 'ab'), w.symmetry, calls)

    def j_panel(self, k, elem, calls, s):
        if self.plot == 'lattice':
            o = Outline(self.v, 'panel', self.views())
            p = self.panel(k)
            o.add('', {q: list(p[i]) for i, q in enumerate('abcd')}, ('ab', 'bc', 'cd', 'da'))
            o.judge(calls)
        else:
            self.coloured(k, calls)

    def coloured(self, k, calls):
        v = self.v
        p, x = self.panel(k), U('data', k)
        for ax in self.views():
            view = ax.view()
            mine = [c for c in calls if c[0] is ax]
            v.check('panel is shown in the %s view' % view, bool(mine))
            for c in mine:
                v.check('panel is shown as an area', c[1] in ('plot_surface', 'fill'))
                col = c[3].get('color', c[3].get('facecolor'))
                v.check('panel is coloured by its value', isinstance(col, Colour))
                if not isinstance(col, Colour):
                    continue
                for other in ('color', 'facecolor'):
                    if other in c[3]:
                        v.check('one colour per panel', c[3][other] is col)
                val = col.val
                v.check('colour of the value relative to the range of all panels', SB(tm.implies(tm.lt(self.lo.t, self.hi.t), tm.eq(tm.mul(term(val), tm.sub(self.hi.t, self.lo.t)), tm.sub(x.t, self.lo.t)))))
                v.check('colour of equal values is one of the scale', SB(tm.and_(tm.le(tm.ZERO, term(val)), tm.le(term(val), tm.ONE))))
                pt = list(c[2][:3 if ax.three else 2])
                if not all(type(y) is S for y in pt):
                    raise VCError('points of the area')
                r, t = self.grid
                want = []
                for a, b in ((r, t), (t, r)):
                    for a1 in (a, 1 - a):
                        for b1 in (b, 1 - b):
                            want.append(proj([(1 - a1) * (1 - b1) * p[0][i] + a1 * (1 - b1) * p[1][i] + a1 * b1 * p[2][i] + (1 - a1) * b1 * p[3][i] for i in range(3)], view))
                hit = [w for w in want if equal(pt, w)]
                v.check('the area shown is the one spanned by the corners of the panel', bool(hit))
                if hit:
                    v.check('points of the area', same(pt, list(hit[0])))

    def j_wing(self, k, elem, calls, s):
        v = self.v
        w = elem
        fields = {x.name for x in (w.def_field, w.def_field_mirror) if x is not None} if w.is_deformed else set()
        for ax in self.views():
            view = ax.view()
            want = {tuple((f, EYE[c], 1) for c in view) for f in fields}
            got = set()
            for c in calls:
                if c[0] is ax:
                    v.check('deformation points are drawn as lines or markers', c[1] in ('plot', 'scatter'))
                    xs = c[2][:len(view)]
                    if not all(type(x) is Column for x in xs):
                        raise VCError('points of a deformation field')
                    got.add(tuple(x.key() for x in xs))
            v.check('points of every deformation field in the %s view' % view, want <= got)
            v.check('no other deformation points in the %s view' % view, got <= want)

    # -------------------------------------------------------- numpy
    def linspace(self, a, b, *n, **k):
        n = n[0] if n else k.get('num', 50)
        v = self.v
        v.check('grid from edge to edge', T_eq(a, 0) and T_eq(b, 1))
        v.check('grid with both edges', SB(tm.le(num(2), term(n))))
        return types.SimpleNamespace(grid=True)

    def meshgrid(self, *a, **k):
        if len(a) != 2 or not all(getattr(x, 'grid', False) for x in a):
            raise VCError('meshgrid')
        v = self.v
        self.grid = v.real('r'), v.real('s')
        for x in self.grid:
            v.assume(x >= 0)
            v.assume(x <= 1)
        return list(self.grid)

    def fill(self, c, name):
        def f(x, *a, **k):
            if name.endswith('_like'):
                x = x.shape if isinstance(x, SymArr) else np.shape(x)
            n = x[0] if isinstance(x, tuple) else x
            if type(n) is S:
                return SymArr(n, lambda i: S(num(c)))
            return getattr(ps.npx(), name[:-5] if name.endswith('_like') else name)(x)
        return f

    def array(self, x, *a, **k):
        r = ps.npx().array(x, *a, **k)
        if isinstance(r, np.ndarray) and r.ndim == 2 and r.dtype == object and r.shape[1] == 3:
            return r.view(Pt)
        return r


def T_eq(a, b):
    return bool(a == b) if not type(a) is S else False


def ghosts(g, pt, mp, dw):
    """the plotting modules with stand-ins for the libraries"""
    def unit(x):
        v = g.v
        ln = v.real('length')
        v.assume(ln > 0)
        return np.array([y / ln for y in x], dtype=object)
    now = types.SimpleNamespace(now=lambda *a: types.SimpleNamespace(strftime=lambda f: '2020-01-01_00-00-00-000000'))
    cmap = lambda val: Colour(val)
    npg = Np(ps.npx(), linspace=g.linspace, meshgrid=g.meshgrid, array=g.array, **{q: g.fill(int('ones' in q), q) for q in ('zeros', 'ones', 'zeros_like', 'ones_like')})
    cm = types.SimpleNamespace(ScalarMappable=lambda *a, **k: types.SimpleNamespace(cmap=k.get('cmap'), set_array=lambda d: g.asked.append('bar')), get_cmap=lambda *a: cmap)
    if pt.C.COLORMAP is not cmap:
        pt.C.COLORMAP = staticmethod(cmap)
    os_ = Os(Files())
    m = dict(plt=g.scene, ot=g.ot(), np=npg, cm=cm, datetime=now, os=os_, unit_vector=unit, truncate_filepath=lambda p, *a: str(p),
             max=lambda *a: g.hi if len(a) == 1 and isinstance(a[0], g.Data) else max(*a), min=lambda *a: g.lo if len(a) == 1 and isinstance(a[0], g.Data) else min(*a))
    return [patched(pt, **m), patched(dw, plt=g.scene)]


class Within:
    def __init__(self, cs):
        self.cs = cs

    def __enter__(self):
        for c in self.cs:
            c.__enter__()

    def __exit__(self, *a):
        for c in reversed(self.cs):
            c.__exit__(*a)


DIR = '/plots/state_007'


def settings_for(v, which, save, show, opt):
    d = {p: {'save': save if p == which else False, 'show': show if p == which else False, 'opt': opt.get(p, [])} for p in PLOTS}
    s = types.SimpleNamespace(settings={'plot': d, 'save_results': {}})
    s.paths = lambda name, *a, **k: DIR if name == 'd_plots' else '/elsewhere'
    return s


def g_plots():
    ac = ps.load('objects.aircraft')
    pt, mp, dw = ps.load('plot.plottools', 'plot.makeplots', 'plot.downwash')
    V = VC('plots', ['make_all', 'plot_geometry_aircraft', 'plot_lattice_aircraft', 'plot_results_aircraft', 'plot2d3d', '_init_plot3d', '_init_plot2d', 'add_CG', 'add_wings', 'add_controls', 'add_lattice', 'add_deformation_field_points',
                     'add_freestream_vector', 'add_results', 'interpolate_quad', '_plot_XYZ_points', 'show_and_save', 'view_downwash', 'WingControl.abs_vertices', 'WingControl.abs_hinge_vertices', 'get_abs_segment_point_coords'])
    known = {}

    def go():
        v = ps.vc()
        plot = v.choose(*PLOTS)
        save, show = v.choose((True, False), (False, True), (True, True))
        g = Ghost.__new__(Ghost)
        g.plot, g.done = plot, []
        g.ns, g.nc = v.int('segments', 1), v.int('controls', 0)
        Ghost.__init__(g, v, known, ac, None)
        withdef = plot == 'lattice' and v.choose(True, False)
        nk = v.int('keys', 0)
        kspec = g.spec('keys', None)

        class Key(Any):
            pass
        keysp = Key()
        per = []

        def kbegin(k, elem, loc):
            keysp.fig, keysp.ord, keysp.dr, keysp.asked = len(g.scene.figures), len(g.scene.order), len(g.scene.drawn), len(g.asked)
            keysp.done = len(g.done)

        def kbody(k, elem, loc, ch):
            if known.get('ready'):
                v.check('result plot: of the chosen quantity', all(x == 'bar' or x is elem for x in g.asked[keysp.asked:]) and any(x is elem for x in g.asked[keysp.asked:]))
                finish(keysp.fig, keysp.ord, keysp.dr, keysp.done, elem)
        keysp.begin, keysp.body = kbegin, kbody
        keysp.allows = lambda change: g.mine(change[1])
        keysp.exit = lambda n, loc: g.done.append(('keys', []))
        opt = {'lattice': ['deformation'] if withdef else [], 'results': SymSeq('keys', nk, lambda k: v.str('key'), keysp)}
        st = settings_for(v, plot, save, show, opt)
        snap = snapshot({'settings': st.settings, 'state': g.state, 'refs': g.aircraft.refs, 'aircraft': g.aircraft, 'lattice': g.lattice}, )

        def finish(fig0, ord0, dr0, done0, key):
            """obligations at the end of one plot"""
            figs = g.scene.figures[fig0:]
            order = g.scene.order[ord0:]
            calls = [c for c in g.scene.drawn[dr0:] if c[1] != 'note']
            done = g.done[done0:]
            v.check('figures are made', bool(figs))
            v.check('every figure is closed', not any(f.open for f in figs))
            saves = [o for o in order if o[0] == 'save']
            shows = [o for o in order if o[0] == 'show']
            if save:
                v.check('every figure is saved once', [sum(o[1] is f for o in saves) for f in figs] == [1] * len(figs) and len(saves) == len(figs))
                names = [o[2] for o in saves]
                for nme in names:
                    parts = nme.parts if type(nme) is Str else (os.fspath(nme),)
                    first = parts[0]
                    v.check('plots are saved in the folder of the flight condition', isinstance(first, str) and first.startswith(DIR + '/') and '/' not in first[len(DIR) + 1:] and not any(isinstance(q, str) and '/' in q for q in parts[1:]))
                v.check('plots have names of their own', len({str(n.parts) if type(n) is Str else n for n in names}) == len(names))
                v.check('plots are saved while they are open', all(o[3] for o in saves))
            else:
                v.check('nothing is saved unless asked for', not saves)
            if show:
                v.check('plots are shown', bool(shows) and all(any(f in o[1] for o in shows) for f in figs))
            else:
                v.check('nothing is shown unless asked for', not shows)
            axes = [a for f in figs for a in f.axes]
            if plot == 'matrix_downwash':
                v.check('downwash matrix is shown', len(calls) == 1 and calls[0][1] in ('matshow', 'imshow') and calls[0][2][0] is g.vlmdata.matrix_downwash)
                return
            v.check('four views, labelled by the coordinates they show', sorted(a.view() for a in axes) == ['xy', 'xyz', 'xz', 'yz'])
            v.check('flat views have one scale', all(a.aspect in ('equal', 1) for a in axes if not a.three))
            loops = [d[0] for d in done]
            want = {'geometry': {'segments', 'controls'}, 'lattice': {'panels'}, 'results': {'panels'}}[plot]
            if plot == 'lattice' and not g.aircraft.has_deformed_wings:
                want = want | {'controls'}
            if withdef:
                want = want | {'deformation points'}
            v.check('plot shows what it is about', set(loops) == want)
            v.check('plot shows everything once', len(loops) == len(set(loops)))
            cg = [c for c in calls if c[1] == 'scatter']
            arrows = [c for c in calls if c[1] == 'quiver']
            v.check('nothing else is drawn', len(cg) + len(arrows) == len(calls))
            if plot != 'results':
                for a in axes:
                    m = [c for c in cg if c[0] is a]
                    v.check('centre of gravity is marked in every view', bool(m))
                    for c in m:
                        v.check('position of the centre of gravity', same([x for x in c[2][:len(a.view())]], list(proj(g.aircraft.refs['gcenter'], a.view()))))
                v.check('no arrows', not arrows)
            else:
                three = [c for c in arrows if c[0].three]
                v.check('free stream is shown', bool(three))
                for c in three:
                    q = c[2][3:6]
                    if len(q) != 3:
                        raise VCError('arguments of axes.quiver')
                    W = g.V
                    for i in range(3):
                        j, l = (i + 1) % 3, (i + 2) % 3
                        v.check('arrow is parallel to the free stream', SB(tm.eq(term(q[j] * W[l]), term(q[l] * W[j]))))
                    v.check('arrow points along the free stream', SB(tm.lt(tm.ZERO, term(q[0] * W[0] + q[1] * W[1] + q[2] * W[2]))))
        with Within(ghosts(g, pt, mp, dw) + ([patched(pt, _get_limits=lambda *a, **k: None)] if hasattr(pt, '_get_limits') else [])):
            r, e = raises(mp.make_all, st, g.aircraft, g.state, g.vlmdata, g.lattice)
        v.check('no error of its own (%s)' % (repr(e) if e else ''), e is None) if e is not None else None
        if e is not None or not known.get('ready'):
            return
        bad = diff(snap)
        v.check('plotting changes nothing' + (' (%s)' % ', '.join(sorted(c[0] for c in bad)) if bad else ''), not bad)
        if plot == 'results':
            v.check('one result plot per chosen quantity', [d[0] for d in g.done] == ['keys'])
            v.check('no further figures', not g.scene.figures and not g.scene.order)
        else:
            finish(0, 0, 0, 0, None)

    VC('plots', ()).run('which loops draw', go)
    known['ready'] = True
    V.run('plots', go)
    return V


def boxes(loc):
    """bounding boxes among the locals: rows of smallest and of largest coordinates"""
    out = []
    for x in loc.values():
        if isinstance(x, np.ndarray) and x.dtype == object and x.shape == (2, 3) and not any(x is y for y in out):
            out.append(x)
    return out


def g_limits():
    """every view contains every segment and its reflection"""
    ac = ps.load('objects.aircraft')
    pt, mp, dw = ps.load('plot.plottools', 'plot.makeplots', 'plot.downwash')
    V = VC('limits of the views', ['_scale_plots', '_get_limits', '_scale_fig'])

    def go():
        v = ps.vc()
        g = Ghost.__new__(Ghost)
        g.plot, g.done = 'geometry', []
        g.ns, g.nc = v.int('segments', 1), v.int('controls', 0)
        g.wings = g.nw = v.int('wings', 1)
        g.scene, g.loops, g.known, g.v = Scene(), {}, {}, v
        g.aircraft = types.SimpleNamespace(uid='plane', size=v.real('size'), refs={})
        sym = [None]
        verts = g.corners()
        sym = v.choose(0, 1, 2, 3)
        c = types.SimpleNamespace(boxes=0)
        pts = [verts[q] for q in 'abcd']
        if sym:
            pts = pts + [reflect(p, sym) for p in pts]

        def inside(lo, hi, p):
            return [tm.and_(tm.le(term(lo[i]), term(p[i])), tm.le(term(p[i]), term(hi[i]))) for i in range(3)]

        class Sp(Any):
            def init(s, k, loc):
                for x in boxes(loc):
                    for i in range(3):
                        v.check('initial box', SB(tm.le(term(x[0][i]), term(x[1][i]))))

            def fresh(s, loc):
                r = boxes(loc)
                for x in r:
                    for i in range(3):
                        x[0, i], x[1, i] = v.real('lo%d' % i), v.real('hi%d' % i)
                        v.assume(x[0, i] <= x[1, i])
                return r

            def state(s, k, loc):
                s.box = s.fresh(loc)
                return {}

            def begin(s, k, elem, loc):
                s.old = [x.copy() for x in s.box]

            def allows(s, change):
                return any(change[1] is x for x in s.box) or any(getattr(change[1], 'base', None) is x for x in s.box)

            def body(s, k, elem, loc, ch):
                if not s.box:
                    return
                for x, o in zip(s.box, s.old):
                    v.check('box: what is inside stays inside', SB(tm.and_(*[t for i in range(3) for t in (tm.le(term(x[0, i]), term(o[0, i])), tm.le(term(o[1, i]), term(x[1, i])))])))
                    v.check('box: smallest coordinates not above the largest', SB(tm.and_(*[tm.le(term(x[0, i]), term(x[1, i])) for i in range(3)])))
                for what, ps_ in (('segment', pts[:4]), ('reflection of the segment', pts[4:])):
                    if ps_:
                        v.check('box: contains the ' + what, SB(tm.and_(*[t for p in ps_ for t in inside(s.box[0][0], s.box[0][1], p)])))

            def exit(s, n, loc):
                for x in s.box[:1]:
                    c.boxes += 1
                    for p in pts:
                        for t in inside(x[0], x[1], p):
                            v.assume(SB(t))

        def segments(a):
            v.check('segments of this aircraft', a is g.aircraft)

            def elem(k):
                w = types.SimpleNamespace(symmetry=sym, uid='w')
                s = types.SimpleNamespace(vertices=verts, uid='s', parent_wing=w, symmetry=sym)
                return (k, 's', s), (k, 'w', w)
            return SymSeq('segments', g.ns, elem, Sp())
        g.np_ = v.int('panels', 1)
        g.Data = type('Data', (), {})
        g.asked = []
        g.segments = segments
        st = settings_for(v, 'geometry', True, False, {})
        noop = {q: (lambda *a, **k: None) for q in ('add_wings', 'add_controls', 'add_CG') if hasattr(pt, q)}
        gs = ghosts(g, pt, mp, dw)
        np_ = gs[0].new['np']
        np_.zeros = lambda *a, **k: ps.npx().zeros(*a, **k).view(Row)
        np_.minimum = lambda a, b: choice(Row._cmp(np.asarray(a, dtype=object).view(Row), b, tm.lt), a, b)
        np_.maximum = lambda a, b: choice(Row._cmp(np.asarray(a, dtype=object).view(Row), b, tm.lt), b, a)
        np_.where = lambda m, a, b: choice(m, a, b)
        with Within(gs + [patched(pt, **noop)]):
            r, e = raises(mp.make_all, st, g.aircraft, None, None, None)
        v.check('no error of its own (%s)' % repr(e), e is None) if e is not None else None
        v.check('the views are scaled to the segments', c.boxes == 1)
        for f in g.scene.figures:
            for a in f.axes:
                view = a.view()
                ln = []
                for x, d in zip('xyz', view):
                    lim = a.lim.get(x)
                    v.check('limits of the %s view' % view, lim is not None and len(lim) == 2)
                    if lim is None or len(lim) != 2:
                        continue
                    for what, ps_ in (('segments', pts[:4]), ('reflected segments', pts[4:])):
                        if ps_:
                            v.check('the %s view contains the %s' % (view, what), SB(tm.and_(*[t for p in ps_ for t in (tm.le(term(lim[0]), term(p[EYE[d]])), tm.le(term(p[EYE[d]]), term(lim[1])))])))
                    ln.append(lim[1] - lim[0])
                for y in ln[1:]:
                    v.check('one scale for all directions of the %s view' % view, same(y, ln[0]))
    V.run('limits', go)
    return V


def g_choice():
    """which plots are made, and what they are told"""
    pt, mp, dw = ps.load('plot.plottools', 'plot.makeplots', 'plot.downwash')
    V = VC('choice of plots', ['make_all'])

    def go():
        v = ps.vc()
        args = [object() for _ in range(4)]
        aircraft, state, vlmdata, lattice = args
        made = []
        want = {p: v.choose((False, False), (True, False), (False, True), (True, True)) for p in PLOTS}
        plots = {p: {'save': s, 'show': w, 'opt': ['opt of ' + p]} for p, (s, w) in want.items()}
        st = types.SimpleNamespace(settings={'plot': plots})
        asked = []
        st.paths = lambda name, *a, **k: asked.append(name) or ('dir of ' + name)
        snap = snapshot({'settings': st.settings})

        def rec(p):
            return lambda *a, **k: made.append((p, a, k))
        with Within([patched(mp, plot_geometry_aircraft=rec('geometry'), plot_lattice_aircraft=rec('lattice'), plot_results_aircraft=rec('results')), patched(dw, view_downwash=rec('matrix_downwash'))]):
            r, e = raises(mp.make_all, st, aircraft, state, vlmdata, lattice)
        v.check('no error of its own', e is None)
        for p in PLOTS:
            m = [x for x in made if x[0] == p]
            on = any(want[p])
            v.check('%s: %s' % (p, 'made once if it is to be saved or shown' if on else 'not made unless asked for'), len(m) == (1 if on else 0))
            if not on or len(m) != 1:
                continue
            vals = list(m[0][1]) + list(m[0][2].values())
            ps_ = [x for x in vals if isinstance(x, dict)]
            v.check('%s: told its own settings and the folder' % p, len(ps_) == 1 and {q: ps_[0].get(q) for q in ('save', 'show', 'opt')} == plots[p] | {} and ps_[0].get('plot_dir') == 'dir of d_plots'
                    if len(ps_) == 1 and 'plot_dir' in ps_[0] else False)
            need = {'geometry': [aircraft], 'lattice': [aircraft, lattice], 'results': [aircraft, lattice, state, vlmdata], 'matrix_downwash': [vlmdata]}[p]
            v.check('%s: of this aircraft, lattice, state and solution' % p, all(any(x is y for y in vals) for x in need))
        v.check('settings stay as they are', not diff(snap))
    V.run('choice', go)
    return V

"""contracts of strips and their parts (objects/aircraft.py): spanwise partition, chordwise partition, division"""
from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, SymMap, SymSeq, LoopSpec, U, raises, same, snapshot, diff, term
from contracts.wing import Any
from contracts.geom import mk_wing

ETA = ('eta_a', 'eta_b', 'eta_c', 'eta_d')


def T(*xs):
    """conjunction of conditions (bool / symbolic)"""
    return SB(tm.and_(*[term(x) for x in xs]))


def imp(a, b):
    return SB(tm.implies(term(a), term(b))) if hasattr(tm, 'implies') else SB(tm.or_(tm.not_(term(a)), term(b)))


def ite(c, a, b):
    return S(tm.ite(term(c), term(a), term(b)))


def cov(x):
    """ghost: index of the strip that covers the position x"""
    return U('cov', x, sort='I')


def ea(k):
    return U('ea', k)


def eb(k):
    return U('eb', k)


class Find(LoopSpec):
    """loop over the strips that looks for the one covering position x"""
    accumulate = False

    def __init__(self, x):
        self.x = x

    def state(self, k, loc):
        ps.vc().assume(cov(self.x) >= k)
        return {}

    def init(self, k, loc):
        ps.vc().check('search starts at the first strip', cov(self.x) >= k)

    def body(self, k, elem, loc, changed):
        ps.vc().check('a strip that is passed over does not cover the position', cov(self.x) >= k + 1)


class Strips(SymMap):
    """the strips of a segment: any number N of strips that partition [0, 1) (object invariant), then any that are added.
    Strip objects are created when they are looked at; forms(strip) puts devices on a strip."""

    _memo_fields = ('made', 'xs', 'ks')

    def __init__(self, v, ac, seg, forms=None, spec=None):
        self.v, self.ac, self.seg, self.forms, self.spec = v, ac, seg, forms, spec
        self.name = 'strips'
        self.N = v.int('N', 1)
        self.made = []          # (index term, strip, snapshot)
        self.extra = []
        self.xs, self.ks = [], []
        v.assume(ea(S(tm.ZERO)) == 0)
        self.n_at(S(tm.ZERO))

    # facts of the invariant
    def n_at(self, k):
        """strip k exists: proper, inside, the only one at its inner end"""
        v = self.v
        if any(term(i) is term(k) for i in self.ks):
            return
        self.ks.append(k)
        v.assume(T(ea(k) < eb(k), ea(k) >= 0, eb(k) <= 1))
        self.point(ea(k))
        for x in self.xs:
            v.assume(imp(T(ea(k) <= x, x < eb(k)), cov(x) == k))

    def point(self, x):
        """position x in [0, 1) is covered, by one strip only"""
        v = self.v
        if any(term(y) is term(x) for y in self.xs):
            return
        c = cov(x)
        a = T(x >= 0, x < 1)
        v.assume(imp(a, T(c >= 0, c < self.N, ea(c) <= x, x < eb(c), ea(c) >= 0, eb(c) <= 1)))
        self.xs.append(x)
        for t in self.ks:
            v.assume(imp(T(ea(t) <= x, x < eb(t)), c == t))

    def at(self, k):
        v = self.v
        k = k if type(k) is S else S(tm.num(k))
        for t, st, sn in self.made:
            if term(t) is term(k) or bool(k == t):
                return st
        for i, (t, st) in enumerate(self.extra):
            if term(t) is term(k) or bool(k == t):
                return st
        v.check('index of a strip that exists', T(k >= 0, k < self.N))
        self.n_at(k)
        st = self.ac.SegmentStrip(self.seg, dict(eta_a=ea(k), eta_b=eb(k), eta_c=eb(k), eta_d=ea(k)))
        if self.forms:
            self.forms(st, k)
        self.made.append((k, st, snapshot({'strip': st}, skip=(self.seg,))))
        return st

    @property
    def n(self):
        return self.N + len(self.extra)

    def key(self, k):
        return k

    def value(self, k):
        return self.at(k)

    def update(self, d):
        for k, st in d.items():
            self[k] = st

    def __setitem__(self, k, st):
        k = k if type(k) is S else S(tm.num(k))
        self.v.check('a new strip gets a new number (no strip is replaced)', k == self.n)
        self.extra.append((k, st))

    def __contains__(self, k):
        return bool(T(k >= 0, k < self.n))

    def __vclen__(self):
        return self.n

    def changed(self, but=()):
        return [st for t, st, sn in self.made if st not in but and diff(sn)]


def mk(v, ac, forms=None):
    w, s = mk_wing(v, ac, 0)
    s.subdivision = m = Strips(v, ac, s, forms)
    return w, s, m


def g_find():
    """G02: the strip at a position"""
    ac = ps.load('objects.aircraft')
    V = VC('strip at a position', ['WingSegment._get_subdiv_at_eta', 'WingSegment.__init__', 'SegmentStrip.__init__'])

    def find():
        v = ps.vc()
        w, s, m = mk(v, ac)
        x = v.real('eta')
        v.assume(T(x >= 0, x < 1))
        m.point(x)
        m.spec = Find(x)
        r, e = raises(s._get_subdiv_at_eta, x)
        v.check('a strip is found at every position in [0, 1)', e is None and r is not None)
        if e is not None or r is None:
            return
        idx, st, border = r
        v.check('it is the strip that covers the position', T(idx == cov(x)))
        v.check('the strip object belongs to the index', st is m.at(idx))
        v.check('border flag iff the position is the inner end of the strip', same(border, x == ea(idx)) if isinstance(border, (bool, SB)) else False)
        v.check('no strip is changed', not m.changed())
    V.run('find', find)

    def init():
        v = ps.vc()
        w, s = mk_wing(v, ac, 0)
        v.check('a new segment has one strip with number 0', list(s.subdivision) == [0])
        st = s.subdivision[0]
        v.check('it covers the whole span', st.rel_vertices == dict(eta_a=0.0, eta_b=1.0, eta_c=1.0, eta_d=0.0))
        v.check('it has the main part only, from leading to trailing edge', list(st.subarea) == ['segment'] and st.subarea['segment'].rel_vertices == dict(xsi_a=0.0, xsi_b=0.0, xsi_c=1.0, xsi_d=1.0))
        v.check('the strip belongs to its segment', st.parent_segment is s and st.parent_wing is w and st.subarea['segment'].parent_subdivision is st and st.subarea['segment'].parent_segment is s)
        x = v.real('x')
        v.assume(T(x >= 0, x < 1))
        v.check('every position in [0, 1) is covered', T(x >= 0.0, x < 1.0))
        e = {k: v.real(k) for k in ETA}
        st = ac.SegmentStrip(s, e)
        v.check('a strip keeps the positions given', same(st.rel_vertices, e) and st.rel_vertices is not e)
    V.run('initial strips', init)
    return V


# ---------------------------------------------------------------- parts of a strip
class Ctrl:
    def __init__(self, name, typ):
        self.name, self.device_type = name, typ
        self.uid = name


def put(v, ac, st, typ, ctrl, pre=''):
    """a device on a strip as _add_subarea leaves it: its specified state"""
    x1, x2, h1, h2 = (v.real(pre + typ + n) for n in ('_xsi1', '_xsi2', '_h1', '_h2'))
    d = dict(xsi_a=0.0, xsi_b=0.0, xsi_c=x1, xsi_d=x2) if typ == 'slat' else dict(xsi_a=x1, xsi_b=x2, xsi_c=1.0, xsi_d=1.0)
    p = ac.StripSubdivision(st, d, typ)
    p._add_hinge_line(h1, h2)
    p._add_parent_control(ctrl)
    st.subarea[typ] = p
    m = st.subarea['segment'].rel_vertices
    if typ == 'slat':
        m['xsi_a'], m['xsi_b'] = x1, x2
    else:
        m['xsi_d'], m['xsi_c'] = x1, x2
    v.assume(T(x1 > 0, x1 < 1, x2 > 0, x2 < 1, h1 >= 0, h1 <= 1, h2 >= 0, h2 <= 1))
    return x1, x2, h1, h2


def forms(v, ac, st, form, ctrls=None, pre=''):
    """strip with devices form in none, slat, flap, slat+flap, flap+slat -> {type: (x1, x2, h1, h2)}"""
    d = {}
    for typ in form.split('+'):
        if typ == 'none':
            continue
        d[typ] = put(v, ac, st, typ, (ctrls or {}).get(typ) or Ctrl('c_' + typ, typ), pre)
    if len(d) == 2:
        lim = ac.MIN_XSI_LIMIT
        v.assume(T(d['slat'][0] + lim <= d['flap'][0], d['slat'][1] + lim <= d['flap'][1]))
    return d


FORMS = ('none', 'slat', 'flap', 'slat+flap', 'flap+slat')


def edges(st):
    """[(inner edge, outer edge)] of the parts from leading to trailing edge"""
    return [(t, st.subarea[t]) for t in ('slat', 'segment', 'flap') if t in st.subarea]


def partition(v, what, st):
    """obligations: the parts of the strip cover the chord at both side edges without gap or overlap"""
    ps_ = edges(st)
    v.check('%s: only slat, main part and flap' % what, set(st.subarea) <= {'slat', 'segment', 'flap'} and 'segment' in st.subarea and all(st.subarea[t].type == t for t in st.subarea))
    for side, (le, te) in (('inner', ('xsi_a', 'xsi_d')), ('outer', ('xsi_b', 'xsi_c'))):
        v.check('%s: starts at the leading edge (%s edge)' % (what, side), same(ps_[0][1].rel_vertices[le], 0.0))
        v.check('%s: ends at the trailing edge (%s edge)' % (what, side), same(ps_[-1][1].rel_vertices[te], 1.0))
        for (t1, p1), (t2, p2) in zip(ps_, ps_[1:]):
            v.check('%s: %s and %s meet (%s edge)' % (what, t1, t2, side), same(p1.rel_vertices[te], p2.rel_vertices[le]))
        for t, p in ps_:
            v.check('%s: %s has positive chord (%s edge)' % (what, t, side), p.rel_vertices[le] < p.rel_vertices[te])


def g_parts():
    """G03: devices on a strip"""
    ac = ps.load('objects.aircraft')
    V = VC('parts of a strip', ['SegmentStrip._add_subarea', 'StripSubdivision.__init__', 'StripSubdivision._add_hinge_line', 'StripSubdivision._add_parent_control'])
    lim = ac.MIN_XSI_LIMIT

    def add():
        v = ps.vc()
        form = v.choose(*FORMS)
        dev = v.choose('slat', 'flap')
        w, s = mk_wing(v, ac, 0)
        st = ac.SegmentStrip(s, {k: v.real(k) for k in ETA})
        d = forms(v, ac, st, form)
        old = dict(st.subarea)
        c = Ctrl('c', dev)
        x1, x2, h1, h2 = (v.real(n) for n in ('xsi1', 'xsi2', 'h1', 'h2'))
        hinge = v.choose('given', 'none', 'inner')
        a = [c, x1, x2] + ([h1, h2] if hinge == 'given' else [h1] if hinge == 'inner' else [])
        g1 = h1 if hinge != 'none' else x1
        g2 = h2 if hinge == 'given' else x2
        snap = snapshot({'strip': st, 'control': c}, skip=(s,))
        r, e = raises(st._add_subarea, *a)
        good = [x1 > 0, x1 < 1, x2 > 0, x2 < 1, g1 >= 0, g1 <= 1, g2 >= 0, g2 <= 1]
        if dev == 'flap' and 'slat' in d:
            good += [d['slat'][0] + lim <= x1, d['slat'][1] + lim <= x2]
        if dev == 'slat' and 'flap' in d:
            good += [x1 + lim <= d['flap'][0], x2 + lim <= d['flap'][1]]
        tag = '%s on a strip with %s' % (dev, form)
        if e is not None:
            v.check('%s: rejected only if invalid' % tag, True if dev in d else ~T(*good))
            v.check('%s: a rejected device changes nothing' % tag, not diff(snap))
            return
        v.check('%s: an invalid device is rejected' % tag, False if dev in d else T(*good))
        v.check('%s: result is the new part' % tag, r is st.subarea.get(dev) and r not in old.values())
        v.check('%s: other parts are kept' % tag, all(st.subarea.get(t) is p for t, p in old.items()) and set(st.subarea) == set(old) | {dev})
        partition(v, tag, st)
        k = ('xsi_d', 'xsi_c') if dev == 'slat' else ('xsi_a', 'xsi_b')
        v.check('%s: edge at the given position' % tag, same([r.rel_vertices[q] for q in k], [x1, x2]))
        v.check('%s: hinge at the given position (default: edge)' % tag, same([r.rel_hinge_vertices['xsi_h1'], r.rel_hinge_vertices['xsi_h2']], [g1, g2]))
        v.check('%s: belongs to the control, strip, segment and wing' % tag, r.parent_control is c and r.parent_subdivision is st and r.parent_segment is s and r.parent_wing is w)
        for t in d:
            q = ('xsi_d', 'xsi_c') if t == 'slat' else ('xsi_a', 'xsi_b')
            p = st.subarea[t]
            v.check('%s: the other device stays as it is' % tag, T(same([p.rel_vertices[z] for z in q] + [p.rel_hinge_vertices['xsi_h1'], p.rel_hinge_vertices['xsi_h2']], list(d[t]))) if p.parent_control.name == 'c_' + t else False)
        bad = [x[0] for x in diff(snap) if not any(z in x[0] for z in ("subarea", ))]
        v.check('%s: nothing else is changed' % tag, not bad)
    V.run('add', add)

    def kind():
        v = ps.vc()
        w, s = mk_wing(v, ac, 0)
        st = ac.SegmentStrip(s, {k: v.real(k) for k in ETA})
        c = Ctrl('c', v.choose('aileron', None, 'segment', '', 'Flap', 3))
        snap = snapshot({'strip': st}, skip=(s,))
        r, e = raises(st._add_subarea, c, v.real(), v.real())
        v.check('device types other than slat and flap are rejected (%r)' % (c.device_type,), e is not None)
        v.check('a rejected device changes nothing', not diff(snap))
    V.run('device type', kind)
    return V


def g_divide():
    """G02/G03: a strip is divided"""
    ac = ps.load('objects.aircraft')
    V = VC('division', ['WingSegment.add_subdivision', 'SegmentStrip._add_subarea', 'SegmentStrip._update_subarea', 'SegmentStrip.__init__', 'StripSubdivision.__init__'])
    lim = ac.MIN_ETA_LIMIT

    def setup(v, with_devices):
        dev = {}
        ctrls = {}
        form = v.choose(*FORMS) if with_devices else 'none'

        def put_devices(st, k):
            dev[id(st)] = forms(v, ac, st, form if not dev else 'none', None, 's%d_' % len(dev))
        w, s, m = mk(v, ac, put_devices if with_devices else None)

        def get(x):
            v.check('position asked for lies in [0, 1)', T(x >= 0, x < 1))
            m.point(x)
            k = cov(x)
            st = m.at(k)
            return k, st, x == ea(k)
        s._get_subdiv_at_eta = get
        calls = []

        def xsi(*a):
            if v.choose('ok', 'error') == 'error':
                raise RuntimeError('no intersection')
            r = v.real('xsi')
            calls.append((a, r))
            return r
        ac.xsi_interpol = xsi
        return w, s, m, dev, calls, form

    def divide(with_devices):
        v = ps.vc()
        keep = ac.xsi_interpol
        try:
            w, s, m, dev, calls, form = setup(v, with_devices)
            x = v.real('eta')
            m.point(x)
            m.spec = Find(x)
            ignore = v.choose(None, False, True)
            seg = snapshot({k: s.vertices[k] for k in 'abcd'})
            old = {}
            r, e = raises(s.add_subdivision, x, x, *(() if ignore is None else (ignore,)))
        finally:
            ac.xsi_interpol = keep
        v.check('segment geometry is not changed', not diff(seg))
        inside = T(x > 0, x < 1)
        if not m.extra:
            c = cov(x)
            far = T(inside, x - ea(c) >= lim)
            if e is not None:
                v.check('only a request outside (0, 1) is rejected', ~inside)
                v.check('a request outside (0, 1) is rejected unless it is to be ignored', not ignore)
            else:
                v.check('no new line only if outside (0, 1) or within the minimum distance outside of a line', ~far)
                if r is None:
                    v.check('ignored only outside (0, 1) and if so asked', T(~inside) if ignore else False)
                else:
                    v.check('inside (0, 1) the strip at the position is returned', T(inside) if r is m.at(c) else False)
            v.check('no strip is changed', not m.changed())
            return
        # a line was created
        v.check('exactly one new strip', len(m.extra) == 1)
        k, new = m.extra[0]
        c = cov(x)
        prev = m.at(c)
        v.check('a new line only inside (0, 1)', inside)
        v.check('a new line only at the minimum distance or more outside of the existing line', x - ea(c) >= lim)
        v.check('other strips are not changed', not m.changed((prev,)))
        v.check('the strip inside keeps its inner end', same(prev.rel_vertices['eta_a'], ea(c)))
        v.check('the strip inside ends at the position', same(prev.rel_vertices['eta_b'], x))
        v.check('the new strip starts at the position', same(new.rel_vertices['eta_a'], x))
        v.check('the new strip ends where the old strip ended', same(new.rel_vertices['eta_b'], eb(c)))
        for st, t in ((prev, 'strip inside'), (new, 'new strip')):
            v.check('%s: trailing edge divided at the same positions' % t, same([st.rel_vertices['eta_d'], st.rel_vertices['eta_c']], [st.rel_vertices['eta_a'], st.rel_vertices['eta_b']]))
            v.check('%s: positive width' % t, st.rel_vertices['eta_a'] < st.rel_vertices['eta_b'])
            v.check('%s: inside the segment' % t, T(st.rel_vertices['eta_a'] >= 0, st.rel_vertices['eta_b'] <= 1))
        # the invariant holds again: ea', eb' and cov' describe a partition
        N = m.N
        ea_ = lambda i: ite(i == N, new.rel_vertices['eta_a'], ite(i == c, prev.rel_vertices['eta_a'], ea(i)))
        eb_ = lambda i: ite(i == N, new.rel_vertices['eta_b'], ite(i == c, prev.rel_vertices['eta_b'], eb(i)))
        y = v.real('y')
        v.assume(T(y >= 0, y < 1))
        m.point(y)
        cy = ite(T(cov(y) == c, y >= x), N, cov(y))
        v.check('partition: every position is covered', T(ea_(cy) <= y, y < eb_(cy), cy >= 0, cy < N + 1))
        i = v.int('i', 0)
        v.assume(i < N + 1)
        m.v.assume(imp(T(i < N, ea(i) <= y, y < eb(i)), cov(y) == i))
        v.check('partition: no position is covered twice', imp(T(ea_(i) <= y, y < eb_(i)), cy == i))
        v.check('the first strip starts at the inner end', T(ea_(S(tm.ZERO)) == 0))
        if e is not None:
            v.check('division of a strip without devices is not rejected', form != 'none')
            return
        v.check('the new strip is returned', r is new)
        v.check('the new strip belongs to the segment', new.parent_segment is s and new.parent_wing is w)
        if not with_devices:
            partition(v, 'strip inside', prev)
            partition(v, 'new strip', new)
            return
        d = dev.get(id(prev), {})
        tag = 'strip with %s: ' % form
        partition(v, tag + 'strip inside', prev)
        partition(v, tag + 'new strip', new)
        for st in (prev, new):
            v.check(tag + 'the same devices on both strips', set(st.subarea) == {'segment'} | set(d))
        for t in d:
            p, q = prev.subarea.get(t), new.subarea.get(t)
            if p is None or q is None:
                continue
            x1, x2, h1, h2 = d[t]
            i, o = ('xsi_d', 'xsi_c') if t == 'slat' else ('xsi_a', 'xsi_b')
            v.check(tag + '%s: inner edge kept' % t, same([p.rel_vertices[i], p.rel_hinge_vertices['xsi_h1']], [x1, h1]))
            v.check(tag + '%s: outer edge kept' % t, same([q.rel_vertices[o], q.rel_hinge_vertices['xsi_h2']], [x2, h2]))
            v.check(tag + '%s: both parts share the new edge and hinge position' % t, same([p.rel_vertices[o], p.rel_hinge_vertices['xsi_h2']], [q.rel_vertices[i], q.rel_hinge_vertices['xsi_h1']]))
            v.check(tag + '%s: both parts belong to the same control' % t, p.parent_control is q.parent_control and q.parent_control is not None and q.parent_control.name == 'c_' + t)
            for nm, z, (z1, z2) in (('edge', q.rel_vertices[i], (x1, x2)), ('hinge', q.rel_hinge_vertices['xsi_h1'], (h1, h2))):
                hit = [T(same(a[1:], ((ea(c), z1), (eb(c), z2), x))) for a, res in calls if same(res, z) is True and a[0] is s.vertices or type(same(res, z)) is SB and term(same(res, z)) is tm.TRUE and a[0] is s.vertices]
                v.check(tag + '%s: new %s position lies on the old %s line' % (t, nm, nm), SB(tm.or_(*[h.t for h in hit])) if hit else False)
    V.run('division', lambda: divide(False))
    V.run('division with devices', lambda: divide(True))
    return V


# ---------------------------------------------------------------- positions on a segment
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def g_points():
    """G04: relative positions map bilinearly; G03: interpolation along a straight device or hinge line"""
    ac = ps.load('objects.aircraft')
    V = VC('positions on a segment', ['get_abs_segment_point_coords', 'xsi_interpol'])

    def bil(q, e, x):
        return [(1 - e) * (1 - x) * q['a'][i] + e * (1 - x) * q['b'][i] + e * x * q['c'][i] + (1 - e) * x * q['d'][i] for i in range(3)]

    def point():
        v = ps.vc()
        q = {k: v.vec(k) for k in 'abcd'}
        snap = snapshot(q)
        e, x = v.real('eta'), v.real('xsi')
        r = ac.get_abs_segment_point_coords(q, e, x)
        for i, z in enumerate(bil(q, e, x)):
            v.check('bilinear map, component %d' % i, same(r[i], z))
        v.check('vertices not changed', not diff(snap))
        for e, x, k in ((0, 0, 'a'), (1, 0, 'b'), (1, 1, 'c'), (0, 1, 'd')):
            r = ac.get_abs_segment_point_coords(q, e, x)
            v.check('corner %s' % k, same(list(r), list(q[k])))
        v.check('result is a new object', all(r is not q[k] for k in 'abcd'))
    V.run('point', point)

    def interpol():
        v = ps.vc()
        q = {k: v.vec(k) for k in 'abcd'}
        ei, xi, eo, xo, e, s = (v.real(k) for k in ('eta_i', 'xsi_i', 'eta_o', 'xsi_o', 'eta', 's'))
        up, lo = bil(q, e, S(tm.ZERO)), bil(q, e, S(tm.ONE))
        chord = [lo[i] - up[i] for i in range(3)]
        v.assume(T(s >= 0, dot(chord, chord) > 0))
        args = []

        def meet(n, p, d, l):
            args.append((list(n), list(p), list(d), list(l)))
            if v.choose('ok', 'parallel') == 'parallel':
                raise RuntimeError('parallel')
            return ps.obj_array([up[i] + s * chord[i] for i in range(3)])
        keep = ac.get_plane_line_intersect
        ac.get_plane_line_intersect = meet
        snap = snapshot(q)
        try:
            r, err = raises(ac.xsi_interpol, q, (ei, xi), (eo, xo), e)
        finally:
            ac.get_plane_line_intersect = keep
        v.check('vertices not changed', not diff(snap))
        v.check('one intersection is computed', len(args) == 1)
        if len(args) != 1:
            return
        n, p, d, l = args[0]
        pin, pout = bil(q, ei, xi), bil(q, eo, xo)
        ab, ad = [q['b'][i] - q['a'][i] for i in range(3)], [q['d'][i] - q['a'][i] for i in range(3)]
        N = cross(ab, ad)
        v.check('the plane contains the chord line at the position', same(dot(n, chord), 0))
        v.check('the plane is normal to the segment', same(dot(n, N), 0))
        k = cross(n, cross(N, chord))
        for i in range(3):
            v.check('normal of the plane is along segment normal x chord', same(k[i], 0))
        v.assume(dot(cross(N, chord), cross(N, chord)) > 0)
        v.check('the plane is not degenerate', dot(n, n) > 0)
        v.check('the plane goes through the chord line', same([x for x in cross([p[i] - up[i] for i in range(3)], chord)], [0, 0, 0]))
        line = [pout[i] - pin[i] for i in range(3)]
        v.check('the line goes through the inner point', same(cross([l[i] - pin[i] for i in range(3)], line), [0, 0, 0]))
        v.check('the line has the direction from inner to outer point', same(cross(d, line), [0, 0, 0]))
        v.check('the line is not degenerate', imp(dot(line, line) > 0, dot(d, d) > 0))
        if err is not None:
            v.check('error only if there is no intersection', type(err) is RuntimeError and str(err) == 'parallel')
            return
        v.check('result is the relative position of the intersection on the chord (squares)', same(r * r, s * s))
        v.check('result is not negative', r >= 0)
    V.run('interpolation', interpol)

    def lemma():
        """plane convex segment, coordinates along a-b and a-d: c = (lam, mu)"""
        v = ps.vc()
        lam, mu, e, ei, eo, xi, xo, t, s = (v.real(k) for k in ('lam', 'mu', 'e', 'ei', 'eo', 'xi', 'xo', 't', 's'))

        def pt(e, x):
            return [e * (1 - x) + e * x * lam, e * x * mu + (1 - e) * x]
        up, lo = pt(e, 0), pt(e, 1)
        ch = [lo[0] - up[0], lo[1] - up[1]]
        f = lambda p: ch[0] * (p[1] - up[1]) - ch[1] * (p[0] - up[0])
        g = lambda x: 1 + e * (mu - 1) + x * (lam - 1)
        v.check('lemma: side of a point with respect to the chord line', T(same(f(pt(ei, xi)), -(ei - e) * g(xi)), same(f(pt(eo, xo)), -(eo - e) * g(xo))))
        v.assume(T(lam > 0, mu > 0, lam + mu > 1, ei >= 0, eo <= 1, ei <= e, e <= eo, ei < eo, xi >= 0, xi <= 1, xo >= 0, xo <= 1))
        v.check('lemma: positive factor (inner)', g(xi) > 0)
        v.check('lemma: positive factor (outer)', g(xo) > 0)
        v.check('lemma: chord has positive length', ch[1] > 0)
        a, b, h, y0, y1 = (v.real(k) for k in ('a', 'b', 'h', 'y0', 'y1'))
        # a = -f(inner) <= 0 ... : f(inner) = a >= 0, f(outer) = -b <= 0, a + b > 0; point inner + t (inner - outer) on the line: a + t (a + b) = 0
        v.assume(T(a >= 0, b >= 0, a + b > 0, same(a + t * (a + b), 0)))
        v.check('lemma: the intersection is between inner and outer point', T(t <= 0, t >= -1))
        v.assume(T(t <= 0, t >= -1, y0 >= 0, y1 >= 0, h > 0, same(s * h, (1 + t) * y0 - t * y1)))
        v.check('lemma: relative position of the intersection is not negative', s >= 0)
    V.run('lemma', lemma)
    return V

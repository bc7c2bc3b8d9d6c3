"""contracts of the aircraft hierarchy: segment and wing geometry, traversal, automatic panelling"""
from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, Str, Atom, SymSeq, SymMap, LoopSpec, U, raises, same, snapshot, diff, term, quant


class Any(LoopSpec):
    accumulate = False

    def __init__(self, **k):
        self.__dict__.update(k)


def sqrt(x):
    return x.sqrt() if type(x) is S else S(tm.num(x)).sqrt()


def nodes(name, n, mk, spec=None, canon='values'):
    """mapping uid -> object of unknown size; object k is created once per path and index term"""
    made = {}

    def at(k):
        t = term(k)
        if t not in made:
            made[t] = mk(k if type(k) is S else S(t))
        return made[t]
    m = SymMap(name, n, lambda k: Str([Atom('%s_uid[%r]' % (name, term(k)))]), at, spec=spec, canon=canon)
    m.made = made
    m.elem = at
    return m


# ---------------------------------------------------------------- W01
def g_segment():
    ac = ps.load('objects.aircraft')
    V = VC('segment', ['WingSegment.generate', 'WingSegment.check_vertices', 'WingSegment.check_geometry', 'WingSegment.check_airfoils', 'WingSegment.check_panels', 'WingSegment.area'])

    def go():
        v = ps.vc()
        w = ac.Wing('w')
        s = w.add_segment('s')
        calls = []
        s._import_airfoils = lambda: calls.append(1)
        P = {k: [v.real(k + c) for c in 'xyz'] for k in 'abcd'}
        for k in 'abcd':
            s.vertices[k] = list(P[k])
        s.airfoils.update(inner='NACA0012', outer='NACA2412')
        s.panels['num_c'] = v.choose(None, 3)
        s.panels['num_s'] = s.panels['num_c']
        g = v.choose('unset', 'set', 'zero', 'partly')
        keys = [k for k in s.geometry]
        if g != 'unset':
            for k in keys:
                if g == 'partly' and k.startswith('inner'):
                    continue
                x = v.real(k)
                s.geometry[k] = x
                if 'axis' in k:
                    v.assume(SB(tm.and_(tm.le(tm.ZERO, x.t), tm.le(x.t, tm.ONE))))
                elif k not in ('span', 'inner_chord', 'outer_chord'):
                    v.assume(SB(tm.and_(tm.lt(tm.num(-90), x.t), tm.lt(x.t, tm.num(90)))))
                v.assume(x != 0)
            if g == 'zero':
                s.geometry['sweep'] = 0.0
                s.geometry['dihedral'] = 0.0
        panels, foils, sub = dict(s.panels), dict(s.airfoils), {k: dict(x.rel_vertices) for k, x in s.subdivision.items()}
        r, e = raises(s.generate)
        v.check('a segment given by four vertices is accepted (geometry %s)' % g, e is None)
        if e is not None:
            return
        d = {k: s.vertices[k] for k in 'abcd'}
        for k in 'abcd':
            v.check('vertex %s is not altered' % k, same(list(d[k]), P[k]))
        ln = lambda p, q, ix=(0, 1, 2): sqrt(sum(((q[i] - p[i]) * (q[i] - p[i]) for i in ix[1:]), (q[ix[0]] - p[ix[0]]) * (q[ix[0]] - p[ix[0]])))
        ci, co, sp = ln(P['a'], P['d']), ln(P['b'], P['c']), ln(P['a'], P['b'], (1, 2))
        v.check('inner chord is the length of the inner edge', same(s.geometry['inner_chord'], ci))
        v.check('outer chord is the length of the outer edge', same(s.geometry['outer_chord'], co))
        v.check('span is the length of the leading edge normal to x', same(s.geometry['span'], sp))
        v.check('area is span times mean chord', same(s.area, sp * (ci + co) / 2))
        v.check('panel counts and airfoil names are not altered', s.panels == panels and s.airfoils == foils)
        v.check('strips are not altered', {k: dict(x.rel_vertices) for k, x in s.subdivision.items()} == sub)
        v.check('airfoils are imported', calls == [1])
    V.run('generate', go)
    return V


# ---------------------------------------------------------------- W03
GEO = ('inner_chord', 'inner_alpha', 'inner_beta', 'inner_axis', 'outer_chord', 'outer_alpha', 'outer_beta', 'outer_axis', 'span', 'sweep', 'dihedral')
GIVEN = {'a': GEO, 'b': GEO, 'c': GEO, 'd': GEO, 'ad': tuple(k for k in GEO if not k.startswith('inner_')), 'bc': tuple(k for k in GEO if not k.startswith('outer_')), 'abcd': ()}


def _sc(x):
    x = x.deg2rad()
    return S(tm.fn('sin', x.t)), S(tm.fn('cos', x.t))


def _geo_segment(v, points, given, axes=True):
    """segment with the given corner points and geometric properties (the positions of the axes can be left out)"""
    ac = ps.load('objects.aircraft')
    w = ac.Wing('w')
    s = w.add_segment('s')
    calls = []
    s._import_airfoils = lambda: calls.append({k: s.vertices[k] for k in 'abcd'})
    P = {k: [v.real(k + c) for c in 'xyz'] for k in points}
    for x, y in ('ad', 'bc'):
        if x in points and y in points:
            # an edge that points downstream
            v.assume(P[y][0] > 0)
            P[y] = [P[x][i] + P[y][i] for i in range(3)]
    if points == 'abcd':
        for y in 'bc':
            P[y] = [P['a'][i] + P[y][i] for i in range(3)]
    for k in points:
        s.vertices[k] = list(P[k])
    s.airfoils.update(inner='NACA0012', outer='NACA2412')
    G = {}
    for k in given:
        x = G[k] = v.real(k)
        if 'axis' in k:
            v.assume(SB(tm.and_(tm.le(tm.ZERO, x.t), tm.le(x.t, tm.ONE))))
            if not axes:
                G[k] = 0.25
                continue
        elif k in ('span', 'inner_chord', 'outer_chord'):
            v.assume(x != 0)
        else:
            v.assume(SB(tm.and_(tm.lt(tm.num(-90), x.t), tm.lt(x.t, tm.num(90)))))
        s.geometry[k] = x
    for k in ('inner_axis', 'outer_axis'):
        G.setdefault(k, 0.25)
    return s, P, G, calls


def g_geomdef():
    V = VC('segment given by geometric properties', ['WingSegment.generate', 'WingSegment.check_vertices', 'WingSegment.check_geometry'])

    def go():
        v = ps.vc()
        points = v.choose(*GIVEN)
        # properties can be given along with the points that determine them
        given = GEO if len(points) > 1 and v.choose(False, True) else GIVEN[points]
        s, P, G, calls = _geo_segment(v, points, given, v.choose(True, False) if points == 'a' else True)
        neg = {}
        for k in ('span', 'inner_chord', 'outer_chord'):
            if k in GIVEN[points]:
                neg[k] = v.choose(False, True)
                v.assume(G[k] < 0 if neg[k] else G[k] > 0)
        asked = dict(s.geometry)
        r, e = raises(s.generate)
        v.check('points %s and geometric properties are accepted' % points, e is None)
        if e is not None:
            return
        R = {k: s.vertices[k] for k in 'abcd'}
        v.check('all four vertices are points', all(R[k] is not None and len(R[k]) == 3 for k in 'abcd'))
        v.check('vertices are arrays as for segments given by vertices', all(isinstance(R[k], ps.np.ndarray) for k in 'abcd'))
        v.check('airfoils are imported once the vertices are known', len(calls) == 1 and all(calls[0][k] is R[k] for k in 'abcd'))
        for k in GIVEN[points]:
            if asked[k] is not None:
                v.check('%s is not altered' % k, same(s.geometry[k], asked[k]))
        for pre in ('inner_', 'outer_', ''):
            if points == 'abcd' or points in ('ad', 'bc') and pre == {'ad': 'inner_', 'bc': 'outer_'}[points]:
                # what is not given is recorded as it follows from the points
                for k in GEO:
                    if (k.startswith(pre) if pre else '_' not in k) and 'axis' not in k:
                        v.check('%s follows from the points' % k, s.geometry[k] is not None)
                        G[k] = s.geometry[k]
        if any(G[k] is None for k in GEO):
            return
        # negative lengths: the corners change places
        if neg.get('outer_chord'):
            R['b'], R['c'] = R['c'], R['b']
        if neg.get('inner_chord'):
            R['a'], R['d'] = R['d'], R['a']
        if neg.get('span'):
            R['a'], R['b'], R['c'], R['d'] = R['b'], R['a'], R['d'], R['c']
        for k in points:
            v.check('given point %s is a corner of the segment' % k, same(list(R[k]), P[k]))
        for pre, p, q in (('inner', 'a', 'd'), ('outer', 'b', 'c')):
            x, y, z = (R[q][i] - R[p][i] for i in range(3))
            c = G[pre + '_chord']
            (sa, ca), (sb, cb) = _sc(G[pre + '_alpha']), _sc(G[pre + '_beta'])
            v.check('length of the %s edge is the %s chord' % (pre, pre), same(x * x + y * y + z * z, c * c))
            v.check('incidence of the %s edge' % pre, same(z * ca, -x * sa))
            if pre + '_chord' not in GIVEN[points]:
                v.check('yaw of the %s edge' % pre, same(y, sqrt(x * x + y * y) * sb))
                continue
            v.check('yaw of the %s edge' % pre, same(y * cb, x * sb))
            v.check('the %s edge points downstream' % pre, same(x, c / sqrt(1 + (sa / ca) * (sa / ca) * cb * cb) * cb))
        sp = G['span']
        x, y, z = (R['b'][i] - R['a'][i] for i in range(3))
        (ss, cs), (sd, cd) = _sc(G['sweep']), _sc(G['dihedral'])
        v.check('span is the length of the leading edge normal to x', same(y * y + z * z, sp * sp))
        v.check('sweep of the leading edge', same(x * cs, sp * ss))
        ax = [R['b'][i] + G['outer_axis'] * (R['c'][i] - R['b'][i]) - R['a'][i] - G['inner_axis'] * (R['d'][i] - R['a'][i]) for i in range(3)]
        v.check('dihedral of the twist axis', same(ax[2] * cd, ax[1] * sd))
    V.run('vertices', go)

    def complete():
        v = ps.vc()
        points = v.choose(*[''.join(k for i, k in enumerate('abcd') if m >> i & 1) for m in range(16)])
        left = v.choose((), ('inner_chord', 'inner_alpha', 'inner_beta'), ('outer_chord', 'outer_alpha', 'outer_beta'), ('span',), ('sweep',), ('dihedral',), ('inner_beta',), ('outer_alpha',), ('inner_alpha', 'outer_chord'), tuple(k for k in GEO if 'axis' not in k))
        given = [k for k in GEO if k not in left]
        s, P, G, calls = _geo_segment(v, points, given)
        for k in ('span', 'inner_chord', 'outer_chord'):
            if k in given:
                v.assume(G[k] > 0)
        ok = points in GIVEN and all(k in given for k in GIVEN[points])
        r, e = raises(s.generate)
        what = '%s without %s' % (points or 'no point', ', '.join(left) or 'nothing left out')
        if ok:
            v.check('complete definition is accepted: ' + what, e is None)
        else:
            v.check('incomplete or over-determined definition is rejected: ' + what, e is not None)
            v.check('no vertices are made up: ' + what, all(s.vertices[k] is None for k in 'abcd' if k not in points))
    V.run('completeness', complete)
    return V



def seg_obj(k):
    s = type('Segment', (), {})()
    s.geometry = {'span': U('seg_root_span', k) * U('seg_root_span', k)}
    s.area = U('seg_area', k)
    s.position = {'inner': None, 'outer': None, 'panel': None}
    s.vertices = {c: Vtx() for c in 'abcd'}
    s.log = []
    s.generate = lambda: s.log.append('generate')
    s.k = k
    return s


def spans(a, b):
    bv = tm.var('$i', 'I')
    f = U('seg_root_span', S(bv))
    return S(tm.Sum(bv, term(a), term(b), (f * f).t))


class Vtx:
    """corner used by the continuity warning only: numbers without meaning"""

    def __init__(self, z=None):
        self.z = z

    def _op(self, *o):
        return Vtx()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __pos__ = __abs__ = _op
    __array_ufunc__ = None

    def __matmul__(self, o):
        return Norm()
    __rmatmul__ = __matmul__
    dot = __matmul__

    def __getitem__(self, i):
        if isinstance(i, int):
            if i not in (0, 1, 2):
                raise IndexError(i)
            return Norm()
        return Vtx()

    def __len__(self):
        return 3

    def copy(self):
        return Vtx()


class Norm:
    """number without meaning; only its comparisons are told apart"""

    def __bool__(self):
        v = ps.vc()
        if not hasattr(v, 'normflag') or v.normflag[0] is not v.trace:
            v.normflag = (v.trace, v.choose(True, False))
        return v.normflag[1]

    def __lt__(self, o):
        return ps.vc().choose(True, False)
    __le__ = __gt__ = __ge__ = __lt__

    def __eq__(self, o):
        return not self if isinstance(o, (int, float)) and o == 0 else ps.vc().choose(True, False)

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def _op(self, *o):
        return Vtx() if any(type(x) is Vtx for x in o) else Norm()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __pos__ = __abs__ = _op
    __array_ufunc__ = None


def g_wing():
    ac = ps.load('objects.aircraft')
    V = VC('wing', ['Wing.generate', 'Wing.span', 'Wing.area', 'Aircraft.area'])

    flags = set()

    def mk(v, gen=True):
        w = ac.Wing('w')
        n = v.int('n', 1)
        total = spans(0, n)
        v.assume(total > 0)
        which = [0]
        segs = nodes('segments', n, seg_obj)

        class Sp(LoopSpec):
            def begin(self, k, elem, loc):
                self.before = dict(elem.position) if hasattr(elem, 'position') else None
                if hasattr(elem, 'log'):
                    elem.log.clear()
                self.roots = {'wing': {k_: x for k_, x in w.__dict__.items() if k_ != 'segments'}}

            allow = ('.position', '.log', '[\'inner\']', '[\'outer\']', 'position.inner', 'position.outer')

            def body(self, k, elem, loc, ch):
                pos = [c for c in ch if 'position' in c[0]]
                if elem.log:
                    v.check('every segment is generated once', elem.log == ['generate'])
                    flags.add('generated')
                if pos:
                    flags.add('positions')
                    v.check('relative position of the inner end', same(elem.position['inner'], spans(0, k) / total))
                    v.check('relative position of the outer end', same(elem.position['outer'], spans(0, k + 1) / total))
                    v.check('no other position entry', elem.position['panel'] is None and len(elem.position) == 3)
                if gen:
                    v.check('a loop over the segments generates them or sets both positions', bool(elem.log) or (elem.position['inner'] is not None and elem.position['outer'] is not None) or not ch)
        segs.spec = Sp()
        w.segments = segs
        return w, n, segs, total

    def generate():
        v = ps.vc()
        ps.npx().hooks['linalg.norm'] = lambda x: Norm() if isinstance(x, Vtx) else None
        w, n, segs, total = mk(v)
        visits = []
        sp = segs.spec
        old_body = sp.body

        def init(k, loc):
            visits.append('loop')
        sp.init = init

        class Cont(Any):
            roots = {'wing': {k: x for k, x in w.__dict__.items() if k != 'segments'}}
            allow = ()
            accumulate = False
        ps.RANGE_SPECS['range'] = Cont()
        w.generate()
        v.check('two passes over the segments besides the total span', len(visits) >= 2)
        v.check('the wing is marked as generated', w._state is True or w.state is True)
    V.run('Wing.generate', generate)
    V.run('Wing.generate', lambda: (ps.vc().check('there is a loop that generates every segment', 'generated' in flags), ps.vc().check('there is a loop that sets all positions', 'positions' in flags)))
    ps.RANGE_SPECS.clear()
    ps.npx().hooks.clear()

    def both():
        """the generic segment has been generated and has both positions after generate()"""
        v = ps.vc()
        w = ac.Wing('w')
        n = v.choose(1, 2, 3)
        segs = [seg_obj(S(tm.num(i))) for i in range(n)]
        for i, s in enumerate(segs):
            w.segments['s%d' % i] = s
        ps.npx().hooks['linalg.norm'] = lambda x: 1.0 if isinstance(x, Vtx) else None
        w.generate()
    V.run('small wings run through', both)
    ps.npx().hooks.clear()

    def sums():
        v = ps.vc()
        w, n, segs, total = mk(v, False)
        segs.spec.body = lambda *a: None
        v.check('span of the wing is the sum over its segments', same(w.span, total))
        bv = tm.var('$i', 'I')
        v.check('area of the wing is the sum over its segments', same(w.area, S(tm.Sum(bv, tm.ZERO, n.t, U('seg_area', S(bv)).t))))
        a = ac.Aircraft()
        m = v.int('m', 0)

        def wing_obj(k):
            o = type('W', (), {})()
            o.area = U('wing_area', k)
            return o
        a.wings = nodes('wings', m, wing_obj, Any(accumulate=True))
        v.check('area of the aircraft is the sum over its wings', same(a.area, S(tm.Sum(bv, tm.ZERO, m.t, U('wing_area', S(bv)).t))))
    V.run('sums', sums)

    def lemmas():
        v = ps.vc()
        n, k = v.int('n', 1), v.int('k', 0)
        total = spans(0, n)
        v.assume(total > 0)
        inner = lambda j: spans(0, j) / total
        outer = lambda j: spans(0, j + 1) / total
        v.check('lemma: consecutive segments are contiguous', same(outer(k), inner(k + 1)))
        v.check('lemma: the first segment starts at 0', same(inner(S(tm.ZERO)), 0))
        v.check('lemma: the last segment ends at 1', same(outer(n - 1), 1))
    V.run('positions', lemmas)
    return V


# ---------------------------------------------------------------- traversal (B01, P01, ...)
def hierarchy(v):
    """aircraft with unknown numbers of wings, segments, controls, strips and parts"""
    a = type('AC', (), {})()
    H = {}

    def level(name, parent, mk):
        n = S(tm.fn('count_' + name, *[term(k) for k in parent], sort='I')) if parent else v.int('count_' + name, 0)
        m = nodes(name + '@' + ','.join(map(repr, map(term, parent))), n, mk, Any(), 'items')
        m.level = name
        H[name] = m
        return m

    def wing(k):
        o = type('Wing', (), {})()
        o.segments = level('segments', (k,), lambda j: seg(k, j))
        o.controls = level('controls', (k,), lambda j: node('control', k, j))
        o.ix = (k,)
        return o

    def node(nm, *ix):
        o = type(nm, (), {})()
        o.ix = ix
        return o

    def seg(k, j):
        o = node('segment', k, j)
        o.subdivision = level('strips', (k, j), lambda i: strip(k, j, i))
        return o

    def strip(k, j, i):
        o = node('strip', k, j, i)
        o.subarea = level('parts', (k, j, i), lambda l: node('part', k, j, i, l))
        return o
    a.wings = level('wings', (), wing)
    return a


def g_tools():
    """the all_* generators yield every component exactly once, in hierarchical order"""
    ot = ps.load('objects.objecttools')
    V = VC('traversal', ['all_wings', 'all_segments', 'all_controls', 'all_subdivisions', 'all_subareas', 'count_all_wings', 'count_all_segments', 'count_all_controls', 'count_all_subareas'])
    PATH = {'all_wings': ['wings'], 'all_segments': ['wings', 'segments'], 'all_controls': ['wings', 'controls'],
            'all_subdivisions': ['wings', 'segments', 'subdivision'], 'all_subareas': ['wings', 'segments', 'subdivision', 'subarea']}

    def go():
        v = ps.vc()
        f = v.choose(*PATH)
        path = PATH[f]
        log = []
        a = hierarchy(v)
        chain = []

        class Lv(Any):
            accumulate = True

            def __init__(self, d):
                self.d = d

            def begin(self, k, elem, loc):
                log.clear()
                chain.append((k, elem[0], elem[1]))

            def body(self, k, elem, loc, ch):
                # end of the generic iteration of level d
                if self.d == len(path) - 1:
                    v.check('%s yields the element exactly once' % f, len(log) == 1)
                    for y in log:
                        got = y if f != 'all_wings' else (y,)
                        exp = list(reversed(chain))
                        v.check('%s yields element and parents' % f, len(got) == len(exp) and all(ok(g, x) for g, x in zip(got, exp)))
                else:
                    v.check('%s yields nothing outside the innermost level' % f, not log)

            def exit(self, n, loc):
                log.clear()

        def ok(g, x):
            return isinstance(g, tuple) and len(g) == 3 and bool(same(g[0], x[0])) and same(g[1], x[1]) is True and g[2] is x[2]
        m = a.wings

        def attach(mm, d):
            mm.spec = Lv(d)
            if d + 1 < len(path):
                old = mm.value

                def val(k):
                    o = old(k)
                    ch = getattr(o, path[d + 1])
                    if not isinstance(ch.spec, Lv):
                        attach(ch, d + 1)
                    return o
                mm.value = val
        attach(m, 0)
        for y in getattr(ot, f)(a):
            log.append(y)
        v.check('%s yields nothing after the last element' % f, not log)
    V.run('generators', go)

    def count():
        v = ps.vc()
        f = v.choose('count_all_wings', 'count_all_segments', 'count_all_controls', 'count_all_subareas')
        n = v.int('n', 0)
        a = object()
        seen = []
        for g in PATH:
            def gen(x, g=g):
                seen.append((g, x))
                w = len(PATH[g])
                return SymSeq(g, n, (lambda k: tuple((k, 'u', None) for _ in range(w))), Any(accumulate=True))
            setattr(ot, g, gen)
        r = getattr(ot, f)(a)
        v.check('%s counts every element' % f, same(r, n))
        v.check('%s visits the right level of this aircraft' % f, seen == [(f.replace('count_', ''), a)])
    saved = {g: getattr(ot, g) for g in PATH}
    V.run('counts', count)
    for g, x in saved.items():
        setattr(ot, g, x)
    return V


# ---------------------------------------------------------------- P01
def g_autopanels():
    vlm = ps.load('aero.vlm')
    V = VC('set_autopanels', ['set_autopanels'])

    def go():
        v = ps.vc()
        ns, nc = v.int('nseg', 0), v.int('ncon', 0)
        ap_c, ap_s = v.int('autopanels_c', 1), v.int('autopanels_s', 1)
        have = v.choose(True, False)
        settings = type('Settings', (), {})()
        settings.settings = {'vlm_autopanels_c': ap_c, 'vlm_autopanels_s': ap_s} if have else {}
        if not have:
            ap_c = ap_s = S(tm.ONE)
        aircraft = object()
        seen = []

        class Sp(Any):
            allow = ('.panels',)

            def begin(self, k, elem, loc):
                self.old = dict(elem[0][2].panels)

            def body(self, k, elem, loc, ch):
                o = elem[0][2]
                old = self.old
                if old['num_c'] is not None:
                    v.check('chordwise count given by the user is kept', same(o.panels['num_c'], old['num_c']))
                else:
                    v.check('default chordwise count', same(o.panels['num_c'], ap_c))
                v.check('positive chordwise count', o.panels['num_c'] >= 1 if o.panels['num_c'] is not None else False)
                if 'num_s' in old:
                    if old['num_s'] is not None:
                        v.check('spanwise count given by the user is kept', same(o.panels['num_s'], old['num_s']))
                    elif o.panels['num_s'] is None:
                        v.check('a spanwise count is set', False)
                    else:
                        s, W = o.geometry['span'], o.parent_wing.span
                        x = s / W * ap_s
                        nn = o.panels['num_s']
                        # smallest integer not below the share
                        v.check('spanwise count is an integer', nn.t.sort == 'I' if type(nn) is S else isinstance(nn, int))
                        v.check('spanwise count is the share rounded up', SB(tm.and_(tm.le(x.t, term(nn)), tm.lt(tm.sub(term(nn), tm.ONE), x.t))))
                        v.prove('lemma: a segment with positive span has a positive share', tm.lt(tm.ZERO, x.t))
                        v.prove('positive spanwise count', tm.le(tm.ONE, term(nn)))
                v.check('no further entry', set(o.panels) == set(old))

        def seg(k):
            s = type('Seg', (), {})()
            s.panels = {'num_c': v.choose(None, 'given'), 'num_s': v.choose(None, 'given')}
            for q in s.panels:
                if s.panels[q]:
                    s.panels[q] = v.int(q, 1)
            s.geometry = {'span': v.real('segspan')}
            s.parent_wing = type('W', (), {})()
            s.parent_wing.span = v.real('wingspan')
            v.assume(s.geometry['span'] > 0)
            v.assume(s.parent_wing.span >= s.geometry['span'])
            return (k, 'uid', s), (k, 'wing', s.parent_wing)

        def con(k):
            c = type('Con', (), {})()
            c.panels = {'num_c': v.choose(None, 'given')}
            if c.panels['num_c']:
                c.panels['num_c'] = v.int('num_c', 1)
            return (k, 'uid', c), (k, 'wing', None)

        class OT:
            @staticmethod
            def all_segments(a):
                seen.append('segments')
                v.check('segments of this aircraft', a is aircraft)
                return SymSeq('segments', ns, seg, Sp())

            @staticmethod
            def all_controls(a):
                seen.append('controls')
                v.check('controls of this aircraft', a is aircraft)
                return SymSeq('controls', nc, con, Sp())
        vlm.ot = OT
        vlm.set_autopanels(aircraft, settings)
        v.check('segments and controls are all visited', set(seen) == {'segments', 'controls'})
    old = vlm.ot
    V.run('set_autopanels', go)
    vlm.ot = old
    return V


# ---------------------------------------------------------------- W02
class GhostDict:
    """mapping of unknown contents; only the keys asked for are distinguished; writes are recorded"""

    def __init__(self, name, log):
        self.name, self.log, self.new = name, log, []

    def has(self, k):
        for kk, _ in self.new:
            if kk is k or kk == k:
                return True
        if isinstance(k, str) or type(k) is Str:
            return bool(SB(tm.fn('has_' + self.name, k.t() if type(k) is Str else tm.strc(k), sort='B')))
        hash(k)
        return False

    def __contains__(self, k):
        return self.has(k)

    def keys(self):
        return self

    def __getitem__(self, k):
        for kk, v in reversed(self.new):
            if kk is k or kk == k:
                return v
        raise KeyError(k)

    def get(self, k, d=None):
        for kk, v in reversed(self.new):
            if kk is k or kk == k:
                return v
        return ('old', k) if self.has(k) else d

    def __setitem__(self, k, v):
        self.new.append((k, v))

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def setdefault(self, k, v):
        if k in self:
            return self.get(k)
        self[k] = v
        return v

    def _mut(self, *a, **k):
        self.log.append('removed')
    pop = popitem = clear = __delitem__ = _mut


def g_identifiers():
    ac = ps.load('objects.aircraft')
    V = VC('identifiers', ['Aircraft.add_wing', 'Wing.add_segment', 'Wing.add_control', 'Aircraft.uid', 'Wing.uid', 'WingSegment.uid', 'WingControl.uid'])
    seen = set()

    def uid_kind(v):
        k = v.choose('text', 'empty', 'none', 'number', 'zero', 'list', 'tuple', 'bytes')
        return k, {'text': v.str('uid'), 'empty': '', 'none': None, 'number': 3, 'zero': 0, 'list': ['a'], 'tuple': ('a',), 'bytes': b'a'}[k]

    def add():
        v = ps.vc()
        what = v.choose('wing', 'segment', 'control')
        log = []
        a, w = ac.Aircraft(), ac.Wing('w')
        a.wings, w.segments, w.controls = (GhostDict(x, log) for x in ('wings', 'segments', 'controls'))
        f, own, cls = {'wing': (a.add_wing, a.wings, ac.Wing), 'segment': (w.add_segment, w.segments, ac.WingSegment), 'control': (w.add_control, w.controls, ac.WingControl)}[what]
        kind, uid = uid_kind(v)
        r, e = raises(f, uid)
        others = [d for d in (a.wings, w.segments, w.controls) if d is not own]
        v.check('%s: other components untouched' % what, not log and not any(d.new for d in others))
        dup = kind == 'text' and SB(tm.fn('has_%ss' % what, uid.t(), sort='B'))
        if e is not None:
            v.check('%s: existing components stay when the identifier is rejected' % what, not own.new)
            v.check('%s: a new text identifier is accepted' % what, dup if kind == 'text' else True)
            seen.add((what, kind, 'rejected'))
        else:
            v.check('%s: an identifier that is no text or empty is rejected (%s)' % (what, kind), kind == 'text')
            if kind != 'text':
                return
            v.check('%s: a duplicate identifier is rejected' % what, ~dup)
            v.check('%s: exactly one component is added, under its identifier, and returned' % what,
                    len(own.new) == 1 and own.new[0][0] == uid and own.new[0][1] is r and isinstance(r, cls) and r.uid == uid)
            if what != 'wing':
                v.check('%s belongs to its wing' % what, r.parent_wing is w)
            seen.add((what, kind, 'added'))
    V.run('add', add)
    V.run('add', lambda: [ps.vc().check('%s: both outcomes are possible' % w, (w, 'text', 'added') in seen and (w, 'text', 'rejected') in seen) for w in ('wing', 'segment', 'control')])

    def setter():
        v = ps.vc()
        w = ac.Wing('w')
        o = v.choose(*range(4))
        o = [ac.Aircraft(), w, ac.WingSegment(w, 's'), ac.WingControl(w, 'c')][o]
        nm = type(o).__name__
        old = o.uid
        kind, uid = uid_kind(v)
        if kind == 'empty':
            return
        r, e = raises(setattr, o, 'uid', uid)
        if kind == 'text':
            v.check('%s: a text identifier is accepted and stored' % nm, e is None and o.uid == uid)
        else:
            v.check('%s: an identifier that is no text is rejected' % nm, e is not None and o.uid == old)
    V.run('uid', setter)
    return V


def g_definitions():
    ac = ps.load('objects.aircraft')
    V = VC('definitions', ['Wing.symmetry', 'WingControl.device_type', 'WingControl.check'])

    def symmetry():
        v = ps.vc()
        w = ac.Wing('w')
        old = v.choose(0, 1, 2, 3)
        w.symmetry = old
        kind = v.choose('int', 'real', 'text', 'none', 'list')
        x = {'int': v.int('sym'), 'real': v.real('sym'), 'text': v.str('sym'), 'none': None, 'list': [1]}[kind]
        r, e = raises(setattr, w, 'symmetry', x)
        if kind in ('int', 'real'):
            valid = tm.or_(*[tm.eq(x.t, tm.num(i)) for i in range(4)])
            v.check('symmetry %s' % ('accepted: it is 0, 1, 2 or 3' if e is None else 'rejected: it is none of 0, 1, 2 and 3'), SB(valid if e is None else tm.not_(valid)))
            v.check('stored symmetry', same(w.symmetry, x if e is None else old))
        else:
            v.check('symmetry of type %s is rejected' % kind, e is not None and w.symmetry == old)
    V.run('symmetry', symmetry)

    def device():
        v = ps.vc()
        c = ac.WingControl(ac.Wing('w'), 'c')
        old = v.choose(None, 'slat', 'flap')
        if old:
            c.device_type = old
        kind = v.choose('text', 'slat', 'flap', 'none', 'number', 'list')
        x = {'text': v.str('type'), 'none': None, 'number': 1, 'list': ['slat']}.get(kind, kind)
        r, e = raises(setattr, c, 'device_type', x)
        if kind == 'text':
            is_ = x == 'slat'
            other = x == 'flap'
            if e is None:
                v.check('device type accepted: slat or flap', SB(tm.or_(term(is_), term(other))))
                v.check('stored device type', c.device_type == x)
            else:
                v.check('device type rejected: neither slat nor flap', SB(tm.and_(tm.not_(term(is_)), tm.not_(term(other)))))
        elif kind in ('slat', 'flap'):
            v.check('%s is accepted and stored' % kind, e is None and c.device_type == x)
        else:
            v.check('device type of type %s is rejected' % kind, e is not None)
        if e is not None:
            v.check('device type stays when rejected', c.device_type == old)
    V.run('device type', device)

    def value(v, nm):
        k = v.choose('none', 'real', 'int', 'text', 'list')
        return k, {'none': None, 'real': v.real(nm), 'int': v.int(nm), 'text': v.str(nm), 'list': [1.0]}[k]

    def check():
        v = ps.vc()
        w = ac.Wing('w')
        w.symmetry = v.choose(0, 1, 2, 3)
        c = w.add_control('c')
        c.device_type = 'flap'
        if v.choose(True, False):
            dev = True
        else:
            dev = False
            c._device_type = None
        dk, d = value(v, 'deflection') if dev else ('real', 1.0)
        mk, m = value(v, 'deflection_mirror') if dev else ('none', None)
        c.deflection, c.deflection_mirror = d, m
        sameseg = v.choose(True, False)
        c.segment_uid.update(inner='s1', outer='s1' if sameseg else 's2')
        for dct in (c.rel_vertices, c.rel_hinge_vertices):
            for k in dct:
                x = v.real(k)
                v.assume(SB(tm.and_(tm.le(tm.ZERO, x.t), tm.le(x.t, tm.ONE))))
                dct[k] = x
        c.panels['num_c'] = v.choose(None, 3)
        old = [dict(x) for x in (c.segment_uid, c.rel_vertices, c.rel_hinge_vertices, c.panels)]
        inside = lambda x: tm.and_(tm.le(tm.num(-90), x.t), tm.le(x.t, tm.num(90)))
        valid = tm.TRUE
        if not dev or dk not in ('real', 'int'):
            valid = tm.FALSE
        else:
            valid = inside(d)
        if w.symmetry and mk != 'none':
            valid = tm.and_(valid, inside(m) if mk in ('real', 'int') else tm.FALSE)
        ei, eo = c.rel_vertices['eta_inner'], c.rel_vertices['eta_outer']
        if sameseg:
            valid = tm.and_(valid, tm.lt(ei.t, eo.t))
        r, e = raises(c.check)
        case = 'symmetric wing' if w.symmetry else 'wing without symmetry'
        if e is not None:
            v.check('%s: an error is raised only for an invalid control (deflection %s, mirrored %s)' % (case, dk, mk), SB(tm.not_(valid)))
            return
        v.check('%s: only a valid control is accepted (deflection %s, mirrored %s)' % (case, dk, mk), SB(valid))
        if valid is tm.FALSE:
            return
        v.check('deflection is stored unchanged', same(c.deflection, d))
        if mk != 'none':
            v.check('mirrored deflection is stored unchanged', same(c.deflection_mirror, m))
        elif w.symmetry:
            v.check('missing mirrored deflection becomes the deflection', same(c.deflection_mirror, d))
        else:
            v.check('mirrored deflection stays unset', c.deflection_mirror is None)
        for a, b in zip(old, (c.segment_uid, c.rel_vertices, c.rel_hinge_vertices, c.panels)):
            v.check('all other values are stored unchanged', same(a, dict(b)))
        v.check('device type and symmetry stay', c.device_type == 'flap' and c.symmetry == w.symmetry)
    V.run('check', check)
    return V


def g_values():
    """W02: reference values, vertices, panel counts and relative positions"""
    ac = ps.load('objects.aircraft')
    V = VC('values', ['Aircraft.generate', 'WingSegment.generate', 'WingSegment.check_vertices', 'WingSegment.check_panels', 'WingSegment.check_airfoils', 'WingControl.check'])

    def number(v, nm, kinds=('real', 'int', 'text', 'none', 'list')):
        k = v.choose(*kinds)
        return k, {'none': None, 'real': v.real(nm), 'int': v.int(nm), 'text': v.str(nm), 'list': [1.0]}[k]

    def point(v, nm):
        k = v.choose('numbers', 'short', 'long', 'text', 'entry', 'none')
        x = [v.real('%s%d' % (nm, i)) for i in range(4)]
        return k, {'numbers': x[:3], 'short': x[:2], 'long': x, 'text': 'abc', 'entry': [x[0], 'x', x[1]], 'none': None}[k]

    def verdict(v, what, kind, e, valid):
        if e is not None:
            v.check('%s rejected (%s): it is invalid' % (what, kind), SB(tm.not_(valid)))
        else:
            v.check('%s accepted (%s): it is valid' % (what, kind), SB(valid))
        return e is None and valid is not tm.FALSE

    def complete(s):
        s.vertices.update(a=[0.0, 0.0, 0.0], b=[1.0, 4.0, 0.5], c=[2.0, 4.0, 0.5], d=[3.0, 0.0, 0.0])
        s.airfoils.update(inner='NACA0012', outer='NACA2412')
        s.panels.update(num_c=2, num_s=3)
        s._import_airfoils = lambda: None
        return s

    def refs():
        v = ps.vc()
        a = ac.Aircraft()
        a.refs.update(area=2.0, span=3.0, chord=1.0, gcenter=[1.0, 2.0, 3.0], rcenter=[4.0, 5.0, 6.0])
        what = v.choose('area', 'span', 'chord', 'gcenter', 'rcenter', 'missing')
        if what == 'missing':
            del a.refs[v.choose('area', 'span', 'chord', 'gcenter', 'rcenter')]
            r, e = raises(a.generate)
            v.check('missing reference value is rejected', e is not None)
            return
        if what in ('area', 'span', 'chord'):
            k, x = number(v, what, ('real', 'int', 'none', 'list'))
            valid = tm.lt(tm.ZERO, x.t) if k in ('real', 'int') else tm.FALSE
        else:
            k, x = point(v, what)
            valid = tm.TRUE if k == 'numbers' else tm.FALSE
        a.refs[what] = x
        old = dict(a.refs)
        r, e = raises(a.generate)
        if not verdict(v, 'reference %s' % what, k, e, valid):
            return
        for q in ('area', 'span', 'chord', 'gcenter', 'rcenter'):
            v.check('reference values are stored unchanged', same(list(a.refs[q]), list(old[q])) if 'center' in q else same(a.refs[q], old[q]))
    V.run('references', refs)

    def segment():
        v = ps.vc()
        s = complete(ac.Wing('w').add_segment('s'))
        P = {k: [v.real(k + c) for c in 'xyz'] for k in 'abcd'}
        for k in 'abcd':
            s.vertices[k] = list(P[k])
        q = v.choose(*'abcd')
        k, x = point(v, 'p')
        if k == 'none':
            return              # definitions without all vertices are outside of the property
        s.vertices[q] = x
        r, e = raises(s.generate)
        if verdict(v, 'vertex', k, e, tm.TRUE if k == 'numbers' else tm.FALSE):
            for c in 'abcd':
                v.check('vertices are stored unchanged', same(list(s.vertices[c]), x if c == q else P[c]))
    V.run('vertices', segment)

    def panels():
        v = ps.vc()
        w = ac.Wing('w')
        where = v.choose('segment', 'control')
        if where == 'segment':
            o, q = complete(w.add_segment('s')), v.choose('num_c', 'num_s')
            f = o.generate
        else:
            o, q = w.add_control('c'), 'num_c'
            f = o.check
            o.device_type, o.deflection, o.deflection_mirror = 'flap', 1.0, 2.0
            o.segment_uid.update(inner='s', outer='t')
            o.rel_vertices.update(eta_inner=0.1, eta_outer=0.5, xsi_inner=0.7, xsi_outer=0.8)
            o.rel_hinge_vertices.update(xsi_inner=0.7, xsi_outer=0.8)
        k, x = number(v, 'n')
        o.panels[q] = x
        old = dict(o.panels)
        r, e = raises(f)
        valid = tm.lt(tm.ZERO, x.t) if k == 'int' else tm.TRUE if k == 'none' else tm.FALSE
        if verdict(v, 'number of panels of a %s' % where, k, e, valid):
            v.check('numbers of panels are stored unchanged', all(same(o.panels[z], old[z]) for z in old))
    V.run('panels', panels)

    def foils():
        v = ps.vc()
        s = complete(ac.Wing('w').add_segment('s'))
        q = v.choose('inner', 'outer')
        k = v.choose('text', 'int', 'list')
        x = {'text': v.str('foil'), 'int': v.int('n'), 'list': ['NACA0012']}[k]
        s.airfoils[q] = x
        r, e = raises(s.generate)
        if verdict(v, 'airfoil', k, e, tm.TRUE if k == 'text' else tm.FALSE):
            v.check('airfoils are stored unchanged', same(s.airfoils[q], x))
    V.run('airfoils', foils)

    def positions():
        v = ps.vc()
        c = ac.Wing('w').add_control('c')
        c.device_type, c.deflection, c.deflection_mirror = 'slat', 1.0, 2.0
        c.segment_uid.update(inner='s', outer='t')
        c.rel_vertices.update(eta_inner=0.1, eta_outer=0.5, xsi_inner=0.3, xsi_outer=0.2)
        c.rel_hinge_vertices.update(xsi_inner=0.3, xsi_outer=0.2)
        what = v.choose('rel_vertices', 'rel_hinge_vertices', 'segment_uid')
        if what == 'segment_uid':
            q = v.choose('inner', 'outer')
            k = v.choose('text', 'int', 'list')
            x = {'text': v.str('uid'), 'int': v.int('n'), 'list': ['s']}[k]
            if k == 'text':
                v.assume(SB(tm.not_(term(x == ('t' if q == 'inner' else 's')))))
            valid = tm.TRUE if k == 'text' else tm.FALSE
        else:
            q = v.choose(*getattr(c, what))
            k, x = number(v, 'x', ('real', 'text', 'list'))
            valid = tm.and_(tm.le(tm.ZERO, x.t), tm.le(x.t, tm.ONE)) if k == 'real' else tm.FALSE
        getattr(c, what)[q] = x
        r, e = raises(c.check)
        if verdict(v, '%s of a control' % {'rel_vertices': 'relative position', 'rel_hinge_vertices': 'relative hinge position', 'segment_uid': 'segment identifier'}[what], k, e, valid):
            v.check('values are stored unchanged', same(getattr(c, what)[q], x))
    V.run('positions', positions)
    return V

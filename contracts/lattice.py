"""B01 lattice bookkeeping, R01 rotation of normals (aero/vlm.py gen_lattice)"""
import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, Str, Atom, SymSeq, LoopSpec, GList, U, raises, same, snapshot, diff, term, obj_array


class Ghost:
    """allocated array: shape, initial value, writes of the current iteration"""
    count = 0

    def __init__(self, shape, fill, ident):
        self.shape, self.fill, self.ident, self.writes = shape, fill, ident, []
        self.rows = None

    def _ix(self, i):
        return i if isinstance(i, tuple) else (i,)

    def __setitem__(self, i, x):
        self.writes.append((self._ix(i), x))
        if self.rows is not None:
            self.rows.write(self._ix(i), x)

    def __getitem__(self, i):
        if self.rows is None:
            raise ps.VCError('array element read')
        return self.rows.read(self._ix(i))


class Rows:
    """rows of the array of normals: value of row i is cur(i)"""

    def __init__(self, cur):
        self.cur, self.loop, self.own, self.log = cur, None, None, {}

    def _row(self, ix):
        if len(ix) > 1 and not (isinstance(ix[1], slice) and ix[1] == slice(None)) or len(ix) > 2:
            raise ps.VCError('part of a row')
        return ix[0]

    def read(self, ix):
        i = self._row(ix)
        if self.loop is None:
            return obj_array(list(self.cur(i)))
        ps.vc().check('rotation: only the row of the current panel is read', same(i, self.own))
        return obj_array(list(self.val))

    def write(self, ix, x):
        i = self._row(ix)
        if self.loop is None:
            raise ps.VCError('row written outside a loop over panels')
        ps.vc().check('rotation: only the row of the current panel is written', same(i, self.own))
        self.val = list(np.asarray(x, dtype=object).ravel())


class PanelLoop(LoopSpec):
    """loop over the panels of a region: each iteration changes the row of its own panel only"""
    accumulate = False
    probe = True

    def __init__(self, rows, start, stop, array=None):
        self.rows, self.start, self.stop, self.array = rows, start, stop, array

    def allows(self, change):
        return change[1] is self.rows or change[1] is self.array or change[1] is self.array.writes

    def _enter(self, k, val):
        self.rows.loop, self.rows.own, self.rows.val = self, self.start + k, val

    def probe_begin(self, k, elem, loc):
        self.hat = [ps.vc().real('rowhat%d' % i) for i in range(3)]
        self._enter(k, list(self.hat))

    def probe_end(self, k, elem, loc, facts, key):
        ps.vc().summ.setdefault(('rows', key), []).append((k.t, [h.t for h in self.hat], facts, [term(x) for x in self.rows.val]))
        self.rows.loop = None

    def begin(self, k, elem, loc):
        i = self.start + k
        self._enter(k, list(self.rows.cur(i)))

    def body(self, k, elem, loc, ch):
        self.rows.loop = None

    def exit(self, n, loc):
        recs = ps.vc().summ.get(('rows', self.skey), [])
        pre = self.rows.cur
        start = self.start

        def cur(i):
            p = [term(x) for x in pre(i)]
            if not recs:
                return [S(x) for x in p]
            out = None
            for k, hat, facts, val in reversed(recs):
                m = {k: tm.sub(term(i), term(start))}
                m.update(dict(zip(hat, p)))
                t = [tm.subst(x, m) for x in val]
                if out is None:
                    out = t
                else:
                    from vcg.prover import flat
                    c = tm.and_(*[tm.subst(f, m) for f in flat(facts)])
                    out = [tm.ite(c, a, b) for a, b in zip(t, out)]
            return [S(x) for x in out]
        self.rows.cur = cur
        self.rows.loop = None


def rotation(axis, angle):
    """contract of commonlibs axis_rot_matrix: a function of axis and angle, identity for angle zero"""
    a = [term(x) for x in axis] + [term(angle)]
    R = np.empty((3, 3), dtype=object)
    z = tm.eq(term(angle), tm.ZERO)
    for i in range(3):
        for j in range(3):
            R[i, j] = S(tm.ite(z, tm.num(int(i == j)), tm.fn('rot%d%d' % (i, j), *a)))
    return R


class AppendOnly:
    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)

    def _bad(self, *a):
        raise ps.VCError('bookkeeping list is read while it is built')
    __iter__ = __len__ = __getitem__ = _bad


def g_gen():
    vlm = ps.load('aero.vlm')
    vs = __import__('pytornado.objects.vlm_struct', fromlist=['x'])
    V = VC('gen_lattice', ['gen_lattice', 'VLMLattice.update_bookkeeping', 'VLMLattice.clean_bookkeeping', 'VLMLattice.__init__'])
    saved = {k: getattr(vlm, k) for k in ('ot', 'c_vlm', 'pre_panelling', 'axis_rot_matrix')}
    filled, flags = set(), set()

    def obj(nm, **k):
        o = type(nm, (), {})()
        o.__dict__.update(k)
        return o

    def go():
        v = ps.vc()
        npx = ps.npx()
        npx.hooks.clear()
        ps.RANGE_SPECS.clear()
        allocs = []

        def alloc(sh, val, dtype):
            g = Ghost(sh, val, len(allocs))
            g.integer = dtype in (int, np.int64, ps.vint)
            allocs.append(g)
            return g
        npx.hooks['alloc'] = alloc
        M = v.int('M', 0)
        rotate = v.choose(True, False)
        make = v.choose(True, False)
        eps = v.real('eps')
        settings = obj('Settings', settings={'_epsilon': eps, '_do_normal_rotations': rotate})
        state, aircraft = object(), object()
        world = {'calls': [], 'lat': None}
        calls = world['calls']

        # -------- the regions of the aircraft
        I = lambda nm, k: S(tm.fn(nm, term(k), sort='I'))
        sym = lambda k: I('symmetry', k)
        dev = lambda k: tm.fn('is_device', term(k), sort='B')
        rel = lambda k: U('rel_length', k)

        def chord(k):
            """specified number of chordwise panels of part k"""
            return S(tm.ite(dev(k), I('control_num_c', k).t, tm.ceil(tm.mul(rel(k).t, I('segment_num_c', k).t))))

        def facts(k):
            v.assume(I('control_num_c', k) >= 1, True)
            v.assume(I('segment_num_c', k) >= 1, True)
            v.assume(rel(k) > 0, True)
            v.assume(SB(tm.le(tm.ZERO, sym(k).t)), True)

        def total(k):
            """number of panels of the parts before part k"""
            bv = tm.var('$p', 'I')
            b = S(bv)
            return S(tm.Sum(bv, tm.ZERO, term(k), tm.ite(tm.eq(sym(b).t, tm.ZERO), chord(b).t, tm.mul(tm.num(2), chord(b).t))))

        def regions(k):
            bv = tm.var('$p', 'I')
            return S(tm.Sum(bv, tm.ZERO, term(k), tm.ite(tm.eq(sym(S(bv)).t, tm.ZERO), tm.ONE, tm.num(2))))

        made = {}

        def part(k):
            if term(k) in made:
                return made[term(k)]
            facts(k)
            is_dev = SB(dev(k))
            w = obj('Wing', symmetry=sym(k), uid='wing')
            s = obj('Segment', panels={'num_c': I('segment_num_c', k), 'num_s': I('segment_num_s', k)})
            p = obj('Part', rel_length=rel(k), parent_wing=w, parent_segment=s, symmetry=sym(k))
            if is_dev:
                p.type, p.parent_control = 'device', obj('Control', panels={'num_c': I('control_num_c', k)})
            else:
                p.type, p.parent_control = 'segment', None
            e = ((0, 'u', p), (0, 'u', obj('Strip', parent_segment=s)), (0, 'u', s), (0, 'u', w))
            made[term(k)] = e
            return e

        class Books(LoopSpec):
            def init(self, k, loc):
                lats = [x for x in loc.values() if isinstance(x, vs.VLMLattice)]
                if len(lats) != 1:
                    raise ps.VCError('lattice object')
                self.lat = lats[0]
                world['lat'] = self.lat
                v.check('the bookkeeping is empty at the start', len(self.lat.panel_bookkeeping) == 0 and not self.lat.bookkeeping_by_wing_uid and not self.lat.bookkeeping_by_wing_uid_mirror)
                v.check('strips and devices are made before the regions are counted, if and only if asked for', calls == (['pre_panelling'] if make else []))

            def state(self, k, loc):
                self.lat.panel_bookkeeping = AppendOnly()
                self.lat.bookkeeping_by_wing_uid.clear()
                self.lat.bookkeeping_by_wing_uid_mirror.clear()
                return {}
            allow = ('',)

            def body(self, k, elem, loc, ch):
                p, w = elem[0][2], elem[3][2]
                ents = self.lat.panel_bookkeeping.new if isinstance(self.lat.panel_bookkeeping, AppendOnly) else None
                v.check('regions are only added', ents is not None)
                if ents is None:
                    return
                mirrored = bool(sym(k) != 0)
                v.check('one region per part, one more if and only if the wing has a symmetry plane', len(ents) == (2 if mirrored else 1))
                if len(ents) != (2 if mirrored else 1):
                    return
                at = total(k)
                c = chord(k)
                for j, e in enumerate(ents):
                    nm = ['original', 'mirrored'][j]
                    v.check('%s region belongs to the part' % nm, e.subarea is p and e.mirror is bool(j))
                    v.check('%s region: number of chordwise panels' % nm, same(e.num_chordwise_panels, c))
                    v.check('%s region: has at least one panel' % nm, SB(tm.le(tm.ONE, c.t)))
                    if not hasattr(e.pan_idx, 'start'):
                        v.check('%s region: panel indices are a range' % nm, False)
                        return
                    v.check('%s region: first panel follows the last panel of the region before' % nm, same(e.pan_idx.start, at + c * j))
                    v.check('%s region: last panel' % nm, same(e.pan_idx.stop, at + c * (j + 1)))
                    v.check('%s region: step' % nm, e.pan_idx.step == 1)
                by, bm = self.lat.bookkeeping_by_wing_uid, self.lat.bookkeeping_by_wing_uid_mirror
                v.check('regions are listed under their wing', list(by.get('wing', [])) == ents[:1] and list(bm.get('wing', [])) == ents[1:] and len(by) + len(bm) == len(ents))
                v.check('no other part of the lattice changes', not [c for c in ch if 'lattice.' in c[0] and 'bookkeeping' not in c[0]])

            def exit(self, n, loc):
                self.lat.panel_bookkeeping = SymSeq('regions', regions(M), entry, Entries())

        # -------- the regions of the lattice as used afterwards
        corners = lambda e, m: {c: obj_array([U('corner_%s%d' % (c, i), e, m) for i in range(3)]) for c in 'abcd'}
        ents = {}

        def entry(e):
            if term(e) in ents:
                return ents[term(e)]
            c = I('entry_num_c', e)
            v.assume(c >= 1, True)
            start = I('entry_start', e)
            v.assume(start >= 0, True)
            m = v.choose(False, True)
            ctl = None
            if SB(tm.fn('entry_is_device', term(e), sort='B')):
                ctl = obj('Control', deflection=U('deflection', e), deflection_mirror=U('deflection_mirror', e), panels={'num_c': c})
            mm = S(tm.num(int(m)))

            def foil(eta):
                a = obj('Airfoil')
                a.camber_line_angle = lambda xsi: U('camber', e, eta, xsi)
                return a
            flag = lambda x: S(tm.num(int(bool(x))))
            p = obj('Part', parent_control=ctl, type='device' if ctl else 'segment')
            p.parent_subdivision = obj('Strip', rel_vertices={'eta_' + q: U('eta_' + ('a' if q in 'ad' else 'b'), e) for q in 'abcd'})
            p.parent_segment = obj('Segment', segment_airfoil=obj('Morph', at_eta=foil))
            p.parent_subdivision.parent_segment = p.parent_segment
            p.abs_vertices = lambda mirror: corners(e, flag(mirror))
            p.abs_hinge_axis = lambda mirror: obj_array([U('hinge%d' % i, e, flag(mirror)) for i in range(3)])
            p.abs_camber_line_rot_axis = lambda mirror: obj_array([U('camber_axis%d' % i, e, flag(mirror)) for i in range(3)])
            p.get_xsi_for_collocation_points = lambda n: GList(n, lambda i: U('xsi', e, n, i))
            r = vs.BookKeepingEntry(p, ps.VRange(start, start + c), c, m)
            ents[term(e)] = r
            return r

        class Entries(LoopSpec):
            allow = ('',)

            def begin(self, k, elem, loc):
                for a in allocs:
                    a.writes = []
                n = world['lat'].n
                if 'lattice' in calls and isinstance(n, Ghost):
                    n.rows = self.rows = Rows(lambda i: [U('flat%d' % j, i) for j in range(3)])
                    ps.RANGE_SPECS['range'] = PanelLoop(self.rows, elem.pan_idx.start, elem.pan_idx.stop, n)

            probe = True

            def probe_begin(self, k, elem, loc):
                self.begin(k, elem, loc)

            def body(self, k, elem, loc, ch):
                ps.RANGE_SPECS.clear()
                if 'lattice' not in calls:
                    self.fill(k, elem)
                    return
                flags.add('rotation')
                v.check('normals are rotated only if asked for', rotate)
                v.check('no array but the normals is written', not [a for a in allocs if a.writes and a is not world['lat'].n])
                i = v.int('i')
                v.assume(i >= elem.pan_idx.start)
                v.assume(i < elem.pan_idx.stop)
                m = S(tm.num(int(elem.mirror)))
                n = obj_array([U('flat%d' % j, i) for j in range(3)])
                rad = lambda x: x * S(tm.PI) / 180
                if elem.subarea.parent_control is not None:
                    d = U('deflection_mirror' if elem.mirror else 'deflection', k)
                    n = rotation([U('hinge%d' % j, k, m) for j in range(3)], rad(d)) @ n
                eta = (U('eta_a', k) + U('eta_b', k)) / 2
                xsi = U('xsi', k, I('entry_num_c', k), i - elem.pan_idx.start)
                n = rotation([U('camber_axis%d' % j, k, m) for j in range(3)], rad(U('camber', k, eta, xsi))) @ n
                got = self.rows.cur(i)
                what = ('device' if elem.subarea.parent_control is not None else 'main part') + (', mirrored side' if elem.mirror else ', original side')
                for j in range(3):
                    v.check('normal of a panel of a %s is rotated by deflection and camber' % what, same(got[j], n[j]))

            def fill(self, k, elem):
                c = corners(k, S(tm.num(int(elem.mirror))))
                for a in allocs:
                    if not a.writes:
                        continue
                    sh = a.shape
                    if len(sh) == 3 and len(a.writes) == 4:
                        for q, (ix, x) in enumerate(sorted(a.writes, key=lambda w: w[0][1])):
                            v.check('corner %s of the region is handed over in its place' % 'abcd'[q], len(ix) >= 2 and ix[1] == q and same(list(x), list(c['abcd'[q]])))
                            v.check('row of the region', same(ix[0], k))
                        filled.add(a.ident)
                    elif len(sh) == 2:
                        for ix, x in a.writes:
                            v.check('row of the region', same(ix[0], k))
                            v.check('number of panels along span and chord', len(ix) == 2 and ix[1] in (0, 1) and same(x, elem.num_chordwise_panels if ix[1] == 1 else 1))
                        v.check('chordwise count is handed over', any(ix[1] == 1 for ix, _ in a.writes))
                        filled.add(a.ident)
                    else:
                        v.check('no other array is written', False)
                for a in allocs:
                    a.writes = []

        class OT:
            all_subareas = staticmethod(lambda a: (v.check('parts of this aircraft', a is aircraft), SymSeq('parts', M, part, Books()))[1])
            count_all_wings = staticmethod(lambda a: S(tm.fn('n_wings', sort='I')))
            count_all_controls = staticmethod(lambda a: S(tm.fn('n_controls', sort='I')))
            count_all_segments = staticmethod(lambda a: S(tm.fn('n_segments', sort='I')))
            count_all_subareas = staticmethod(lambda a: M)

        class C:
            @staticmethod
            def py2c_lattice(lat, st, sub, sy, pan):
                calls.append('lattice')
                P, R = total(M), regions(M)
                full = lambda nm, a, *sh: (v.check('%s: allocated array' % nm, isinstance(a, Ghost) and len(a.shape) == len(sh)),
                                           isinstance(a, Ghost) and [v.check('%s: allocated size' % nm, same(x, y)) for x, y in zip(a.shape, sh)])
                v.check('lattice and flight condition are handed over', lat is world['lat'] and st is state)
                full('region corners', sub, R, 4, 3)
                full('region panel counts', pan, R, 2)
                v.check('every region is handed over', sub.ident in filled and pan.ident in filled)
                v.check('one panel along the span unless set', pan.fill == 1 and pan.integer)
                full('symmetry flags', sy, sy.shape[0])
                v.check('symmetry flags: at least one entry per region, all zero', sy.fill == 0 and sy.integer and not sy.writes)
                v.prove('symmetry flags: at least one entry per region', tm.or_(same(sy.shape[0], P).t if type(same(sy.shape[0], P)) is SB else tm.TRUE, same(sy.shape[0], R).t if type(same(sy.shape[0], R)) is SB else tm.TRUE))
                for nm, sh in (('p', (4, 3)), ('v', (4, 3)), ('c', (3,)), ('bound_leg_midpoints', (3,)), ('n', (3,)), ('a', ())):
                    a = getattr(lat, nm)
                    full('lattice.' + nm, a, P, *sh)
                    v.check('lattice.%s is an array of zeros' % nm, a.fill == 0 and not a.integer)
                v.check('lattice arrays are distinct', len({id(getattr(lat, k)) for k in ('p', 'v', 'c', 'bound_leg_midpoints', 'n', 'a')}) == 6)
                v.check('number of panels reported', same(lat.info['num_panels'], P))
                v.check('number of strips reported', same(lat.info['num_strips'], P))
                v.check('number of regions reported', same(lat.info['num_segments'], R))
                v.check('number of wings reported', same(lat.info['num_wings'], S(tm.fn('n_wings', sort='I'))))
                v.check('number of controls reported', same(lat.info['num_controls'], S(tm.fn('n_controls', sort='I'))))
                v.check('regularisation parameter of the settings', same(lat.epsilon, eps))
                flags.add('lattice')
        vlm.ot, vlm.c_vlm, vlm.axis_rot_matrix = OT, C, rotation
        vlm.pre_panelling = lambda a: (v.check('strips of this aircraft', a is aircraft), calls.append('pre_panelling'))
        r = vlm.gen_lattice(aircraft, state, settings, make)
        v.check('the lattice is returned', r is world['lat'] and isinstance(r, vs.VLMLattice))
        v.check('the lattice is generated once', calls.count('lattice') == 1)
        if not rotate:
            v.check('without normal rotations nothing is written after the lattice is generated', not [a for a in allocs if a.writes])
    V.run('gen_lattice', go)
    V.run('gen_lattice', lambda: (ps.vc().check('the normals are visited region by region', 'rotation' in flags), ps.vc().check('the lattice generator is reached', 'lattice' in flags)))
    for k, x in saved.items():
        setattr(vlm, k, x)
    ps.RANGE_SPECS.clear()
    ps.npx().hooks.clear()
    return V


def g_axes():
    """R01: camber axis and chord positions of the collocation points of a part"""
    from contracts.geom import mk_wing, mk_strip, mk_part
    ac = ps.load('objects.aircraft')
    V = VC('axes', ['StripSubdivision.abs_camber_line_rot_axis', 'StripSubdivision.abs_camber_line_rot_axis_vertices', 'StripSubdivision.get_xsi_for_collocation_points', 'StripSubdivision.rel_length'])

    def world():
        v = ps.vc()
        plane = v.choose(0, 1, 2, 3)
        w, s = mk_wing(v, ac, plane)
        st = mk_strip(v, ac, s)
        p = mk_part(v, ac, st, v.choose('segment', 'slat', 'flap'))
        return v, plane, w, st, p

    def axis():
        v, plane, w, st, p = world()
        mirror = v.choose(False, True) if plane else False
        c = {k: v.vec('corner_' + k) for k in 'abcd'}
        p.abs_vertices = lambda m: (v.check('corners of the same side', m is mirror), dict(c))[1]
        snap = snapshot({'wing': w, 'strip': st, 'part': p, 'corners': c})
        ab, ad = c['b'] - c['a'], c['d'] - c['a']
        dot = lambda x, y: x[0] * y[0] + x[1] * y[1] + x[2] * y[2]
        # component of the inner to outer direction normal to the chord
        u = [dot(ad, ad) * ab[i] - dot(ab, ad) * ad[i] for i in range(3)]
        uu = dot(u, u)
        v.assume(uu > 0)
        r = p.abs_camber_line_rot_axis(mirror)
        for i in range(3):
            v.check('camber axis: unit vector normal to the chord in the plane of the part, component %d' % i, same(r[i] * uu.sqrt(), -u[i]))
        v.check('geometry is not modified', not diff(snap))
    V.run('camber axis', axis)

    def xsi():
        v, plane, w, st, p = world()
        n = v.int('n', 1)
        x = p.rel_vertices
        inner, outer = (x['xsi_a'] + x['xsi_b']) / 2, (x['xsi_c'] + x['xsi_d']) / 2
        snap = snapshot({'wing': w, 'strip': st, 'part': p})

        r = p.get_xsi_for_collocation_points(n)
        v.check('one chord position per panel', same(ps.vlen(r), n))
        i = v.int('panel', 0)
        v.assume(i < n)
        v.check('collocation point of panel i is at (i + 3/4)/n of the chord of the part', same(r[i], inner + (i + S(tm.num(3)) / 4) / n * (outer - inner)))
        v.check('geometry is not modified', not diff(snap))
    V.run('chord positions', xsi)

    def length():
        v, plane, w, st, p = world()
        x = p.rel_vertices
        v.check('chord share of a part is the mean of its two side edges', same(p.rel_length, (x['xsi_c'] - x['xsi_b'] + x['xsi_d'] - x['xsi_a']) / 2))
    V.run('rel_length', length)
    return V


def g_foils():
    """R01: the airfoils of a segment"""
    ac = ps.load('objects.aircraft')
    V = VC('airfoils', ['WingSegment._import_airfoils'])
    saved = {k: getattr(ac, k) for k in ('os', 'Airfoil', 'MorphAirfoil', 'import_airfoil_data')}

    def go():
        v = ps.vc()
        w = ac.Wing('w')
        s = w.add_segment('s')
        kinds = {q: v.choose('file', 'file called like a NACA airfoil', 'NACA', 'naca', 'other', 'missing') for q in ('inner', 'outer')}
        names = {q: {'file': '/d/%s.dat' % q, 'file called like a NACA airfoil': 'NACA0012' if q == 'inner' else 'NACA2412', 'NACA': 'NACA4415' if q == 'inner' else 'NACA6412',
                     'naca': 'naca0010' if q == 'inner' else 'Naca1408', 'other': 'foo', 'missing': None}[kinds[q]] for q in kinds}
        s.airfoils.update(names)
        files = {names[q] for q in kinds if kinds[q].startswith('file')}

        class Path:
            isfile = staticmethod(lambda p: str(p) in files)
            exists = isfile

        class OS:
            path = Path

        class Foil:
            def __init__(self, upper, lower):
                self.key = ('file', upper, lower)

            @staticmethod
            def NACA4(d, *a):
                f = object.__new__(Foil)
                f.key = ('NACA', d)
                return f

        class Morph:
            def __init__(self, inner, outer, *a):
                self.pair = (inner, outer)
        ac.os, ac.Airfoil, ac.MorphAirfoil = OS, Foil, Morph
        ac.import_airfoil_data = lambda p: (('upper', str(p)), ('lower', str(p)))
        snap = snapshot({'segment': s})
        r, e = raises(s._import_airfoils)
        bad = any(k in ('other', 'missing') for k in kinds.values())
        v.check('an airfoil that is neither a file nor a NACA airfoil is rejected', (e is not None) == bad)
        if e is not None:
            if not bad:
                raise e
            v.check('no airfoil is set on error', not diff(snap))
            return
        v.check('only the airfoil of the segment is set', {c[0] for c in diff(snap)} <= {'segment.segment_airfoil'})
        m = s.segment_airfoil
        for i, q in enumerate(('inner', 'outer')):
            exp = ('file', ('upper', names[q]), ('lower', names[q])) if kinds[q].startswith('file') else ('NACA', names[q][4:])
            v.check('%s airfoil of the segment' % q, type(m) is Morph and m.pair[i].key == exp)
    V.run('_import_airfoils', go)
    for k, x in saved.items():
        setattr(ac, k, x)
    return V

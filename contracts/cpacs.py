"""K02: aircraft definitions read from CPACS documents"""
import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, VCError, S, SB, Str, Atom, SymSeq, LoopSpec, U, raises, same, snapshot, diff, term
from contracts.files import Path, Files, Os, patched, T, text_join
from contracts.wing import Any, nodes

MODEL = '/cpacs/vehicles/aircraft/model'
WINGS = MODEL + '/wings'
REFS = MODEL + '/reference'
FOILS = '/cpacs/vehicles/profiles/wingAirfoils'
DEVICES = '/cpacs/toolspecific/pytornado/controlDevices'


class TE(Exception):
    """TixiException"""


TW = type('tixiwrapper', (), {'TixiException': TE})


def F(*parts):
    """text with numbers in it: (number, format)"""
    return ps._vc_fstr(*[(p[0], -1, p[1]) if type(p) is tuple else (p, -1, '') if type(p) in (S, Str) else p for p in parts])


def text(x):
    return ''.join(p if isinstance(p, str) else '<%s>' % p.name for p in x.parts) if type(x) is Str else x


def cn(x):
    return repr(x.t()) if type(x) is Str else repr(sorted(map(repr, ps.count_key(x))))


def tok(name, *xs):
    """unknown text that depends on these"""
    return Str([Atom('%s(%s)' % (name, ','.join(cn(x) for x in xs)))])


def clean(s):
    """result of parse_str: a function of the text"""
    if type(s) is Str and len(s.parts) == 1 and isinstance(s.parts[0], Atom) and s.parts[0].name.startswith('clean('):
        return s
    return Str([Atom('clean(%r)' % (s.t() if type(s) is Str else s,))])


class Doc:
    """document: only what is listed may be asked for"""
    _memo_fields = ('known',)

    def __init__(self, v, where):
        self.v, self.where, self.known, self.elements, self.counts = v, where, [], [], []

    def _find(self, table, what, *key):
        for ks, x in table:
            if len(ks) == len(key) and all(text(a) == text(b) for a, b in zip(ks, key)):
                return x
        raise VCError('%s: %s is not part of the contract%s' % (what, ' '.join(text(k) for k in key), [' '.join(text(k) for k in ks) for ks, _ in table][:40]))

    def checkElement(self, p):
        return self._find(self.elements, 'element', p)

    def _get(self, *key):
        x = self._find(self.known, 'value', *key)
        if x is None:
            raise TE()
        return x

    def getTextAttribute(self, p, a):
        return self._get('attr', p, a)

    def getTextElement(self, p):
        return self._get('text', p)

    def getDoubleElement(self, p):
        return self._get('double', p)

    def getNamedChildrenCount(self, p, name):
        x = self._find(self.counts, 'number of elements', p, name)
        if x is None:
            raise TE()
        return x

    def getNumberOfChilds(self, p):
        return self._find(self.counts, 'number of elements', p, '*')

    closed = 0

    def close(self):
        self.closed += 1


class Thing:
    pass


def fresh_settings(paths):
    st = Thing()
    st.made = []

    def get(u, make_dirs=False, is_dir=False):
        if make_dirs:
            st.made.append((u, is_dir))
        return paths[u]
    st.paths = get
    return st


# ---------------------------------------------------------------- whole aircraft
def g_aircraft():
    am = ps.load('fileio.cpacs.aircraft')
    V = VC('cpacs aircraft', ['cpacs.aircraft.load', 'get_aircraft_wings', 'get_aircraft_name', 'get_aircraft_refs', 'get_aircraft_wing_segments', 'get_segment_mid_point',
                              'get_aircraft_airfoils', 'write_airfoil_files', 'get_aircraft_controls', 'get_aircraft_deflections', 'open_tigl', '_XPaths.CONTROL', 'PATCH_getControlSurfaceCount', 'PATCH_getControlSurfaceUID'])

    def load():
        v = ps.vc()
        there, wings_there = v.choose(True, False), v.choose(True, False)
        N = v.int('wings', 0)
        named_model = v.choose(True, False)
        log, parts = [], {}
        tixi, tigl = Doc(v, 'load'), Thing()
        tixi.elements = [((WINGS,), wings_there), ((MODEL,), named_model)]
        tixi.counts = [((WINGS, 'wing'), N)]
        tixi.known = [(('attr', MODEL, 'uID'), Str([Atom('model_uid')]))]
        for p, x in (('/point/x', 'x'), ('/point/y', 'y'), ('/point/z', 'z'), ('/area', 'area'), ('/length', 'length')):
            tixi.known.append((('double', REFS + p), v.real(x)))
        ref = {k[1][len(REFS):]: x for k, x in tixi.known[1:]}
        tigl.wingGetSymmetry = lambda i: U('symmetry', i, sort='I')

        class Wings:
            def __getitem__(s, uid):
                if s.cur is None or not same(uid, s.cur.uid) is True:
                    raise VCError('another wing is asked for')
                return s.cur
        ac = Thing()
        ac.wings = wings = Wings()
        wings.cur = None
        ac.uid = None
        ac.refs = {k: None for k in ('area', 'span', 'chord', 'gcenter', 'rcenter', 'comment')}

        def add_wing(uid):
            w = Thing()
            w.uid, w.symmetry = uid, 0
            wings.cur = w
            log.append(('add', uid))
            return w
        ac.add_wing = add_wing
        ac.generate = lambda: log.append(('generate', ac.uid, dict(ac.refs)))

        class Spec(LoopSpec):
            roots = {'aircraft': ac.__dict__}
            accumulate = False

            def allows(self, c):
                return 'wings.cur' in c[0] or c[1] is ac.wings

            def init(self, k, loc):
                parts['before'] = list(log)
                v.check('one pass over the wings', 'loops' not in parts)
                parts['loops'] = 1
                log.clear()

            def begin(self, k, elem, loc):
                log.clear()
                wings.cur = None
                self.named = v.choose(True, False)
                p = F(WINGS + '/wing[', k + 1, ']')
                self.path = p
                self.raw = Str([Atom('wing_uid')])
                self.tixi = list(tixi.known)
                tixi.known += [(('attr', p, 'uID'), self.raw if self.named else None)]

            def body(self, k, elem, loc, ch):
                uid = clean(self.raw) if self.named else F('WING', (k + 1, '02'))
                v.check('one wing is added', len([x for x in log if x[0] == 'add']) == 1 and log[0][0] == 'add')
                if not log or log[0][0] != 'add':
                    return
                v.check('identifier of the wing', same(log[0][1], uid))
                v.check('symmetry of the wing', same(wings.cur.symmetry, U('symmetry', k + 1, sort='I')))
                for what in ('segments', 'controls'):
                    l = [x for x in log if x[0] == what]
                    v.check('%s of the wing are read once' % what, len(l) == 1)
                    if len(l) != 1:
                        continue
                    _, a, u, i, p, t, g = l[0]
                    v.check('%s: of this wing' % what, T(a is ac, same(u, uid), same(i, k + 1), p is None or same(p, self.path), t is tixi, g is tigl))
                i = [n for n, x in enumerate(log) if x[0] == 'segments']
                j = [n for n, x in enumerate(log) if x[0] == 'controls']
                v.check('nothing else happens for a wing', len(log) == 3)

            def exit(self, n, loc):
                log.clear()
                wings.cur = None

        ps.COUNTS[ps.count_key(N)] = Spec()
        st = fresh_settings({'f_aircraft': type('P', (Path,), {'is_file': lambda s: there})('/P/aircraft/a.xml'), 'root': Path('/P')})
        opened = []
        fos = Os(Files())
        fos.path.isfile = fos.path.exists = lambda p: p.is_file() if hasattr(p, 'is_file') else there
        with patched(am, tixiwrapper=TW, parse_str=clean, Aircraft=lambda: ac, open_tixi=lambda p: (opened.append(str(p)), tixi)[1], open_tigl=lambda t: (v.check('geometry of this document', t is tixi), tigl)[1],
                     get_aircraft_wing_segments=lambda a, s, p, u, i, t, g: log.append(('segments', a, u, i, p, t, g)),
                     get_aircraft_controls=lambda a, u, i, t, g: log.append(('controls', a, u, i, None, t, g)),
                     get_aircraft_deflections=lambda a, t: log.append(('deflections', a, t)),
                     write_airfoil_files=lambda s, t: log.append(('foils', s, t)), **({'os': fos} if hasattr(am, 'os') else {})):
            r, e = raises(am.load, st)
        if not there or not wings_there:
            v.check('a missing file or missing wings are an error', e is not None)
            return
        v.check('no error', e is None)
        if e is not None:
            return
        v.check('the aircraft file is read', opened == ['/P/aircraft/a.xml'])
        v.check('the wings are read', parts.get('loops') == 1)
        after = list(log)
        every = parts.get('before', []) + after
        names = [x[0] for x in every]
        v.check('deflections, airfoils and the model are completed once', sorted(names) == ['deflections', 'foils', 'generate'])
        if sorted(names) != ['deflections', 'foils', 'generate']:
            return
        v.check('deflections are read when all wings are there', any(x[0] == 'deflections' for x in after) and every[names.index('deflections')][1:] == (ac, tixi))
        v.check('airfoil files are written from this document', every[names.index('foils')][1:] == (st, tixi))
        v.check('the model is generated at the end', names[-1] == 'generate' and r is ac)
        gen = every[-1]
        v.check('name of the model', same(gen[1], clean(Str([Atom('model_uid')])) if named_model else 'NAME_NOT_FOUND'))
        for k in ('gcenter', 'rcenter'):
            x = gen[2][k]
            v.check('%s is the reference point' % k, T(*[same(x[i], ref['/point/' + 'xyz'[i]]) for i in range(3)]) if x is not None and len(x) == 3 else False)
        v.check('gcenter and rcenter are not the same object', gen[2]['gcenter'] is not gen[2]['rcenter'])
        for k, p in (('area', '/area'), ('span', '/length'), ('chord', '/length')):
            v.check('reference %s' % k, gen[2][k] is not None and same(gen[2][k], ref[p]))
    V.run('load', load)

    # ---------------------------------------------------------------- segments
    def segments():
        v = ps.vc()
        there = v.choose(True, False)
        N, W = v.int('segments', 0), v.int('wing', 1)
        xp = Str([Atom('path_of_wing')])
        wu = Str([Atom('wing_uid')])
        tixi, tigl = Doc(v, 'segments'), Thing()
        sp_ = Str([xp.parts[0], '/segments'])
        tixi.elements = [((sp_,), there)]
        tixi.counts = [((sp_, 'segment'), N)]

        now = [None]

        def this(s):
            """number of the segment"""
            if now[0] is None or ps.count_key(s) != ps.count_key(now[0]):
                raise VCError('another segment is asked for')
            return now[0]

        def point(side):
            def f(w, s, eta, xsi):
                if not (same(w, W) is True and isinstance(eta, (int, float)) and isinstance(xsi, (int, float)) and eta in (0, 1) and xsi in (0, 1)):
                    raise VCError('another point is asked for')
                s = this(s)
                return tuple(U('%s_%d%d_%d' % (side, eta, xsi, c), s) for c in range(3))
            return f
        tigl.wingGetLowerPoint, tigl.wingGetUpperPoint = point('low'), point('up')

        def section(side):
            return lambda w, s: (U('section_' + side, w, this(s), sort='I'), U('element_' + side, w, this(s), sort='I'))
        tigl.wingGetInnerSectionAndElementIndex, tigl.wingGetOuterSectionAndElementIndex = section('inner'), section('outer')
        tigl.wingGetProfileName = lambda w, s, e: tok('profile', w, s, e)
        log = []

        def corner(s, e, x):
            return [(U('low_%d%d_%d' % (e, x, c), s) + U('up_%d%d_%d' % (e, x, c), s)) / 2 for c in range(3)]
        wing = Thing()
        ac = Thing()

        class One:
            def __init__(s, uid, x):
                s.uid, s.x = uid, x

            def __getitem__(s, u):
                if s.x is None or same(u, s.uid) is not True:
                    raise VCError('another component is asked for')
                return s.x
        ac.wings = One(wu, wing)
        wing.segments = One(None, None)
        texts = {}

        class Foil:
            def __init__(s, root, rel):
                s.root, s.rel = root, rel

            def __str__(s):
                t = 'FOIL%d' % len(texts)
                texts[t] = s
                return t
            __fspath__ = __str__

        def add_segment(uid):
            s = Thing()
            s.uid, s.vertices, s.airfoils = uid, {c: None for c in 'abcd'}, {'inner': None, 'outer': None}
            wing.segments = One(uid, s)
            log.append(s)
            return s
        wing.add_segment = add_segment

        def inner(p, q):
            return (p[1] < q[1]) | ((p[1] == q[1]) & (p[2] < q[2]))

        class Spec(LoopSpec):
            roots = {'wing': wing.__dict__}
            accumulate = False

            def allows(self, c):
                return 'segments' in c[0]

            def begin(self, k, elem, loc):
                log.clear()
                self.named = v.choose(True, False)
                self.raw = Str([Atom('segment_uid')])
                p = F(sp_, '/segment[', k + 1, ']')
                tixi.known = [(('attr', p, 'uID'), self.raw if self.named else None)]
                now[0] = k + 1
                q = {(e, x): corner(now[0], e, x) for e in (0, 1) for x in (0, 1)}
                self.q = q
                in0 = SB(tm.and_(*[inner(q[0, x], q[1, y]).t for x in (0, 1) for y in (0, 1)]))
                in1 = SB(tm.and_(*[inner(q[1, x], q[0, y]).t for x in (0, 1) for y in (0, 1)]))
                self.side = v.choose(0, 1, None)
                if self.side == 0:
                    v.assume(in0)
                elif self.side == 1:
                    v.assume(in1)
                texts.clear()

            def body(self, k, elem, loc, ch):
                uid = clean(self.raw) if self.named else F(wu, '_SEGMENT', (k + 1, '02'))
                v.check('one segment is added', len(log) == 1)
                if len(log) != 1:
                    return
                s = log[0]
                v.check('identifier of the segment', same(s.uid, uid))
                v.check('the segment has its four vertices', set(s.vertices) == set('abcd') and all(x is not None and len(x) == 3 for x in s.vertices.values()))
                where = {}
                for c, x in s.vertices.items():
                    where[c] = [q for q, y in self.q.items() if x is not None and all(ps.count_key(a) == ps.count_key(b) for a, b in zip(x, y))]
                ok = all(len(x) == 1 for x in where.values()) and len({x[0] for x in where.values()}) == 4
                v.check('the vertices are the four points in the middle between lower and upper surface', ok)
                if ok:
                    vx = s.vertices
                    v.check('the leading edge is in front at the inner end', vx['d'][0] >= vx['a'][0])
                    v.check('the leading edge is in front at the outer end', vx['c'][0] >= vx['b'][0])
                    if self.side is not None:
                        v.check('a and d are the inner ends', {where['a'][0][0], where['d'][0][0]} == {self.side})
                        v.check('b and c are the outer ends', {where['b'][0][0], where['c'][0][0]} == {1 - self.side})
                for side in ('inner', 'outer'):
                    x = texts.get(s.airfoils[side])
                    name = clean(tigl.wingGetProfileName(W, *section(side)(W, k + 1)))
                    v.check('%s airfoil' % side, x is not None and T(str(x.root) == '/P', same(x.rel, Str(['airfoils/blade.', name]))))

        ps.COUNTS[ps.count_key(N)] = Spec()
        st = fresh_settings({'root': Path('/P')})
        sm = ps.load('objects.settings')
        with patched(am, tixiwrapper=TW, parse_str=clean, join_paths=Foil), patched(sm, os=Os(Files())):
            r, e = raises(am.get_aircraft_wing_segments, ac, st, xp, wu, W, tixi, tigl)
        v.check('missing segments are an error, nothing else is', (e is None) == there)
        if there:
            v.check('nothing is left to add', not log)
    V.run('segments', segments)

    def nofoil():
        v = ps.vc()
        side = v.choose('inner', 'outer')
        tigl = Thing()
        tigl.wingGetInnerSectionAndElementIndex = lambda w, s: (1, 1)
        tigl.wingGetOuterSectionAndElementIndex = lambda w, s: (2, 1)
        tigl.wingGetProfileName = lambda w, s, e: '' if (s == 1) == (side == 'inner') else 'x'
        seg = Thing()
        seg.airfoils = {'inner': None, 'outer': None}
        w = Thing()
        w.segments = {'s': seg}
        ac = Thing()
        ac.wings = {'w': w}
        r, e = raises(am.get_aircraft_airfoils, ac, fresh_settings({'root': Path('/P')}), tigl, 'w', 's', 1, 1)
        v.check('a missing profile name is an error', isinstance(e, ValueError))
    V.run('airfoils', nofoil)

    # ---------------------------------------------------------------- controls
    def controls():
        v = ps.vc()
        NC, W = v.int('components', 0), v.int('wing', 1)
        wu = Str([Atom('wing_uid')])
        tixi, tigl = Doc(v, 'controls'), Thing()
        tigl.wingGetComponentSegmentCount = lambda w: NC if same(w, W) is True else U('other')
        comp = lambda w, c: tok('component', w, c)
        tigl.wingGetComponentSegmentUID = comp
        dev = lambda u, i: tok('device', u, i)

        def at(u, eta, xsi):
            nm = cn(u)
            return 'wing', tok('segment', u, eta, xsi), U('eta(%s)' % nm, eta, xsi), U('xsi(%s)' % nm, eta, xsi)
        tigl.wingComponentSegmentPointGetSegmentEtaXsi = at
        log = []
        wing, ac = Thing(), Thing()

        class One:
            def __getitem__(s, u):
                if same(u, wu) is not True:
                    raise VCError('another wing is asked for')
                return wing
        ac.wings = One()

        def add_control(uid):
            c = Thing()
            c.uid, c.deflection, c.deflection_mirror, c.device_type = uid, None, None, None
            c.rel_vertices = {k: None for k in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')}
            c.rel_hinge_vertices = {k: None for k in ('xsi_inner', 'xsi_outer')}
            c.segment_uid = {'inner': None, 'outer': None}
            log.append(c)
            return c
        wing.add_control = add_control
        flags = []
        node = lambda c, i, pos: F(WINGS + '/wing[', W, ']/componentSegments/componentSegment[', c, ']/controlSurfaces/%sEdgeDevices/%sEdgeDevice[' % (pos, pos), i, ']')
        NAMES = ['/outerShape/%sBorder/%s' % (s, p) for s in ('inner', 'outer') for p in ('etaLE/eta', 'etaTE/eta', 'xsiLE/xsi')] + ['/path/%sHingePoint/hingeXsi' % s for s in ('inner', 'outer')]

        class Comp(LoopSpec):
            roots = {'wing': wing.__dict__}
            accumulate = False

            def begin(self, k, elem, loc):
                log.clear()
                flags.clear()
                cur[0] = k
                self.n = U('devices', comp(W, k + 1).t(), sort='I')
                v.assume(self.n >= 0)
                ps.COUNTS[ps.count_key(self.n)] = Dev()

            def body(self, k, elem, loc, ch):
                v.check('the devices of every component segment are read', flags == ['done'] and not log)

            def exit(self, n, loc):
                log.clear()
        cur = [None]

        class Dev(LoopSpec):
            accumulate = False
            roots = {'wing': wing.__dict__}

            def begin(self, k, elem, loc):
                log.clear()
                c = cur[0]
                tixi.known = []
                self.missing = v.choose(None, *range(len(NAMES)))
                for j, nm in enumerate(NAMES):
                    tixi.known.append((('double', F(node(c + 1, k + 1, 'leading'), nm)), None))
                    tixi.known.append((('double', F(node(c + 1, k + 1, 'trailing'), nm)), None if j == self.missing else U('data%d' % j, c, k)))

            def body(self, k, elem, loc, ch):
                c = cur[0]
                if self.missing is not None:
                    v.check('incomplete definitions are left out', not log)
                    return
                v.check('one control is added', len(log) == 1)
                if len(log) != 1:
                    return
                x = log[0]
                d = [U('data%d' % j, c, k) for j in range(len(NAMES))]
                u = comp(W, c + 1)
                v.check('identifier of the control', same(x.uid, dev(u, k + 1)))
                v.check('trailing edge devices are flaps', x.device_type == 'flap')
                v.check('no deflection unless one is given', same(x.deflection, 0))
                for s, o in (('inner', 0), ('outer', 3)):
                    _, seg, eta, xsi = at(u, d[o], d[o + 2])
                    v.check('%s segment' % s, same(x.segment_uid[s], clean(seg)))
                    v.check('%s position along the span' % s, same(x.rel_vertices['eta_' + s], eta))
                    v.check('%s position along the chord' % s, same(x.rel_vertices['xsi_' + s], xsi))
                    v.check('%s hinge position' % s, same(x.rel_hinge_vertices['xsi_' + s], at(u, d[o], d[6 + o // 3])[3]))

            def exit(self, n, loc):
                flags.append('done')
                log.clear()

        ps.COUNTS[ps.count_key(NC)] = Comp()
        tixi.counts = [((DEVICES, 'controlDevice'), 0)]
        ac2 = ac
        with patched(am, tixiwrapper=TW, parse_str=clean, PATCH_getControlSurfaceCount=lambda t, u: U('devices', u.t(), sort='I'), PATCH_getControlSurfaceUID=lambda t, u, i: dev(u, i)):
            r, e = raises(am.get_aircraft_controls, ac2, wu, W, tixi, tigl)
        v.check('no error', e is None)
        v.check('nothing is added afterwards', not log)
    V.run('controls', controls)

    # ---------------------------------------------------------------- deflections
    def deflections():
        v = ps.vc()
        given = v.choose(True, False)
        ND = v.int('devices', 0)
        tixi = Doc(v, 'deflections')
        tixi.counts = [((DEVICES, 'controlDevice'), ND if given else None)]
        now, log, seen = [None], [], []

        class Ctl:
            """controls of wing j"""

            def __init__(s, j):
                s.j, s.made = j, {}
                s.seq = None

            def has(s):
                return U('has', s.j, now[0], sort='B')

            def __contains__(s, u):
                if now[0] is None or same(u, uid(now[0])) is not True:
                    raise VCError('another control is looked for')
                return bool(s.has())

            def __getitem__(s, u):
                if u not in s:
                    raise KeyError(u)
                if 'x' not in s.made:
                    x = Thing()
                    x.deflection, x.deflection_mirror = 'old', 'old'
                    s.made['x'] = x
                    log.append((s.j, x))
                return s.made['x']

            def get(s, u, d=None):
                return s[u] if u in s else d

            def __vckeys__(s):
                return s
            keys = __vckeys__

            def pairs(s):
                if now[0] is not None:
                    raise VCError('controls are searched one by one')
                if s.seq is None:
                    s.seq = nodes('controls(%s)' % cn(s.j), v.int('controls', 0), lambda k: Control(), spec=Check())
                return s.seq

            def items(s):
                return s.pairs().items()

            def values(s):
                return s.pairs().values()

        class Control:
            def __init__(s):
                s.checked = 0

            def check(s):
                s.checked += 1

        class Check(LoopSpec):
            accumulate = False

            def allows(self, c):
                return 'checked' in c[0] or 'checked' == c[2]

            def body(self, k, elem, loc, ch):
                x = elem[1] if isinstance(elem, tuple) else elem
                v.check('every control is checked', x.checked == 1)

            def exit(self, n, loc):
                seen.append('controls')

        class Wing:
            def __init__(s, k):
                s.controls = Ctl(k)

        uid = lambda d: tok('control', d)

        class Search(LoopSpec):
            """loop over the wings"""
            accumulate = True

            def allows(self, c):
                return '.made' in c[0] or '.seq' in c[0]

            def init(self, k, loc):
                seen.clear()

            def begin(self, k, elem, loc):
                self.k = k

            def body(self, k, elem, loc, ch):
                if now[0] is not None:
                    v.prove('the search goes on only if the wing does not have the control', tm.not_(U('has', k, now[0], sort='B').t))
                    v.check('no control of another wing is changed', not log)
                else:
                    v.check('controls of every wing are checked', seen == ['controls'])

            def exit(self, n, loc):
                seen.clear()
                seen.append('none' if now[0] is not None else 'all')

        ac = Thing()
        NW = v.int('wings', 0)
        ac.wings = nodes('wings', NW, Wing, spec=Search())
        kinds = {}

        class Dev(LoopSpec):
            accumulate = False

            def begin(self, k, elem, loc):
                now[0] = k
                log.clear()
                seen.clear()
                p = F(DEVICES + '/controlDevice[', k + 1, ']')
                self.d, self.m = v.choose(True, False), v.choose(True, False)
                kinds['generic'] = self
                tixi.known = [(('attr', p, 'uID'), uid(k)), (('double', F(p, '/deflection')), U('deflection', k) if self.d else None),
                              (('double', F(p, '/deflectionMirror')), U('mirror', k) if self.m else None)]

            def body(self, k, elem, loc, ch):
                v.check('one control gets the deflection', len(log) == 1)
                if len(log) != 1:
                    return
                j, x = log[0]
                v.prove('the control is the one with this identifier', U('has', j, k, sort='B').t)
                v.check('deflection', x.deflection != 'old' and same(x.deflection, U('deflection', k) if self.d else 0))
                v.check('mirrored deflection', same(x.deflection_mirror, U('mirror', k)) if self.m else x.deflection_mirror is None)

            def exit(self, n, loc):
                now[0] = None
                log.clear()
                seen.clear()
        ps.COUNTS[ps.count_key(ND)] = Dev()
        with patched(am, tixiwrapper=TW):
            r, e = raises(am.get_aircraft_deflections, ac, tixi)
        if e is not None:
            v.check('an error only if no wing has the control', isinstance(e, am.ComponentDefinitionError) and now[0] is not None and seen == ['none'] and not log)
        else:
            v.check('all controls are checked at the end', now[0] is None and seen == ['all'])
    V.run('deflections', deflections)

    # ---------------------------------------------------------------- airfoil files
    def foils():
        v = ps.vc()
        N = v.int('airfoils', 0)
        tixi = Doc(v, 'airfoils')
        tixi.counts = [((FOILS, '*'), N)]
        log = []
        st = fresh_settings({'root': Path('/P'), 'd_airfoils': Path('/P/airfoils')})

        class Row:
            def __init__(s, t):
                s.t = t

        def fromstring(t, dtype=float, count=-1, sep=''):
            if sep != ';':
                raise VCError('separator')
            return Row(t)

        class Table:
            """columns (or lines) of numbers"""

            def __init__(s, what, x):
                s.what, s.x = what, list(x)

            @property
            def T(s):
                return Table('lines' if s.what == 'rows' else 'rows', s.x)

            def transpose(s):
                return s.T

        def transpose(x):
            return x.T if isinstance(x, Table) else Table('rows', x)

        def lines(x, *a, **k):
            return Table('lines', x)

        def columns(x):
            return Table('rows', x)

        def stack(x, axis=0):
            return Table('lines' if axis == 0 else 'rows', x)

        def array(x, *a, **k):
            if isinstance(x, (list, tuple)) and x and all(isinstance(y, Row) for y in x):
                return Table('lines', x)
            return x

        def savetxt(f, x, fmt='%.18e', **k):
            log.append((f, x, fmt))
            v.check('the airfoil folder is there before files are written', ('d_airfoils', True) in st.made)

        class Spec(LoopSpec):
            accumulate = False

            def begin(self, k, elem, loc):
                log.clear()
                p = F(FOILS + '/wingAirfoil[', k + 1, ']')
                self.named = v.choose(True, False)
                self.name = Str([Atom('name')])
                self.x, self.z = Str([Atom('xs')]), Str([Atom('zs')])
                tixi.known = [(('text', F(p, '/name')), self.name if self.named else None), (('text', F(p, '/pointList/x')), self.x), (('text', F(p, '/pointList/z')), self.z), (('text', F(p, '/pointList/y')), Str([Atom('ys')]))]

            def body(self, k, elem, loc, ch):
                v.check('one file per airfoil', len(log) == 1)
                if len(log) != 1:
                    return
                f, x, fmt = log[0]
                name = clean(self.name) if self.named else F('AIRFOIL', (k + 1, '02'))
                v.check('file of the airfoil', T(isinstance(f, Foil), isinstance(f, Foil) and str(f.a) == '/P', isinstance(f, Foil) and same(f.b, Str(['airfoils/blade.', name]))))
                ok = isinstance(x, Table) and x.what == 'rows' and len(x.x) == 2
                v.check('rows of chordwise and normal coordinate', T(ok, ok and same(x.x[0].t, self.x), ok and same(x.x[1].t, self.z)))
                v.check('coordinates with seven digits', fmt == '%+.7f' or fmt == '%.7f')

            def exit(self, n, loc):
                log.clear()

        class Foil:
            def __init__(s, a, b):
                s.a, s.b = a, b
        ps.COUNTS[ps.count_key(N)] = Spec()
        sm = ps.load('objects.settings')
        npm = Np(am.np, fromstring=fromstring, transpose=transpose, savetxt=savetxt, stack=stack, column_stack=columns, vstack=lines, array=array, asarray=array)
        with patched(am, tixiwrapper=TW, parse_str=clean, join_paths=Foil, np=npm), patched(sm, os=Os(Files())):
            r, e = raises(am.write_airfoil_files, st, tixi)
        v.check('no error', e is None)
        v.check('nothing is written afterwards', not log)
    V.run('airfoil files', foils)

    # ---------------------------------------------------------------- devices of a component segment
    def patch():
        pm = ps.load('fileio.cpacs.__patch')
        v = ps.vc()
        base = Atom('path_of_component')
        u = Str([Atom('component')])
        there, known = v.choose(True, False), v.choose(True, False)
        i, n = v.int('i', 1), v.int('n', 1)
        asked = []
        nospace = lambda p: Str([q.replace(' ', '') if isinstance(q, str) else q for q in p.parts])
        one = Str([base, '/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice[' + str(i) + ']'])
        many = Str([base, '/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice'])

        class D:
            def checkDocumentHandle(self):
                return True

            def uIDCheckExists(self, x):
                v.check('the component segment is looked for', same(x, u))
                return known

            def uIDGetXPath(self, x):
                v.check('path of the component segment', T(known, same(x, u)))
                return Str([base])

            def checkElement(self, p):
                asked.append(nospace(p))
                return there

            def xPathEvaluateNodeNumber(self, p):
                v.check('devices are counted', same(nospace(p), many))
                return n

            def getTextAttribute(self, p, a):
                v.check('identifier of the device', T(same(nospace(p), nospace(one)), a == 'uID'))
                return Str([Atom('uid')])
        r, e = raises(pm.PATCH_getControlSurfaceCount, D(), u)
        v.check('number of trailing edge devices', (e is not None) if not known else T(e is None, e is None and same(r, n if there else 0), asked and same(asked[-1], many)))
        r, e = raises(pm.PATCH_getControlSurfaceUID, D(), u, i)
        v.check('identifier of a trailing edge device', (e is not None) if not (known and there) else T(e is None, e is None and same(r, Str([Atom('uid')]))))
    V.run('devices', patch)

    def tiglopen():
        um = ps.load('fileio.cpacs.utils')
        v = ps.vc()
        log = []

        class G:
            def open(self, t, uid=''):
                log.append((self, t, uid))
        with patched(um, TIGL_INSTALLED=True, tiglwrapper=type('W', (), {'Tigl': G})):
            tok = object()
            r, e = raises(um.open_tigl, tok)
        v.check('the geometry of the document is opened', e is None and log == [(r, tok, '')])
        with patched(um, TIGL_INSTALLED=False):
            r, e = raises(um.open_tigl, tok)
        v.check('without the geometry library there is an error', isinstance(e, ModuleNotFoundError))
    V.run('open_tigl', tiglopen)
    return V


# ---------------------------------------------------------------- conversion to the native format
def g_convert():
    mod = ps.load('stdfun.setup')
    V = VC('conversion', ['cpacs2pytornado'])

    def go():
        v = ps.vc()
        log = []

        class Name:
            """name of the CPACS file as given: any"""
        given = Name()

        class OsP:
            @staticmethod
            def abspath(p):
                return ('absolute', p)
            realpath = abspath

        class OsM:
            path = OsP

            @staticmethod
            def getcwd():
                return 'CWD'

        class Paths:
            def __init__(s):
                s.at = {'f_aircraft': 'default'}

            def remove_path(s, uid):
                del s.at[uid]

            def add_path(s, uid, path, uid_groups=None, is_absolute=False):
                if uid in s.at:
                    raise ValueError(uid)
                s.at[uid] = path if is_absolute or isinstance(path, tuple) else ('in project', path)

            def change_suffix(s, uid, new_suffix):
                s.at[uid] = ('suffix', s.at[uid], new_suffix if new_suffix.startswith('.') else '.' + new_suffix)

            def __call__(s, uid, **k):
                return s.at[uid]

        class Settings:
            def __init__(s, settings_filename, project_dir, *, settings_dict=None, make_dirs=True, check_ac_file_type=True):
                s.paths, s.project = Paths(), project_dir
                v.check('file type is not checked while there is no aircraft file', not check_ac_file_type)
        loaded = object()

        def load(s):
            log.append(('load', s.paths.at['f_aircraft'], s.project))
            return loaded

        def save(ac, s):
            log.append(('save', s.paths.at['f_aircraft'], s.project, ac))
        io = type('Io', (), {})
        ns = lambda **k: type('Ns', (), {n: staticmethod(f) for n, f in k.items()})
        io.cpacs, io.native = type('C', (), {'aircraft': ns(load=load)}), type('N', (), {'aircraft': ns(save=save)})
        with patched(mod, os=OsM, Settings=Settings, io=io):
            r, e = raises(mod.cpacs2pytornado, given)
        v.check('no error', e is None)
        if e is not None:
            return
        f = ('absolute', given)
        v.check('the aircraft is read from the file given, as a project in the working directory', bool(log) and log[0] == ('load', f, 'CWD'))
        v.check('the aircraft read is written beside it with the extension .json', len(log) == 2 and log[1] == ('save', ('suffix', f, '.json'), 'CWD', loaded))
    V.run('conversion', go)
    return V


class Np:
    def __init__(self, np_, **k):
        self.__dict__.update(k)
        self._np = np_

    def __getattr__(self, a):
        return getattr(self._np, a)

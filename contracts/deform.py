"""D01: deformation reaches exactly the wing and side it is given for"""
import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, Str, Atom, SymMap, LoopSpec, U, raises, same, snapshot, diff
from contracts.geom import refl, mk_wing, mk_strip, mk_part, lerp, ORDER


class Rec:
    """object that records assignments to its attributes"""

    def __init__(self, ident, log):
        object.__setattr__(self, 'ident', ident)
        object.__setattr__(self, 'log', log)

    def __setattr__(self, k, x):
        self.log.append((self.ident, k, x))


class Wings:
    """ghost wings of the aircraft: any identifiers"""

    def __init__(self, log):
        self.log, self.objs = log, {}

    def has(self, k):
        return SB(tm.fn('is_wing', k.t() if type(k) is Str else tm.strc(k), sort='B'))

    def __contains__(self, k):
        return bool(self.has(k))

    def keys(self):
        return self

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError('wing')
        p = k.parts if type(k) is Str else (k,)
        return self.objs.setdefault(p, Rec(p, self.log))

    def get(self, k, d=None):
        return self[k] if k in self else d


def g_load():
    dm = ps.load('fileio.native.deformation')
    V = VC('deformation.load', ['deformation.load'])
    calls = []

    def go():
        v = ps.vc()
        log = []
        ac = type('AC', (), {})()
        ac.wings = Wings(log)
        n = v.int('n', 0)
        field = object()
        cut = []

        class Sp(LoopSpec):
            accumulate = False
            allow = ('wings.log', 'wings.objs')

            def begin(self, k, elem, loc):
                log.clear()
                cut.append(1)

            def body(self, k, elem, loc, ch):
                form = case[0]
                if form == 'ignored':
                    v.check('an entry whose identifier begins with an underscore changes nothing', not log)
                    return
                v.check('exactly one deformation field is assigned', len(log) == 1)
                if len(log) != 1:
                    return
                ident, attr, val = log[0]
                v.check('the field of the entry is assigned', val is field)
                if form == 'plain':
                    v.check('assigned to the wing with the identifier, main side', ident == (u,) and attr == 'def_field')
                elif bool(ac.wings.has(Str([u, '_m']))):
                    v.check('wing whose own identifier ends with _m: main side of this wing', ident == (u, '_m') and attr == 'def_field')
                else:
                    v.check('identifier with suffix _m: mirrored side of the wing without the suffix', ident == (u,) and attr == 'def_field_mirror')

        case = [None]
        u = Atom('u')

        def key(k):
            form = v.choose('plain', 'mirrored', 'ignored')
            case[0] = form
            us = Str([u])
            if form == 'ignored':
                return Str(['_', u])
            v.assume(~SB(tm.fn('startswith', us.t(), tm.strc('_'), sort='B')))
            if form == 'plain':
                v.assume(~SB(tm.fn('endswith', us.t(), tm.strc('_m'), sort='B')))
                v.assume(ac.wings.has(us))
                return us
            full = Str([u, '_m'])
            v.assume(SB(tm.or_(ac.wings.has(us).t, ac.wings.has(full).t)))
            v.assume(~SB(tm.fn('startswith', full.t(), tm.strc('_'), sort='B')))
            return full
        fields = SymMap('def_fields', n, key, lambda k: field, spec=Sp(), canon='items')
        exists = v.choose(True, False)
        size = v.int('size', 0)

        class Path:
            @staticmethod
            def exists(p):
                calls.append(p)
                return exists
            isfile = exists

        class Os:
            path = Path

            @staticmethod
            def stat(p):
                s = type('St', (), {})()
                s.st_size = size
                return s
        loaded = []
        settings = type('Settings', (), {})()
        settings.paths = lambda uid: {'f_deformation': '/DEF'}[uid]
        old = dm.os, dm.load_json_def_fields
        dm.os = Os
        dm.load_json_def_fields = lambda p: (loaded.append(p), fields)[1]
        try:
            r, e = raises(dm.load, ac, settings)
        finally:
            dm.os, dm.load_json_def_fields = old
        if not exists:
            v.check('a missing deformation file is an error', e is not None and not log)
            return
        v.check('no error for fields of existing wings', e is None)
        if loaded:
            v.check('the deformation file of the settings is read', loaded == ['/DEF'])
        else:
            v.check('only an empty file is skipped', size < 10)
        if not cut:
            v.check('no assignment outside the loop over the fields', not log)
    V.run('load', go)
    return V


def g_points():
    ac = ps.load('objects.aircraft')
    V = VC('deformed points', ['WingSegment.get_deformed_segment_point', 'SegmentStrip.abs_vertices', 'StripSubdivision.abs_vertices', 'Wing.is_deformed'])

    def field(v, nm):
        f = np.empty((2, 9), dtype=object)
        for i in np.ndindex(2, 9):
            f[i] = v.real('%s%d%d' % ((nm,) + i))
        return f

    def moved(p, f0):
        a = [x for x in p] + list(f0.ravel())
        return ps.obj_array([U('moved%d' % i, *a) for i in range(3)])

    def hook(p, f):
        """external get_deformed_point: a function of point and field values; may overwrite the array it is given"""
        r = moved(p, f)
        for i in np.ndindex(2, 9):
            f[i] = ps.vc().real('overwritten')
        return r

    def corners():
        v = ps.vc()
        plane = v.choose(1, 2, 3)
        which = v.choose('none', 'main', 'mirror', 'both')
        w, s = mk_wing(v, ac, plane)
        st = mk_strip(v, ac, s)
        fm = field(v, 'f') if which in ('main', 'both') else None
        fr = field(v, 'g') if which in ('mirror', 'both') else None
        w.def_field, w.def_field_mirror = fm, fr
        old = [None if f is None else f.copy() for f in (fm, fr)]
        ac.get_deformed_point = hook
        v.check('a wing is deformed if one of its sides has a field', bool(w.is_deformed) == (which != 'none'))
        vs, e = s.vertices, st.rel_vertices
        base = [lerp(vs['a'], vs['b'], e['eta_a']), lerp(vs['a'], vs['b'], e['eta_b']), lerp(vs['d'], vs['c'], e['eta_c']), lerp(vs['d'], vs['c'], e['eta_d'])]
        snap = snapshot({'wing': w, 'strip': st})
        got = {}
        for mirror in (False, True, False):
            o = st.abs_vertices(mirror)
            got[mirror] = o
            side = 'mirrored side' if mirror else 'main side'
            exp = [refl(p, plane) for p in base] if mirror else base
            f = old[1] if mirror else old[0]
            if f is not None:
                exp = [moved(p, f) for p in exp]
            if mirror:
                exp = [exp[i] for i in ORDER[plane]]
            for i, k in enumerate('abcd'):
                v.check('%s %s field: strip corner %s' % (side, 'with' if f is not None else 'without', k), same(list(o[k]), list(exp[i])))
        v.check('fields and geometry are not modified', not diff(snap))
        p = mk_part(v, ac, st, v.choose('segment', 'flap'))
        x = p.rel_vertices
        for mirror in (False, True):
            o, so = p.abs_vertices(mirror), got[mirror]
            xs = [x['xsi_' + k] for k in 'abcd']
            if mirror:
                xs = [xs[i] for i in ORDER[plane]]
                if plane == 3:
                    xs = [1 - y for y in xs]
            exp = [lerp(so['a'], so['d'], xs[0]), lerp(so['b'], so['c'], xs[1]), lerp(so['b'], so['c'], xs[2]), lerp(so['a'], so['d'], xs[3])]
            for i, k in enumerate('abcd'):
                v.check('%s: part corner %s lies at its chord position of the strip' % ('mirrored side' if mirror else 'main side', k), same(list(o[k]), list(exp[i])))
    old = ac.get_deformed_point
    V.run('corners', corners)
    ac.get_deformed_point = old
    return V

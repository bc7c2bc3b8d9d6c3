"""I01 - I04: files read and written in the native format"""
import builtins
import os
import re

import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, VCError, S, SB, Str, Atom, SymSeq, SymMap, LoopSpec, U, raises, same, snapshot, diff, term
from contracts.wing import Any, nodes


# ---------------------------------------------------------------- stand-ins for the outside world
class Path:
    """path handed out by settings.paths: opaque, may be turned into text"""

    def __init__(self, text, log=None):
        self.text, self.log = text, log

    def __fspath__(self):
        return self.text

    def __str__(self):
        return self.text

    def __format__(self, f):
        return self.text

    def __eq__(self, o):
        return str(o) == self.text

    def __hash__(self):
        return hash(self.text)

    @property
    def name(self):
        return os.path.basename(self.text)

    @property
    def suffix(self):
        return os.path.splitext(self.text)[1]


class File:
    def __init__(self, path, mode):
        self.path, self.mode, self.closed = str(path), mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


class Files:
    """recorded file operations"""

    def __init__(self, exists=True, content=None):
        self.opened, self.dumped, self.read = [], [], []
        self.there, self.content = exists, content

    def open(self, path, mode='r', *a, **k):
        f = File(path, mode)
        self.opened.append(f)
        return f

    def load(self, fp, *a, **k):
        self.read.append(fp)
        return self.content

    def dump(self, obj, fp, *a, **k):
        self.dumped.append((obj, fp))


def text_join(*a):
    """os.path.join of texts none of which but the first is absolute"""
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append('/')
        parts += x.parts if type(x) is Str else [os.fspath(x)]
    return Str(parts)


def text_base(x):
    """last component of a text whose unknown pieces contain no slash"""
    if type(x) is not Str:
        return os.path.basename(x)
    out = []
    for p in x.parts:
        if isinstance(p, str) and '/' in p:
            out = [p.rsplit('/', 1)[1]]
        else:
            out.append(p)
    return Str(out)


class OsPath:
    def __init__(self, files):
        self.files = files

    def exists(self, p):
        return self.files.there
    isfile = exists

    @staticmethod
    def join(*a):
        return text_join(*a) if any(type(x) is Str for x in a) else os.path.join(*a)

    @staticmethod
    def basename(x):
        return text_base(x)

    def __getattr__(self, nm):
        return getattr(os.path, nm)


class Os:
    def __init__(self, files):
        self.path = OsPath(files)

    def __getattr__(self, nm):
        return getattr(os, nm)


class patched:
    """module globals replaced by stand-ins, restored afterwards"""

    def __init__(self, mod, **new):
        self.mod, self.new, self.old = mod, new, {}

    def __enter__(self):
        for k, x in self.new.items():
            self.old[k] = self.mod.__dict__.get(k, patched)
            self.mod.__dict__[k] = x

    def __exit__(self, *a):
        for k, x in self.old.items():
            if x is patched:
                del self.mod.__dict__[k]
            else:
                self.mod.__dict__[k] = x


def native(mod, files, **k):
    """stand-ins for a module of fileio.native"""
    new = dict(open=files.open, truncate_filepath=lambda p, *a: str(p))
    if hasattr(mod, 'os'):
        new['os'] = Os(files)
    if hasattr(mod, 'json'):
        new['json'] = type('Json', (), {'load': staticmethod(files.load), 'dump': staticmethod(files.dump)})
    if 'dump_pretty_json' in mod.__dict__:
        new['dump_pretty_json'] = files.dump
    new.update(k)
    return patched(mod, **new)


# ---------------------------------------------------------------- lists that grow in a loop
class Grown(list):
    """ghost list after k iterations of a loop: may only be appended to"""

    def __init__(self, spec, k):
        super().__init__()
        self.spec, self.k = spec, k

    def _no(self, *a):
        raise VCError('list under construction is inspected')
    __len__ = __iter__ = __getitem__ = __setitem__ = __contains__ = pop = insert = remove = sort = reverse = extend = __iadd__ = __add__ = __bool__ = __reversed__ = index = count = _no
    new = ()

    def append(self, x):
        self.new = self.new + (x,)

    def __eq__(self, o):
        return self is o
    __hash__ = None


class GrownDict(dict):
    """ghost dictionary after k iterations of a loop: may only be given new entries"""

    def __init__(self, spec, k):
        super().__init__()
        self.spec, self.k = spec, k

    def _no(self, *a):
        raise VCError('dictionary under construction is inspected')
    __len__ = __iter__ = __getitem__ = __contains__ = pop = __delitem__ = keys = values = items = get = __bool__ = update = setdefault = __or__ = __ior__ = clear = popitem = copy = _no
    new = ()

    def __setitem__(self, k, x):
        self.new = self.new + ((k, x),)

    def __eq__(self, o):
        return self is o
    __hash__ = None


GROWN = Grown, GrownDict


def size(x):
    return x.new if type(x) in GROWN else len(x)


def lists_of(loc):
    out = {}

    def go(path, x, seen):
        if id(x) in seen:
            return
        seen = seen | {id(x)}
        if type(x) in (list, dict) + GROWN:
            out[path] = x
        if type(x) is dict:
            for k, y in x.items():
                go(path + (k,), y, seen)
    for k, x in loc.items():
        go((k,), x, frozenset())
    return out


class Collect(Any):
    """loop that appends one entry per iteration to one list; `entry(k, elem, entry)` states what is appended"""
    probe = True
    roots = None

    def allows(self, change):
        return change[1] is self.list

    def __init__(self, name, entry, memo):
        self.name, self.entry, self.memo = name, entry, memo

    def probe_begin(self, k, elem, loc):
        self.at = {p: (l, size(l)) for p, l in lists_of(self.now()).items()}

    def now(self):
        import sys
        f = sys._getframe(1)
        while f.f_code.co_filename in (__file__, ps.__file__):
            f = f.f_back
        return dict(f.f_locals)

    def probe_end(self, k, elem, loc, facts, key):
        new = {p: l for p, l in lists_of(self.now()).items()}
        for p, (l, n) in self.at.items():
            if p in new and new[p] is l and size(l) != n:
                self.memo[self.name] = p

    def state(self, k, loc):
        p = self.memo.get(self.name)
        self.list = None
        if p is None:
            return {}
        loc = self.now()
        v = ps.vc()
        d = loc
        for x in p[:-1]:
            d = d[x]
        old = d[p[-1]]
        g = self.list = (GrownDict if isinstance(old, dict) else Grown)(self, k)
        v.check('%s: nothing is collected before the loop starts' % self.name, type(old) in GROWN or len(old) == 0)
        if len(p) == 1:
            return {p[0]: g}
        d[p[-1]] = g
        return {}

    def body(self, k, elem, loc, ch):
        v = ps.vc()
        g = self.list
        v.check('%s: one entry each' % self.name, g is not None and len(g.new) == 1)
        if g is not None and len(g.new) == 1:
            self.entry(k, elem, g.new[0])


def check_list(name, x, n, memo, elem, entry):
    """x is the list of the entries of all n elements in order"""
    v = ps.vc()
    if type(x) in GROWN:
        v.check('%s: all are written' % name, T(isinstance(x.spec, Collect) and x.spec.name == name, same(x.k, n), not x.new))
    elif isinstance(x, SymSeq):
        v.check('%s: all are written' % name, same(x.n, n))
        k = v.int(name + '_index', 0)
        v.assume(k < n)
        entry(k, elem(k), x.elem(k))
    else:
        v.check('%s: all are written' % name, T(isinstance(x, (list, dict)) and len(x) == 0, same(n, 0)))


def T(*x):
    r = []
    for y in x:
        if isinstance(y, (bool, np.bool_)):
            if not y:
                return False
        else:
            r.append(y.t)
    return SB(tm.and_(*r)) if r else True


def sub(d, exp):
    """all of the expected entries"""
    return T(isinstance(d, dict), *[T(k in d, k in d and same(d[k], x)) for k, x in exp.items()])


def exact(d, exp):
    return T(isinstance(d, dict) and set(d) == set(exp), *[same(d[k], x) for k, x in exp.items() if isinstance(d, dict) and k in d])


# ---------------------------------------------------------------- I01
GEO = ('inner_chord', 'outer_chord', 'span', 'sweep', 'dihedral')
REL = ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')


def vertices(nm, k):
    return {c: [U('%s_%s%d' % (nm, c, i), k) for i in range(3)] for c in 'abcd'}


def g_load():
    mod = ps.load('fileio.native.aircraft')
    ac = ps.load('objects.aircraft')
    V = VC('aircraft.load', ['native.aircraft.load'])

    def go():
        v = ps.vc()
        log = []

        def uid(nm, k):
            return Str([Atom('%s[%r]' % (nm, term(k)))])
        seen = {}

        class Segs(Any):
            def allows(self, change):
                return change[1] is seen['wing'].segments

            def begin(self, k, elem, loc):
                seen['segments'] = []

            def body(self, k, elem, loc, ch):
                new = seen['segments']
                v.check('one segment per entry', len(new) == 1)
                if len(new) != 1:
                    return
                w, s = new[0]
                v.check('segment is added to the wing of its entry', w is seen['wing'])
                v.check('segment: identifier', same(s.uid, elem['uid']))
                v.check('segment: vertices', exact(s.vertices, elem['vertices']))
                g = elem.get('geometry') or {}
                v.check('segment: geometry that is given, nothing else', exact(s.geometry, {key: g.get(key) for key in fresh['geometry']}))
                v.check('segment: airfoils', exact(s.airfoils, seen['foil']))
                p = elem.get('panels') or {}
                v.check('segment: panel counts that are given, nothing else', exact(s.panels, {key: p.get(key) for key in fresh['panels']}))

            def exit(self, n, loc):
                log.append('segments')

        class Ctls(Any):
            def allows(self, change):
                return change[1] is seen['wing'].controls

            def begin(self, k, elem, loc):
                seen['controls'] = []

            def body(self, k, elem, loc, ch):
                new = seen['controls']
                v.check('one control per entry', len(new) == 1)
                if len(new) != 1:
                    return
                w, c = new[0]
                v.check('control is added to the wing of its entry', w is seen['wing'])
                v.check('control: identifier', same(c.uid, elem['uid']))
                v.check('control: device type', same(c.device_type, elem['device_type']))
                v.check('control: deflection', same(c.deflection, elem['deflection']))
                v.check('control: mirrored deflection', same(c.deflection_mirror, elem.get('deflection_mirror')))
                for nm in ('segment_uid', 'rel_vertices', 'rel_hinge_vertices'):
                    v.check('control: %s' % nm, exact(getattr(c, nm), elem[nm]))
                p = elem.get('panels') or {}
                v.check('control: panel counts that are given, nothing else', exact(c.panels, {key: p.get(key) for key in fresh['cpanels']}))
                v.check('control: checked with its final values', bool(c.checked) and not diff(c.checked[-1]))

            def exit(self, n, loc):
                log.append('controls')

        class Wgs(Any):
            def allows(self, change):
                return change[1] is made[0].wings

            def begin(self, k, elem, loc):
                seen['wings'] = []
                log.clear()

            def body(self, k, elem, loc, ch):
                new = seen['wings']
                v.check('one wing per entry', len(new) == 1)
                if len(new) != 1:
                    return
                w = new[0]
                v.check('wing: identifier', same(w.uid, elem['uid']))
                v.check('wing: symmetry', same(w.symmetry, elem['symmetry']))
                v.check('wing: all its segments are read', log.count('segments') == 1)
                v.check('wing: all its controls are read', log.count('controls') == ('controls' in elem))

            def exit(self, n, loc):
                seen['all'] = True

        def segment(k):
            d = {'uid': uid('segment', k), 'vertices': vertices('vertex', k)}
            geo = v.choose('given', 'missing', 'null', 'partly')
            if geo != 'missing':
                d['geometry'] = None if geo == 'null' else {g: U('geometry_' + g, k) for g in fresh['geometry'] if geo == 'given' or g == 'span'}
            kind = v.choose('name', 'project', 'absolute')
            a, b = Atom('foil'), Atom('root')
            n = Str([a]) if kind == 'name' else Str(['airfoils/', a]) if kind == 'project' else Str(['/', b, '/', a])
            if kind == 'name':
                v.assume(~SB(tm.fn('startswith', n.t(), tm.strc('airfoils'), sort='B')))
            d['airfoils'] = {'inner': n, 'outer': 'NACA0012'}
            seen['foil'] = {'inner': Str(['/ROOT/airfoils/', a]) if kind == 'project' else n, 'outer': 'NACA0012'}
            pan = v.choose('given', 'missing', 'null', 'partly')
            if pan != 'missing':
                d['panels'] = None if pan == 'null' else {p: U('panels_' + p, k, sort='I') for p in fresh['panels'] if pan == 'given' or p == 'num_c'}
            return d

        def control(k):
            d = {'uid': uid('control', k), 'device_type': v.choose('flap', 'slat'), 'deflection': U('deflection', k)}
            m = v.choose('given', 'null', 'missing')
            if m != 'missing':
                d['deflection_mirror'] = U('deflection_mirror', k) if m == 'given' else None
            d['segment_uid'] = {'inner': uid('inner', k), 'outer': uid('outer', k)}
            d['rel_vertices'] = {x: U(x, k) for x in fresh['rel']}
            d['rel_hinge_vertices'] = {x: U('hinge_' + x, k) for x in fresh['hinge']}
            pan = v.choose('given', 'missing', 'null')
            if pan != 'missing':
                d['panels'] = None if pan == 'null' else {p: U('cpanels_' + p, k, sort='I') for p in fresh['cpanels']}
            return d

        def wing(k):
            d = {'uid': uid('wing', k), 'symmetry': v.choose(0, 1, 2, 3), 'segments': SymSeq('segments', v.int('nsegments', 0), segment, Segs())}
            if v.choose(True, False):
                d['controls'] = SymSeq('controls', v.int('ncontrols', 0), control, Ctls())
            return d
        w0 = ac.Wing('w')
        s0, c0 = ac.WingSegment(w0, 's'), ac.WingControl(w0, 'c')
        fresh = {'geometry': list(s0.geometry), 'panels': list(s0.panels), 'cpanels': list(c0.panels), 'rel': list(c0.rel_vertices), 'hinge': list(c0.rel_hinge_vertices)}
        made = []

        class Aircraft(ac.Aircraft):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append(self)
                self.generated = 0

            def add_wing(self, *a, **k):
                w = super().add_wing(*a, **k)
                seen.setdefault('wings', []).append(w)
                seen['wing'] = w
                adds, addc = w.add_segment, w.add_control

                def add_segment(*a, **k):
                    s = adds(*a, **k)
                    seen.setdefault('segments', []).append((w, s))
                    return s

                def add_control(*a, **k):
                    c = addc(*a, **k)
                    c.checked = []
                    vals = lambda: {x: getattr(c, x) for x in ('uid', 'device_type', 'deflection', 'deflection_mirror', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels')}
                    c.check = lambda: c.checked.append(snapshot({'v': c.segment_uid, 'r': c.rel_vertices, 'h': c.rel_hinge_vertices, 'p': c.panels}))
                    seen.setdefault('controls', []).append((w, c))
                    return c
                w.add_segment, w.add_control = add_segment, add_control
                return w

            def generate(self):
                v.check('model is generated after all wings are read', 'all' in seen)
                self.generated += 1
        uids = v.str('aircraft_uid')
        refs = {'area': v.real('area'), 'span': v.real('span'), 'chord': v.real('chord'), 'gcenter': [v.real('g%d' % i) for i in range(3)], 'rcenter': [v.real('r%d' % i) for i in range(3)]}
        content = {'uid': uids, 'refs': dict(refs), 'wings': SymSeq('wings', v.int('nwings', 0), wing, Wgs())}
        files = Files(v.choose(True, False), content)
        st = type('Settings', (), {})()
        st.paths = lambda u: Path({'f_aircraft': '/ROOT/aircraft/AC.json', 'root': '/ROOT'}[u])
        with native(mod, files, Aircraft=Aircraft):
            r, e = raises(mod.load, st)
        if not files.there:
            v.check('a missing file is an error', e is not None and not files.read)
            return
        v.check('no error for complete entries', e is None)
        if e is not None:
            return
        v.check('the aircraft file of the settings is read', [f.path for f in files.opened] == ['/ROOT/aircraft/AC.json'] and files.opened[0].mode in ('r', 'rt') and files.read == files.opened)
        v.check('all wings are read', 'all' in seen)
        v.check('the model is returned', made == [r])
        v.check('aircraft: identifier', same(r.uid, uids))
        v.check('aircraft: reference values', sub(r.refs, refs))
        v.check('model is generated once', r.generated == 1)
    V.run('load', go)
    return V


def g_save():
    mod = ps.load('fileio.native.aircraft')
    V = VC('aircraft.save', ['native.aircraft.save', 'NDArrayEncoder.default', 'dump_pretty_json'])
    memo = {}

    def go():
        v = ps.vc()

        def obj(**k):
            o = type('Obj', (), {})()
            o.__dict__.update(k)
            return o

        def uid(nm, k):
            return Str([Atom('%s[%r]' % (nm, term(k)))])
        foil = {}

        def segment(k):
            kind = v.choose('name', 'file', 'relative file')
            a, b = Atom('foil'), Atom('dir')
            n = Str(['NACA', a]) if kind == 'name' else Str(['/', b, '/airfoils/blade.', a]) if kind == 'file' else Str(['airfoils/blade.', a])
            if kind == 'name':
                v.assume(~SB(tm.fn('strcontains', n.t(), tm.strc('blade.'), sort='B')))
            foil[term(k)] = {'inner': n if kind == 'name' else Str(['airfoils/blade.', a]), 'outer': 'NACA0012'}
            pan = v.choose(True, False)
            return obj(uid=uid('segment', k), vertices=vertices('vertex', k), geometry={g: U('geometry_' + g, k) for g in GEO}, airfoils={'inner': n, 'outer': 'NACA0012'},
                       panels={'num_c': U('num_c', k, sort='I') if pan else None, 'num_s': U('num_s', k, sort='I') if pan else None},
                       subdivision={}, position={'inner': U('pos', k), 'outer': U('pos', k)})

        def seg_entry(k, s, d):
            v.check('segment entry: identifier', sub(d, {'uid': s.uid}))
            v.check('segment entry: vertices', T('vertices' in d and exact(d['vertices'], s.vertices)))
            v.check('segment entry: airfoils, project files relative to the project', T('airfoils' in d and exact(d['airfoils'], foil[term(k)])))
            v.check('segment entry: panel counts', T('panels' in d and exact(d['panels'], s.panels)))
            if d.get('geometry'):
                v.check('segment entry: geometry', exact(d['geometry'], s.geometry))
            v.check('segment entry: no other entries', set(d) <= {'uid', 'vertices', 'airfoils', 'panels', 'geometry'})

        def control(k):
            return obj(uid=uid('control', k), device_type=v.choose('flap', 'slat'), deflection=U('deflection', k), deflection_mirror=v.choose(None, U('deflection_mirror', k)),
                       segment_uid={'inner': uid('inner', k), 'outer': uid('outer', k)}, rel_vertices={x: U(x, k) for x in REL}, rel_hinge_vertices={x: U('hinge_' + x, k) for x in ('xsi_inner', 'xsi_outer')},
                       panels={'num_c': v.choose(None, U('cnum', k, sort='I'))}, abs_vertices={})

        def ctl_entry(k, c, d):
            for nm in ('uid', 'device_type', 'deflection', 'deflection_mirror', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels'):
                x = getattr(c, nm)
                v.check('control entry: %s' % nm, T(nm in d, nm in d and (exact(d[nm], x) if isinstance(x, dict) else same(d[nm], x))))
            v.check('control entry: no other entries', set(d) <= {'uid', 'device_type', 'deflection', 'deflection_mirror', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels'})
        ns, nc, nw = (v.int(x, 0) for x in ('nsegments', 'ncontrols', 'nwings'))
        made = {}

        def wing(k):
            segs = nodes('segments', ns, segment, Collect('segments', seg_entry, memo))
            ctls = nodes('controls', nc, control, Collect('controls', ctl_entry, memo))
            return obj(uid=uid('wing', k), symmetry=v.choose(0, 1, 2, 3), segments=segs, controls=ctls)

        def wing_entry(k, w, d):
            v.check('wing entry: identifier and symmetry', sub(d, {'uid': w.uid, 'symmetry': w.symmetry}))
            v.check('wing entry: lists', 'segments' in d and 'controls' in d)
            if 'segments' in d and 'controls' in d:
                check_list('segments', d['segments'], ns, memo, w.segments.elem, seg_entry)
                check_list('controls', d['controls'], nc, memo, w.controls.elem, ctl_entry)
            v.check('wing entry: no other entries', set(d) <= {'uid', 'symmetry', 'segments', 'controls'})
        wings = nodes('wings', nw, wing, None)
        col = Collect('wings', None, memo)
        col.entry = lambda k, elem, d: wing_entry(k, elem[1] if isinstance(elem, tuple) else elem, d)
        for m in (wings,):
            m.spec = col
        refs = {'area': v.real('area'), 'span': v.real('span'), 'chord': v.real('chord'), 'gcenter': np.array([v.real('g%d' % i) for i in range(3)], dtype=object), 'rcenter': [v.real('r%d' % i) for i in range(3)]}
        a = obj(uid=v.str('aircraft_uid'), refs=refs, wings=wings, has_deformed_wings=False)
        snap = snapshot({'refs': refs})
        files = Files()
        st = type('Settings', (), {})()
        st.paths = lambda u: Path({'f_aircraft': '/ROOT/aircraft/AC.json', 'root': '/ROOT'}[u])
        with native(mod, files):
            r, e = raises(mod.save, a, st)
        v.check('no error', e is None)
        if e is not None:
            return
        ok = len(files.dumped) == 1 and len(files.opened) == 1
        v.check('one file is written', ok)
        if not ok:
            return
        d, fp = files.dumped[0]
        v.check('to the aircraft file of the settings', fp is files.opened[0] and fp.path == '/ROOT/aircraft/AC.json' and fp.mode in ('w', 'wt') and fp.closed)
        v.check('aircraft entry: identifier', sub(d, {'uid': a.uid}))
        v.check('aircraft entry: reference values', T('refs' in d and exact(d['refs'], refs)))
        v.check('aircraft entry: wings', 'wings' in d)
        if 'wings' in d:
            check_list('wings', d['wings'], nw, memo, wings.elem, wing_entry)
        v.check('no other entries', set(d) <= {'uid', 'refs', 'wings'})
        v.check('the model is not changed', not diff(snap))
    V.run('save', go)

    def encoder():
        v = ps.vc()
        um = ps.load('fileio.utils')
        import json
        shape = v.choose((3,), (2, 3), (0,))
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = v.real('a%s' % (i,))
        enc = um.NDArrayEncoder()
        r, e = raises(enc.default, a)
        v.check('arrays are written as nested lists of their values', e is None and isinstance(r, list) and bool(same(np.array(r, dtype=object), a) if a.size else r == []))
        r, e = raises(enc.default, object())
        v.check('other objects are not written', isinstance(e, TypeError))
        d = um.dump_pretty_json
        v.check('files are written by the JSON library with this encoder', getattr(d, 'func', None) is json.dump and d.keywords.get('cls') is um.NDArrayEncoder and not d.args
                and not (set(d.keywords) - {'cls', 'indent', 'separators'}) and [x.strip() for x in d.keywords.get('separators', (',', ':'))] == [',', ':'])
    V.run('encoder', encoder)
    return V


# ---------------------------------------------------------------- I02
def shared(a, b):
    """mutable objects that occur in both"""
    def ids(x, out):
        if isinstance(x, (list, dict, set, np.ndarray)):
            out.add(id(x))
            for y in (x.values() if isinstance(x, dict) else x if isinstance(x, (list, set)) else ()):
                ids(y, out)
        return out
    return bool(ids(a, set()) & ids(b, set()))


PLOT = {'opt': [], 'show': False, 'save': False}
DEFAULTS = {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4,
            'save_results': {'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False},
            'plot': {k: PLOT for k in ('geometry', 'lattice', 'matrix_downwash', 'results')},
            '_do_normal_rotations': True, '_deformation_check': True, '_epsilon': 1e-6}


def g_defaults():
    um = ps.load('objects.utils')
    sm = ps.load('objects.settings')
    V = VC('defaults', ['get_default_dict', 'check_dict'])
    memo = {}

    def key(k):
        return Str([Atom('key[%r]' % (term(k),))])

    def default():
        v = ps.vc()
        rec = []

        def value(k):
            return {'number': U('default', k), 'text': 'x', 'none': None, 'flag': True, 'list': [1, [2]], 'no list': [], 'empty': {}, 'group': {'a': (1, int), 'b': ([], list)}}[
                v.choose('number', 'text', 'none', 'flag', 'list', 'no list', 'empty', 'group')]

        def rec_default(template_dict):
            rec.append(template_dict)
            return {'defaults of': len(template_dict), 'fresh': []}

        def entry(k, elem, new):
            (key, (val, dtype)), (nk, nv) = elem, new
            v.check('default: stored under its own name', same(nk, key))
            if isinstance(val, dict) and val:
                v.check('default of a group: defaults of its entries', len(rec) == 1 and rec[0] is val and nv == {'defaults of': 2, 'fresh': []})
            else:
                v.check('default: value of the template', same(nv, val))
            v.check('default: nothing mutable is shared with the template', not shared(nv, val))
        n = v.int('n', 0)
        made = {}

        def item(k):
            t = term(k)
            if t not in made:
                made[t] = (value(k), float)
            return made[t]
        tem = SymMap('template', n, key, item, spec=Collect('template', entry, memo), canon='items')
        with patched(um, get_default_dict=rec_default):
            r, e = raises(real, tem)
        v.check('no error', e is None)
        check_list('template', r, n, memo, lambda k: (key(k), item(k)), lambda k, elem, x: entry(k, elem, (elem[0], x)))
    real = um.get_default_dict
    V.run('default', default)

    TYPES = {'text': str, 'whole number': int, 'flag': bool, 'real number': float, 'list': list, 'group': dict}

    def check():
        v = ps.vc()
        calls = []
        bad = []
        kinds = {'null': lambda: None, 'flag': lambda: v.choose(True, False), 'whole number': lambda: v.int('x'), 'real number': lambda: v.real('x'), 'text': lambda: v.str('x'), 'list': lambda: [1], 'group': lambda: {'a': 1}}
        st = {}

        def item(k):
            d = v.choose(*TYPES, 'text or null', 'number')
            st['d'] = d
            st['t'] = {'a': (1, int)} if d == 'group' else 'default'
            return (st['t'], (None, str) if d == 'text or null' else (int, float) if d == 'number' else TYPES[d])

        class Test:
            def __getitem__(self, k):
                v.check('value of the same name', same(k, key(st['k'])))
                if 'x' not in st:
                    st['kind'] = v.choose(*kinds)
                    st['x'] = kinds[st['kind']]()
                return st['x']

        class Sp(Any):
            def begin(self, k, elem, loc):
                st.update(k=k)

            def body(self, k, elem, loc, ch):
                st['ok'] = True
                judge(True)

            def exit(self, n, loc):
                st['end'] = True

        def ok():
            d, kind = st['d'], st['kind']
            if d == 'text or null' or d == 'number' and kind in ('whole number', 'real number') or d == kind:
                return True
            if kind == 'flag' and d in ('whole number', 'number') or kind == 'whole number' and d == 'real number':
                return None          # Python treats flags as numbers; no claim
            return False

        def judge(accepted):
            if 'kind' not in st:
                v.check('every value that must have a type is looked at', st['d'] == 'text or null')
                return
            o = ok()
            if accepted and o is not None:
                v.check('%s given for %s: %s' % (st['kind'], st['d'], 'accepted' if o else 'rejected'), o)
            if accepted and st['d'] == 'group':
                v.check('entries of a group are checked as well', len(calls) == 1 and calls[0][0] is st['t'] and calls[0][1] is st['x'])
            elif accepted:
                v.check('nothing else is checked', not calls)
            if not accepted and o:
                v.check('%s given for %s: accepted' % (st['kind'], st['d']), False)

        def rec(template_dict, test_dict):
            calls.append((template_dict, test_dict))
            if v.choose(False, True):
                bad.append(1)
                raise TypeError('wrong type below')
        tem = SymMap('template', v.int('n', 0), key, item, spec=Sp(), canon='items')
        with patched(um, check_dict=rec):
            r, e = raises(real_check, tem, Test())
        if bad:
            v.check('an error in a group is passed on', isinstance(e, TypeError))
        elif e is not None:
            judge(False)
            v.check('wrong types are reported as such', isinstance(e, TypeError))
        else:
            v.check('all values are checked', 'end' in st)
    real_check = um.check_dict
    V.run('check', check)

    def constants():
        v = ps.vc()
        import copy
        d = real(copy.deepcopy(sm.DEFAULT_SETTINGS)) if False else um.get_default_dict(sm.DEFAULT_SETTINGS)
        for k, x in DEFAULTS.items():
            v.check('default of %s' % k, k in d and d[k] == x and type(d[k]) is type(x))
        v.check('defaults share nothing with the template', not shared(d, {k: x[0] for k, x in sm.DEFAULT_SETTINGS.items()}) and not shared(d, um.get_default_dict(sm.DEFAULT_SETTINGS)))
        types = dict(aircraft=str, state=str, vlm_autopanels_c=int, vlm_autopanels_s=int, save_results=dict, plot=dict, _do_normal_rotations=bool, _deformation_check=bool, _epsilon=float)
        one = lambda t: t if isinstance(t, tuple) else (t,)
        for k, t in types.items():
            v.check('type of %s' % k, one(sm.DEFAULT_SETTINGS[k][1]) == (t,))
        v.check('type of deformation', set(one(sm.DEFAULT_SETTINGS['deformation'][1])) == {None, str})
        for k, x in sm.DEFAULT_SETTINGS['save_results'][0].items():
            v.check('type of save_results', one(x[1]) == (bool,))
        for k, g in sm.DEFAULT_SETTINGS['plot'][0].items():
            v.check('type of plot', one(g[1]) == (dict,) and {n: one(x[1]) for n, x in g[0].items()} == {'opt': (list,), 'show': (bool,), 'save': (bool,)})
    V.run('constants', constants)
    return V


def g_settings():
    sm = ps.load('objects.settings')
    V = VC('settings', ['Settings.__init__', 'Settings.update_from_dict', 'Settings._check_settings_dict', 'Settings._check_aircraft_file_type'])

    def bare():
        return sm.Settings.__new__(sm.Settings)

    def update():
        v = ps.vc()
        s = bare()
        opt = v.choose([], ['cz'], ['cp', 'gamma'])
        before = {'a': [1], 'plot': {'results': {'opt': list(opt), 'show': False, 'save': True}, 'geometry': {'opt': [], 'show': True, 'save': False}}, '_epsilon': 1e-6}
        s.settings = before
        log = []
        s._check_settings_dict = lambda: log.append(__import__('copy').deepcopy(s.settings))
        st = {}

        def value(k):
            return {'number': U('given', k), 'text': 'x', 'none': None, 'flag': False, 'list': [1, [2]], 'group': {'a': {'b': []}}}[v.choose('number', 'text', 'none', 'flag', 'list', 'group')]

        class Sp(Any):
            allow = ('',)

            def begin(self, k, elem, loc):
                st['old'] = __import__('copy').deepcopy(s.settings)
                st['elem'] = snapshot({'v': given._val(k)})

            def body(self, k, elem, loc, ch):
                key, val = given._key(k), given._val(k)
                new = dict(s.settings)
                ok = key in new
                v.check('a given setting is kept', T(ok, ok and same(new[key], val)))
                v.check('a given setting is not shared with the caller', ok and not shared(new[key], val))
                new.pop(key, None)
                v.check('other settings are not changed by it', new == st['old'])
                v.check('what the caller gave is not changed', not diff(st['elem']))

            def exit(self, n, loc):
                st['end'] = True
        made = {}

        def val(k):
            return made.setdefault(term(k), value(k))
        n = v.int('n', 0)

        class Given(SymMap):
            def __deepcopy__(self, memo):
                return SymMap('settings', self.n, self.key, lambda k: __import__('copy').deepcopy(self._val(k)), spec=self.spec, canon='items')

        class Dict(dict):
            def update(self, m=(), **k):
                for key, val in m.items() if isinstance(m, SymMap) else dict(m, **k).items():
                    self[key] = val
        s.settings = before = Dict(before)
        given = Given('settings', n, lambda k: Str([Atom('key[%r]' % (term(k),))]), val, spec=Sp(), canon='items')
        r, e = raises(s.update_from_dict, given)
        v.check('no error', e is None)
        exp = {'a': [1], 'plot': {'results': {'opt': list(opt) or ['cp'], 'show': False, 'save': True}, 'geometry': {'opt': [], 'show': True, 'save': False}}, '_epsilon': 1e-6}
        v.check('all given settings are used', 'end' in st)
        v.check('the only other change: without choice of results the pressure coefficient is plotted', s.settings == exp)
        v.check('the final settings are checked', bool(log) and log[-1] == s.settings)
    V.run('update', update)

    def check():
        v = ps.vc()
        s = bare()
        x = v.real('epsilon')
        s.settings = {'_epsilon': x, 'b': 2}
        calls = []
        bad = v.choose(False, True)

        def cd(template_dict, test_dict):
            calls.append((template_dict, test_dict))
            if bad:
                raise TypeError('wrong type')
        with patched(sm, check_dict=cd):
            r, e = raises(s._check_settings_dict)
        if bad:
            v.check('a wrong type is an error', isinstance(e, TypeError))
            return
        v.check('settings are compared with the default settings', any(a is sm.DEFAULT_SETTINGS and b is s.settings for a, b in calls))
        ok = T(x > 0, x < 1)
        v.check('internal small number: in (0, 1) accepted, else rejected', ok if e is None else ~ok)
        v.check('nothing is changed', s.settings.keys() == {'_epsilon', 'b'} and same(s.settings['_epsilon'], x))
    V.run('check', check)

    def init():
        v = ps.vc()
        log = []
        given = v.choose('none', 'some')
        user = None if given == 'none' else {'aircraft': 'a.json'}
        made = []

        def defaults(template_dict):
            v.check('defaults of the package', template_dict is sm.DEFAULT_SETTINGS)
            made.append({'d': 1})
            return made[-1]

        class Paths:
            def make_dirs_for_groups(self, g):
                log.append('dirs')

        class T_(sm.Settings):
            def update_from_dict(self, d):
                log.append(('update', d, self.settings))

            def generate_paths(self):
                log.append('paths')
                self.paths = Paths()

            def _check_aircraft_file_type(self):
                log.append('type')
        mk, ck = v.choose(True, False), v.choose(True, False)
        with patched(sm, get_default_dict=defaults):
            s, e = raises(T_, 'name.json', '/P', settings_dict=user, make_dirs=mk, check_ac_file_type=ck)
        v.check('no error', e is None)
        if e is not None:
            return
        v.check('own defaults for every settings object', len(made) == 1 and s.settings is made[0])
        up = [x for x in log if isinstance(x, tuple)]
        v.check('given settings are used', len(up) == (given == 'some') and all(u[1] is user and u[2] is s.settings for u in up))
        v.check('given settings are used before the paths are made', log.index('paths') > max([i for i, x in enumerate(log) if isinstance(x, tuple)], default=-1))
        v.check('aircraft file type is checked if so asked', ('type' in log) == ck)
        v.check('directories are made if so asked', ('dirs' in log) == mk)
        v.check('project directory and name', str(s.project_dir) == '/P' and s.project_basename == 'name')
    V.run('init', init)

    def filetype():
        v = ps.vc()
        s = bare()
        name, cpacs = v.choose(('a.json', False), ('a.xml', True), ('a.JSON', False), ('a.XML', True), ('a.txt', None), ('a', None), ('a.json.bak', None), ('xml', None))
        s.paths = lambda u: __import__('pathlib').Path('/P/aircraft') / {'f_aircraft': name}[u]
        r, e = raises(s._check_aircraft_file_type)
        if cpacs is None:
            v.check('aircraft files of other types are rejected (%s)' % name, isinstance(e, ValueError))
        else:
            v.check('type of the aircraft file (%s)' % name, e is None and s.aircraft_is_cpacs is cpacs)
    V.run('file type', filetype)
    return V


def g_settings_file():
    mod = ps.load('fileio.native.settings')
    sm = ps.load('objects.settings')
    V = VC('settings file', ['native.settings.save', 'native.settings.clean_dict'])
    memo = {}

    def clean():
        v = ps.vc()
        log, rec, st = [], [], {}

        def key(k):
            u = Atom('key[%r]' % (term(k),))
            if st.setdefault(('hidden', term(k)), None) is None:
                st['hidden', term(k)] = v.choose('hidden', 'plain')
            s = Str([u])
            if st['hidden', term(k)] == 'hidden':
                return Str(['_', u])
            v.assume(~SB(tm.fn('startswith', s.t(), tm.strc('_'), sort='B')))
            return s

        def value(k):
            t = ('value', term(k))
            if t not in st:
                st[t] = {'group': {'a': 1}, 'number': U('x', k), 'list': [{'_b': 1}]}[v.choose('group', 'number', 'list')]
            return st[t]

        class First(Collect):
            def body(self, k, elem, loc, ch):
                kk, val = elem
                g = self.list
                new = () if g is None else g.new
                hid = kk.parts[0] == '_'
                v.check('internal entries are removed, no others', len(new) == hid and not log and (not hid or same(new[0], kk)))
                if isinstance(val, dict) and not hid:
                    v.check('groups are cleaned', len(rec) == 1 and rec[0] is val)
                v.check('only groups are cleaned', all(x is val for x in rec) and (isinstance(val, dict) or not rec))

            def probe_end(self, k, elem, loc, facts, key_):
                super().probe_end(k, elem, loc, facts, key_)

        class Second(Any):
            def begin(self, k, elem, loc):
                log.clear()

            def body(self, k, elem, loc, ch):
                v.check('each internal entry is deleted', log == [elem])

            def exit(self, n, loc):
                st['deleted'] = True
        first = First('entries', None, memo)

        class D(SymMap):
            def __delitem__(self, k):
                log.append(k)

            def pop(self, k, *a):
                log.append(k)
        d = D('entries', v.int('n', 0), key, value, spec=first, canon='items')

        def it(self):
            m = v.int('nhidden', 0)
            return iter(SymSeq('hidden entries', m, lambda k: Str(['_', Atom('key[%r]' % (U('hidden', k, sort='I').t,))]), Second()))
        keep = Grown.__iter__
        Grown.__iter__ = it
        try:
            with patched(mod, clean_dict=lambda x, *a, **k: (rec.append(x), x)[1]):
                r, e = raises(real, d)
        finally:
            Grown.__iter__ = keep
        v.check('no error', e is None)
        v.check('all internal entries are deleted', 'deleted' in st)
        v.check('the dictionary itself is cleaned and returned', r is d)
    real = mod.clean_dict
    V.run('clean', clean)

    def save():
        v = ps.vc()
        s = type('Settings', (), {})()
        s.settings = {'aircraft': 'a.json', '_epsilon': v.real('e'), 'plot': {'results': {'opt': ['cp'], '_x': 1}}, 'list': [1, 2]}
        snap = snapshot({'s': s.settings})
        orig = __import__('copy').deepcopy(s.settings)
        s.paths = lambda u: Path({'f_settings': '/P/settings/name.json'}[u])
        files, got = Files(), []

        def cd(d, *a, **k):
            got.append(__import__('copy').deepcopy(d))
            d.clear()
            return {'cleaned': 1}
        with native(mod, files, clean_dict=cd):
            r, e = raises(mod.save, s)
        v.check('no error', e is None)
        v.check('the settings object is not changed', not diff(snap) and set(s.settings) == set(orig))
        ok = len(files.dumped) == 1 and len(files.opened) == 1
        v.check('one file is written', ok)
        if ok:
            v.check('to the settings file of the project', files.opened[0].path == '/P/settings/name.json' and files.opened[0].mode in ('w', 'wt') and files.dumped[0][1] is files.opened[0])
            v.check('with all settings but the internal ones', files.dumped[0][0] == {'cleaned': 1} and len(got) == 1 and bool(exact(got[0], orig)))
    V.run('save', save)
    return V


# ---------------------------------------------------------------- I05
PLACES = {'d_aircraft': 'aircraft', 'd_airfoils': 'airfoils', 'd_deformation': 'deformation', 'd_settings': 'settings', 'd_state': 'state', 'd_plots_TOP': '_plots', 'd_results_TOP': '_results'}


class Places:
    """ProjectPaths: texts under identifiers, relative to the project folder"""
    made = []

    def __init__(self, root):
        self.root, self.at, self.groups, self.log = root, {}, {}, []
        Places.made.append(self)

    def add_path(self, uid, path, uid_groups=None, is_absolute=False):
        if uid in self.at:
            raise ValueError(uid)
        self.at[uid] = path
        for g in (uid_groups,) if isinstance(uid_groups, str) else uid_groups or ():
            self.groups.setdefault(g, []).append(uid)

    def add_subpath(self, uid_parent, uid, path, uid_groups=None):
        self.add_path(uid, text_join(self.at[uid_parent], path), uid_groups)

    def rm_dirs_for_groups(self, g):
        self.log.append(('rm', g))

    def make_dirs_for_groups(self, g, is_dir=True):
        self.log.append(('make', g))


def g_paths():
    sm = ps.load('objects.settings')
    nm = ps.load('fileio.native.settings')
    st_ = ps.load('fileio.native.state')
    run = ps.load('stdfun.run')
    V = VC('project paths', ['Settings.generate_paths', 'Settings.state_is_cpacs', 'Settings._check_aircraft_file_type', 'Settings.clean', 'native.settings.load', 'native.state.load', 'get_settings', 'clean_project_dir'])

    def blank():
        s = sm.Settings.__new__(sm.Settings)
        s.settings, s.paths, s.aircraft_is_cpacs = {}, None, None
        return s

    def places():
        v = ps.vc()
        s = blank()
        base, names = Str([Atom('base')]), {k: Str([Atom('name_' + k)]) for k in ('aircraft', 'state', 'deformation')}
        if v.choose(True, False):
            names['deformation'] = None
        s.project_dir, s.project_basename = Path('/P'), base
        s.settings = dict(names)
        snap = snapshot({'s': s.settings})
        Places.made.clear()
        with patched(sm, ProjectPaths=Places):
            r, e = raises(s.generate_paths)
        v.check('no error', e is None)
        v.check('one set of paths, in the project folder', len(Places.made) == 1 and s.paths is Places.made[0] and str(s.paths.root) == '/P')
        at = s.paths.at
        want = dict(PLACES)
        want.update(f_aircraft=Str(['aircraft/', names['aircraft']]), f_state=Str(['state/', names['state']]), f_settings=Str(['settings/', base, '.json']),
                    d_results=Str(['_results/', base, '_{counter:03d}']), d_plots=Str(['_plots/', base, '_{counter:03d}']))
        want.update({'f_results_' + k: Str(['_results/', base, '_{counter:03d}/' + f]) for k, f in (('global', 'global.json'), ('panelwise', 'panelwise.dat'), ('matrix', 'matrix.dat'))})
        want['f_results_apm_global'] = Str(['_results/', base, '_aeroperformance.json'])
        if names['deformation'] is not None:
            want['f_deformation'] = Str(['deformation/', names['deformation']])
        for k, x in want.items():
            v.check('place of %s' % k, k in at and same(at[k], x))
        for k in s.paths.groups.get('tmp', []):
            x = at[k]
            t = x.parts[0] if type(x) is Str else x
            v.check('%s: only generated output is temporary' % k, isinstance(t, str) and t.split('/')[0] in ('_results', '_plots') and '..' not in t)
        v.check('all results and plots are temporary', {'_results', '_plots'} <= {at[k] for k in s.paths.groups.get('tmp', []) if type(at[k]) is not Str})
        v.check('project folders are made', {'aircraft', 'airfoils', 'deformation', 'settings', 'state', '_results', '_plots'} <= {at[k] for k in s.paths.groups.get('dir', []) if type(at[k]) is not Str})
        v.check('the settings are not changed', not diff(snap))
    V.run('places', places)

    def clean():
        v = ps.vc()
        s = blank()
        s.paths = Places('/P')
        r, e = raises(run.clean_project_dir, s)
        v.check('only temporary folders are removed', e is None and s.paths.log in ([('rm', 'tmp')], [('rm', ('tmp',))], [('rm', ['tmp'])]))
    V.run('clean', clean)

    def kinds():
        v = ps.vc()
        s = blank()
        ext = v.choose('.xml', '.XML', '.Xml', '.json', '.JSON', '.txt', '', '.jsonx', '.xm')
        s.paths = lambda u: Path('/P/aircraft/a.b' + ext if ext else '/P/aircraft/ab') if u == 'f_aircraft' else None
        r, e = raises(s._check_aircraft_file_type)
        low = ext.lower()
        v.check('kind of the aircraft file', isinstance(e, ValueError) if low not in ('.xml', '.json') else e is None and s.aircraft_is_cpacs is (low == '.xml'))
        s = blank()
        s.aircraft_is_cpacs = v.choose(True, False)
        s.settings['state'] = v.choose('__CPACS', '__cpacs', '__Cpacs', 'st.json', 'my__CPACS', '_CPACS')
        r, e = raises(lambda: s.state_is_cpacs)
        if s.settings['state'].upper() != '__CPACS':
            v.check('a state file of its own is native', e is None and r is False)
        else:
            v.check('a state in the aircraft file needs a CPACS aircraft', (e is None and r is True) if s.aircraft_is_cpacs else isinstance(e, RuntimeError))
    V.run('kinds', kinds)

    def settings():
        v = ps.vc()
        d = v.choose('/P', '/P/settings', '/P/settings/settings', '/settings', '/P/my_settings', '/P/settings/x', '/P/Settings')
        name = v.choose('job.json', 'settings.json', 'a.b.json')
        made, content = [], {'aircraft': 'x.json'}
        files = Files(content=content)

        def S_(fn, wk, **k):
            made.append((fn, str(wk), k))
            return made[-1]
        import pathlib

        class There(type(pathlib.Path())):
            def exists(self, **k):
                return True
            is_file = exists
        with native(nm, files, Settings=S_, Path=There):
            r, e = raises(run.get_settings, d + '/' + name)
        v.check('no error', e is None)
        wk = d[:-len('/settings')] or '/' if d.endswith('/settings') else d
        v.check('one settings object is made', len(made) == 1 and r is made[0])
        if len(made) != 1:
            return
        v.check('name of the settings file', made[0][0] == name)
        v.check('project folder: the parent of a folder "settings", else the folder of the file', made[0][1] == wk)
        v.check('with the contents of the file', made[0][2].get('settings_dict') is content and [f.path for f in files.opened] == [d + '/' + name])
        v.check('folders are made and the aircraft file is checked', made[0][2].get('make_dirs', True) is True and made[0][2].get('check_ac_file_type', True) is True)
    V.run('settings', settings)

    def state():
        v = ps.vc()
        there = v.choose(True, False)
        content = {'aero': {'alpha': 1}}
        files = Files(exists=there, content=content)
        s = blank()
        s.paths = lambda u: Path({'f_state': '/P/state/st.json'}[u])
        got = []

        class State:
            def update_from_dict(self, **k):
                got.append((self, k))
        with native(st_, files, FlightState=State):
            r, e = raises(st_.load, s)
        if not there:
            v.check('a missing state file is an error', isinstance(e, OSError) and not got)
            return
        v.check('the flight conditions are those of the file', e is None and len(got) == 1 and got[0][0] is r and got[0][1] == {'aero': {'alpha': 1}} and [f.path for f in files.opened] == ['/P/state/st.json'])
    V.run('state', state)
    return V

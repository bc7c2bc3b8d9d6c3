"""I03, I04, K01: result files, project template, CPACS tables"""
import copy
import inspect
import os
import re

import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, VCError, S, SB, Str, Atom, SymSeq, U, raises, same, snapshot, diff, term
from contracts.files import Path, Files, native, patched, T, exact, sub, Os
from contracts.wing import Any

PANELWISE = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')


# ---------------------------------------------------------------- arrays that are written
class Col:
    """one value per panel"""
    ndim = 1

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.shape = (n,)

    def __len__(self):
        raise VCError('length')

    def __vclen__(self):
        return self.n

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        if len(sh) == 2 and sh[1] == 1 and (sh[0] == -1 or bool(same(sh[0], self.n))):
            return Table([self], self.n)
        raise VCError('reshape')

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] is None:
            return Table([self], self.n)
        raise VCError('indexing')


class Block:
    """square matrix"""
    ndim = 2

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.shape = (n, n)

    def __vclen__(self):
        return self.n


class Table:
    """columns side by side, n rows"""
    ndim = 2

    def __init__(self, cols, n, rows=False):
        self.cols, self.n, self.rows = cols, n, rows

    @property
    def T(self):
        return Table(self.cols, self.n, not self.rows)

    def transpose(self):
        return self.T


def parts(xs):
    out, n = [], None
    for x in xs:
        if isinstance(x, Table):
            if x.rows:
                raise VCError('rows and columns')
            out += x.cols
        elif isinstance(x, (Col, Block)):
            out.append(x)
        else:
            raise VCError('not a ghost array')
        n = x.n
    return out, n


def stack(arrays, axis=0, **k):
    arrays = list(arrays)
    if not all(isinstance(x, Col) for x in arrays):
        raise VCError('stack')
    if axis in (-1, 1):
        return Table(arrays, arrays[0].n)
    return Table(arrays, arrays[0].n, rows=True)


def beside(arrays, axis=0, **k):
    arrays = list(arrays)
    if axis not in (1, -1) or any(isinstance(x, Col) for x in arrays):
        raise VCError('concatenation')
    return Table(*parts(arrays))


def hooks(saved):
    sig = inspect.signature(np.savetxt)

    def savetxt(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        saved.append(dict(b.arguments))

    def array(x, *a, **k):
        return stack(x)
    return {'stack': stack, 'vstack': stack, 'column_stack': lambda xs: Table(*parts(list(xs))), 'concatenate': beside, 'hstack': lambda xs: beside(xs, axis=1),
            'transpose': lambda x: x.T if isinstance(x, Table) else stack(x).T, 'savetxt': savetxt, 'append': lambda a, b, axis=None: beside([a, b], axis=axis), 'c_': type('C', (), {'__getitem__': lambda s, xs: Table(*parts(list(xs)))})()}


def precise(fmt):
    """values can be recovered from the text to six digits"""
    try:
        return all(abs(float((fmt % x)) - x) <= 1e-5 * abs(x) for x in (1.2345678e-9, -9.8765432e3, 7.0, 3.3333333e12))
    except (TypeError, ValueError):
        return False


def settings_of(paths, save):
    st = type('Settings', (), {})()
    st.settings = {'save_results': save}
    st.paths = lambda u, **k: Path('/P/' + paths[u] if u in paths else '/P/other/' + u)
    return st


NAMES = {'f_results_global': 'global.json', 'f_results_panelwise': 'panelwise.dat', 'f_results_matrix': 'matrix.dat', 'f_results_apm_global': 'apm.json'}


# ---------------------------------------------------------------- I03
def g_results():
    mod = ps.load('fileio.native.results')
    stm = ps.load('objects.state')
    V = VC('results', ['save_all', '_save_glob_results', '_save_panelwise', '_save_matrix_system', 'save_aeroperformance_map'])

    def go():
        v = ps.vc()
        save = {k: v.choose(True, False) for k in ('global', 'panelwise', 'matrix_system')}
        save['aeroperformance'] = v.choose(True, False)
        st = settings_of(NAMES, save)
        n = v.int('n', 1)
        cs = stm.CurrentState()
        cs.aero = {k: v.real(k) for k in stm.STATE_PRIMARY_PARAMS}
        cs.refs = {'area': v.real('area'), 'gcenter': np.array([v.real('g%d' % i) for i in range(3)], dtype=object), 'span': v.real('span')}
        d = type('VLMData', (), {})()
        d.forces = {k: v.real('f' + k) for k in 'xyzDCLlmn'}
        d.coeffs = {k: v.real('c' + k) for k in 'xyzDCLlmn'}
        d.panelwise = {k: Col(k, n) for k in PANELWISE + ('other',)}
        d.matrix_downwash = Block('matrix', n)
        d.array_rhs = Col('rhs', n)
        snap = snapshot({'state': cs, 'data': d})
        files, saved = Files(), []
        h = ps.npx().hooks
        keep = dict(h)
        h.update(hooks(saved))
        ps.npx().__dict__['array'] = lambda x, *a, **k: stack(x) if isinstance(x, (list, tuple)) and x and isinstance(x[0], Col) else type(ps.npx()).array(ps.npx(), x, *a, **k)
        try:
            with native(mod, files):
                r, e = raises(mod.save_all, st, object(), cs, d)
        finally:
            h.clear()
            h.update(keep)
            ps.npx().__dict__.pop('array', None)
        v.check('no error', e is None)
        if e is not None:
            return
        v.check('writing does not change the results', not diff(snap))
        names = [f.path for f in files.opened] + [str(x['fname']) for x in saved]
        exp = [p for k, p in (('global', 'global.json'), ('panelwise', 'panelwise.dat'), ('matrix_system', 'matrix.dat')) if save[k]]
        v.check('exactly the requested files are written', sorted(names) == sorted('/P/' + x for x in exp))
        v.check('contents are written to the files opened', all(fp in files.opened and fp.mode in ('w', 'wt') for _, fp in files.dumped) and len(files.dumped) == len(files.opened))
        for o, fp in files.dumped:
            v.check('global file: operating conditions', T('aero' in o and exact(o['aero'], cs.aero)))
            v.check('global file: references', T('refs' in o and exact(o['refs'], cs.refs)))
            v.check('global file: forces', T('global_forces' in o and exact(o['global_forces'], d.forces)))
            v.check('global file: coefficients', T('global_coeffs' in o and exact(o['global_coeffs'], d.coeffs)))
        for x in saved:
            nm = os.path.basename(str(x['fname']))
            X = x['X']
            ok = isinstance(X, Table) and not X.rows
            v.check('%s: one row per panel' % nm, T(ok, ok and same(X.n, n)))
            if not ok:
                continue
            c = [y.name for y in X.cols]
            fm = x['fmt']
            fm = [fm] if isinstance(fm, str) else list(fm)
            single = len(fm) == 1 and isinstance(x['fmt'], str)
            v.check('%s: numbers are written with sufficient digits' % nm, (single or len(fm) == len(c)) and all(precise(f) for f in fm))
            v.check('%s: rows are lines of comma separated numbers, the header is a comment' % nm, x['newline'] == '\n' and x['delimiter'].strip() in (',',) and x['comments'].startswith('#') and not x['footer'])
            if nm == 'panelwise.dat':
                v.check('panel file: columns are those named in the header', re.findall(r'([A-Za-z]\w*)\s*\[', x['header']) == c and '\n' not in x['header'])
                v.check('panel file: all quantities', set(PANELWISE) <= set(c))
            else:
                v.check('matrix file: influence matrix, then right-hand side', c == ['matrix', 'rhs'])
    V.run('save_all', go)

    def table():
        v = ps.vc()
        st = settings_of(NAMES, {})
        state = stm.FlightState()
        n = v.int('n', 1)
        vals = {}
        for k in state.aero:
            if k in ('mach', 'altitude') and v.choose(True, False):
                continue
            vals[k] = state.aero[k] = SymSeq(k, n, lambda i, k=k: U('aero_' + k, i))
        for k in state.results:
            vals[k] = state.results[k] = SymSeq(k, n, lambda i, k=k: U('result_' + k, i))
        snap = snapshot({'a': state.aero, 'r': state.results})
        files = Files()
        with native(mod, files):
            r, e = raises(mod.save_aeroperformance_map, state, st)
        v.check('no error', e is None)
        v.check('writing does not change the results', not diff(snap))
        ok = len(files.dumped) == len(files.opened) == 1 and files.opened[0].path == '/P/apm.json' and files.opened[0].mode in ('w', 'wt') and files.dumped[0][1] is files.opened[0]
        v.check('the table is written to its file', ok)
        if not ok:
            return
        o = files.dumped[0][0]
        i = v.int('i', 0)
        v.assume(i < n)
        for k in list(state.aero) + list(state.results):
            if k not in vals:
                v.check('a condition that is not given is empty', k not in o or o[k] in ([], None))
                continue
            x = o.get(k)
            v.check('%s: one value per entry' % k, T(isinstance(x, SymSeq), isinstance(x, SymSeq) and same(x.n, n)))
            if isinstance(x, SymSeq):
                v.check('%s: value of the entry' % k, same(x.elem(i), vals[k].elem(i)))
        v.check('no other columns', set(o) <= set(state.aero) | set(state.results))
    V.run('table', table)
    return V


# ---------------------------------------------------------------- I04
def g_template():
    mod = ps.load('stdfun.setup')
    sm = ps.load('objects.settings')
    stm = ps.load('objects.state')
    V = VC('template', ['setup_wkdir'])

    def go():
        v = ps.vc()
        exists = v.choose(True, False)
        source = v.choose(None, '/DB/aircraft/N.250.json', '/DB/x/Aircraft.json')
        log = []
        ROOT = '/CWD/pytornado'

        class OsP:
            @staticmethod
            def abspath(p):
                return os.path.join('/CWD', os.fspath(p))

            @staticmethod
            def exists(p):
                v.check('existence of the target folder is asked', OsP.abspath(p) == ROOT)
                return exists
            isdir = lexists = exists

            def __getattr__(self, nm):
                return getattr(os.path, nm)

        class OsM:
            path = OsP()

            @staticmethod
            def getcwd():
                return '/CWD'

            @staticmethod
            def makedirs(p, *a, **k):
                ok = bool(k.get('exist_ok', a[1:] and a[1]))
                if OsP.abspath(p) == ROOT and exists and not ok:
                    raise FileExistsError(ROOT)
                log.append(('mkdir', OsP.abspath(p), ok))
            mkdir = makedirs

            def __getattr__(self, nm):
                def f(*a, **k):
                    log.append(('other', nm, a))
                return f

        class Shutil:
            @staticmethod
            def copy(a, b, *c, **k):
                log.append(('copy', str(a), str(b)))
            copy2 = copyfile = copy

            def __getattr__(self, nm):
                def f(*a, **k):
                    log.append(('other', nm, a))
                return f

        class Settings:
            def __init__(self, settings_filename, project_dir, *, settings_dict=None, make_dirs=True, check_ac_file_type=True):
                log.append(('settings', OsP.abspath(project_dir), make_dirs))
                self.base = os.path.splitext(settings_filename)[0]
                self.settings = {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4, 'save_results': {'global': False},
                                 'plot': {'geometry': {'opt': []}, 'results': {'opt': [], 'show': False, 'save': False}}}
                v.check('file type is not checked while there is no aircraft file', not check_ac_file_type or (settings_dict or {}).get('aircraft'))
                if settings_dict:
                    self.settings.update(settings_dict)
                self.generate_paths()

            def generate_paths(self):
                self.named = {k: self.settings[k] for k in ('aircraft', 'state')}

            def paths(self, u, **k):
                return Path(ROOT + {'f_aircraft': '/aircraft/%s' % self.named['aircraft'], 'd_aircraft': '/aircraft', 'f_state': '/state/%s' % self.named['state'], 'd_state': '/state', 'f_settings': '/settings/%s.json' % self.base,
                                    'root': ''}[u])
        class P(__import__('pathlib').PurePosixPath):
            def exists(self, **k):
                return OsP.exists(self)
            is_dir = exists

            def absolute(self):
                return P(OsP.abspath(self))
            resolve = absolute

            def mkdir(self, mode=0o777, parents=False, exist_ok=False):
                OsM.makedirs(self, exist_ok=exist_ok)

            @classmethod
            def cwd(cls):
                return P('/CWD')
        loaded = object()

        def rec(kind, what):
            def f(*a):
                s = a[-1]
                obj = a[0]
                log.append((kind, what, str(s.paths('f_' + what)), obj, copy.deepcopy(s.settings), copy.deepcopy(obj.aero) if what == 'state' else None))
                return loaded
            return staticmethod(f)
        io = type('Io', (), {})
        io.native = type('Native', (), {})
        for w in ('settings', 'state', 'aircraft'):
            setattr(io.native, w, type(w, (), {'save': rec('save', w), 'load': rec('load', w)}))

        class Sys:
            stderr = stdout = None

            @staticmethod
            def exit(*a):
                raise SystemExit(*a)
        code = ()
        with patched(mod, os=OsM(), shutil=Shutil(), Settings=Settings, io=io, sys=Sys, print=lambda *a, **k: None, **({'Path': P} if hasattr(mod, 'Path') else {})):
            try:
                r, e = raises(mod.setup_wkdir, source)
            except SystemExit as x:
                code = (x.code,)
                r = e = None
        if exists:
            v.check('existing folder: nothing is done', log == [])
            v.check('existing folder: error status', e is not None or (len(code) == 1 and code[0] not in (None, 0, False)))
            return
        v.check('no error', e is None and not code)
        if e is not None or code:
            return
        v.check('the folder is made first', bool(log) and log[0][:2] == ('mkdir', ROOT) or (bool(log) and log[0] == ('settings', ROOT, True)))
        v.check('settings, with their folders, for this project', [x for x in log if x[0] == 'settings'] and all(x[1:] == (ROOT, True) for x in log if x[0] == 'settings'))
        v.check('no other file operations', not [x for x in log if x[0] == 'other' or x[0] == 'mkdir' and not x[1].startswith(ROOT)])
        sv = {x[1]: (i, x) for i, x in enumerate(log) if x[0] == 'save'}
        v.check('settings, state and aircraft are written once', sorted(x[1] for x in log if x[0] == 'save') == ['aircraft', 'settings', 'state'])
        if len(sv) != 3:
            return
        fin = sv['settings'][1][4]
        v.check('the settings name the aircraft file', isinstance(fin['aircraft'], str) and sv['aircraft'][1][2] == ROOT + '/aircraft/' + fin['aircraft'] and fin['aircraft'].endswith('.json'))
        v.check('the settings name the state file', isinstance(fin['state'], str) and sv['state'][1][2] == ROOT + '/state/' + fin['state'] and fin['state'].endswith('.json'))
        stem = 'template' if source is None else os.path.splitext(os.path.basename(source))[0]
        v.check('the settings file has the name of the project', sv['settings'][1][2] == ROOT + '/settings/%s.json' % stem)
        fs = stm.FlightState()
        _, e = raises(fs.update_from_dict, {k: copy.deepcopy(x) for k, x in sv['state'][1][5].items()})
        v.check('the state can be loaded again', e is None and fs.num_apm_entries == 1)
        full = sm.get_default_dict(sm.DEFAULT_SETTINGS)
        full.update({k: x for k, x in fin.items() if k in ('aircraft', 'state', 'deformation', 'vlm_autopanels_c', 'vlm_autopanels_s')})
        full['plot']['results'].update(fin['plot']['results'])
        x = sm.Settings.__new__(sm.Settings)
        x.settings = full
        _, e = raises(x._check_settings_dict)
        v.check('the settings can be loaded again', e is None)
        cp = [(i, x) for i, x in enumerate(log) if x[0] == 'copy']
        obj = sv['aircraft'][1][3]
        if source is None:
            v.check('nothing is copied', not cp)
            v.check('an aircraft with a wing and a segment is written', len(obj.wings) == 1 and [len(w.segments) for w in obj.wings.values()] == [1])
        else:
            ok = len(cp) == 1 and cp[0][1][1] == source and cp[0][1][2] in (ROOT + '/aircraft', ROOT + '/aircraft/' + os.path.basename(source))
            v.check('the aircraft file is copied into the project', ok)
            ld = [(i, x) for i, x in enumerate(log) if x[0] == 'load']
            ok = ok and len(ld) == 1 and ld[0][1][1] == 'aircraft' and ld[0][0] > cp[0][0] and ld[0][1][2] == ROOT + '/aircraft/' + os.path.basename(source)
            v.check('the copy is read', ok)
            v.check('the aircraft that was read is written', obj is loaded)
        v.check('the project folder is returned', OsP.abspath(r) == ROOT)
    V.run('setup_wkdir', go)
    return V


# ---------------------------------------------------------------- K01
class Tixi:
    """ghost CPACS document"""

    def __init__(self, v, one):
        self.v, self.one, self.log = v, one, []
        self.apm = Atom('path_of_map')

    def getNumberOfChilds(self, p):
        self.v.check('aeroperformance maps are counted', p == '/cpacs/vehicles/aircraft/model/analyses/aeroPerformance')
        n = self.v.int('maps', 0)
        self.v.assume(n == 1 if self.one else n != 1)
        return n

    def getTextAttribute(self, p, a):
        self.v.check('identifier of the only map', self.one and p == '/cpacs/vehicles/aircraft/model/analyses/aeroPerformance/aeroMap' and a == 'uID')
        return Str([Atom('map_uid')])

    def getTextElement(self, p):
        self.v.check('identifier of the chosen map, if there are several', not self.one and p == '/cpacs/toolspecific/pytornado/aeroMapUID')
        return Str([Atom('map_uid')])

    def uIDGetXPath(self, u):
        self.v.check('path of the map', same(u, Str([Atom('map_uid')])))
        return Str([self.apm])


def partitions(n):
    if n == 0:
        return [()]
    out = []
    for p in partitions(n - 1):
        for c in range(max(p, default=-1) + 2):
            out.append(p + (c,))
    return out


MAP_IN = {'altitude': 'altitude', 'machNumber': 'mach', 'angleOfAttack': 'alpha', 'angleOfSideslip': 'beta'}
MAP_OUT = {'cl': 'CL', 'cd': 'CD', 'cs': 'CC', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}


def g_cpacs():
    sm, rm, um = ps.load('fileio.cpacs.state', 'fileio.cpacs.results', 'fileio.cpacs.utils')
    V = VC('cpacs', ['_get_aero_dict_from_APM', 'cpacs.state.load', 'cpacs.results.save_aeroperformance_map', 'add_vector', 'modify_cpacs', 'open_tixi', 'close_tixi', '_XPaths.APM', '_XPaths._get_uid_apm'])

    def read():
        v = ps.vc()
        t = Tixi(v, v.choose(True, False))
        part = v.choose(*partitions(4))
        ns = [v.int('n%d' % i, 1) for i in range(max(part) + 1)]
        for i in range(len(ns)):
            for j in range(i):
                v.assume(ns[i] != ns[j])
        size = {Str([t.apm, '/aeroPerformanceMap/' + c]): (c, ns[part[i]]) for i, c in enumerate(MAP_IN)}

        def getVectorSize(p):
            v.check('size of a vector of the map', p in size)
            return size[p][1]

        def getFloatVector(p, n):
            v.check('vector of the map, all of its values', T(p in size, same(n, size[p][1])))
            return SymSeq(size[p][0], n, lambda k: U('cpacs_' + size[p][0], k))
        t.getVectorSize, t.getFloatVector = getVectorSize, getFloatVector
        r, e = raises(sm._get_aero_dict_from_APM, t)
        if max(part):
            v.check('vectors of different length are rejected', isinstance(e, ValueError))
            return
        v.check('vectors of the same length are accepted', e is None)
        if e is not None:
            return
        v.check('flight conditions', set(r) == {'aero'} and set(r['aero']) == set(MAP_IN.values()) | {'rate_P', 'rate_Q', 'rate_R'})
        k = v.int('k', 0)
        v.assume(k < ns[0])
        for c, nm in MAP_IN.items():
            x = r['aero'].get(nm)
            ok = isinstance(x, SymSeq)
            v.check('%s: one value per entry' % nm, T(ok, ok and same(x.n, ns[0])))
            v.check('%s: the value of the entry' % nm, T(ok, ok and same(x.elem(k), U('cpacs_' + c, k))))
        for nm in ('rate_P', 'rate_Q', 'rate_R'):
            x = r['aero'].get(nm)
            ok = isinstance(x, SymSeq)
            v.check('%s: zero for every entry' % nm, T(ok, ok and same(x.n, ns[0]), ok and same(x.elem(k), 0)))
    V.run('read', read)

    def load():
        v = ps.vc()
        there = v.choose(True, False)
        log = []

        class F(Path):
            def is_file(self):
                return there
        st = type('Settings', (), {})()
        st.paths = lambda u: F({'f_aircraft': '/P/aircraft/a.xml'}[u])

        class State:
            def update_from_dict(self, **k):
                log.append(('state', self, k))
        tok = object()
        d = {'aero': {'alpha': 1}}
        with patched(sm, open_tixi=lambda p: (log.append(('open', str(p))), tok)[1], _get_aero_dict_from_APM=lambda t: (v.check('the table of this document', t is tok), d)[1], FlightState=State):
            r, e = raises(sm.load, st)
        if not there:
            v.check('a missing file is an error', e is not None and not log)
            return
        v.check('the state is made from the table of the document', e is None and log[0] == ('open', '/P/aircraft/a.xml') and len(log) == 2 and log[1][1] is r and log[1][2] == d)
    V.run('load', load)

    def write():
        v = ps.vc()
        n = v.int('n', 1)
        state = type('State', (), {})()
        stm = ps.load('objects.state')
        state.results = {k: SymSeq(k, n, lambda i, k=k: U('result_' + k, i)) for k in stm.GLOBAL_COEFFS}
        snap = snapshot({'r': state.results})
        t = Tixi(v, v.choose(True, False))
        log, ctx = [], []

        class Mod:
            def __enter__(self):
                ctx.append('open')
                return t

            def __exit__(self, *a):
                ctx.append('close')
        files = []

        def add(tixi, xpath, vector):
            log.append((tixi, xpath, vector, list(ctx)))
        st = type('Settings', (), {})()
        st.paths = lambda u: Path({'f_aircraft': '/P/aircraft/a.xml'}[u])
        with patched(rm, modify_cpacs=lambda f: (files.append(str(f)), Mod())[1], add_vector=add, truncate_filepath=lambda p: str(p)):
            r, e = raises(rm.save_aeroperformance_map, state, st)
        v.check('no error', e is None)
        v.check('the document is the aircraft file', files == ['/P/aircraft/a.xml'])
        v.check('vectors are written while the document is open, it is closed at the end', ctx == ['open', 'close'] and all(c == ['open'] and x is t for x, _, _, c in log))
        got = {p: x for _, p, x, _ in log}
        v.check('one vector per coefficient', len(log) == len(got) == 6)
        i = v.int('i', 0)
        v.assume(i < n)
        for c, nm in MAP_OUT.items():
            p = Str([t.apm, '/aeroPerformanceMap/' + c])
            x = got.get(p)
            ok = isinstance(x, SymSeq)
            v.check('%s is written as %s' % (nm, c), T(ok, ok and same(x.n, n), ok and same(x.elem(i), U('result_' + nm, i))))
        v.check('results are not changed', not diff(snap))
    V.run('write', write)

    def vector():
        v = ps.vc()
        a = Atom('parent')
        slash = v.choose('', '/')
        name = v.choose('cl', 'cms', 'x')
        path = Str([a, '/aeroPerformanceMap/' + name])
        there = v.choose(True, False)
        log = []
        n = v.int('n', 0)
        vec = SymSeq('vector', n, lambda k: U('x', k))

        class Doc:
            def checkElement(self, p):
                v.check('the vector itself is looked for', same(p, path))
                return there

            def updateFloatVector(self, p, x, m, format='%g'):
                log.append(('update', p, None, x, m))

            def addFloatVector(self, p, c, x, m, format='%g'):
                log.append(('add', p, c, x, m))
        r, e = raises(um.add_vector, Doc(), Str([a, '/aeroPerformanceMap/' + name + slash]), vec)
        v.check('no error', e is None)
        v.check('one vector is written', len(log) == 1)
        if len(log) != 1:
            return
        k, p, c, x, m = log[0]
        if there:
            v.check('an existing vector is replaced', T(k == 'update', same(p, path)))
        else:
            v.check('a missing vector is added under its parent, with its name', T(k == 'add', same(p, Str([a, '/aeroPerformanceMap'])), c == name))
        v.check('all of its values', T(x is vec, same(m, n)))
    V.run('add_vector', vector)

    def modify():
        v = ps.vc()
        log = []
        fail = v.choose(None, ValueError, KeyError, KeyboardInterrupt)

        class Doc:
            def open(self, p):
                log.append(('open', p))

            def saveDocument(self, p):
                log.append(('save', p))

            def close(self):
                log.append(('close',))
        docs = []

        def Tx():
            docs.append(Doc())
            return docs[-1]
        wr = type('W', (), {'Tixi': staticmethod(Tx), 'TixiException': type('TE', (Exception,), {})})
        out = []
        with patched(um, TIXI_INSTALLED=True, tixiwrapper=wr):
            try:
                with um.modify_cpacs(Path('/P/a.xml')) as t:
                    v.check('the opened document is handed out', docs == [t] and log == [('open', '/P/a.xml')] and type(log[0][1]) is str)
                    if fail:
                        raise fail('x')
            except BaseException as e:
                if isinstance(e, (VCError, AssertionError)):
                    raise
                out.append(type(e))
        v.check('the document is saved and closed, also after a failure', log[1:] == [('save', '/P/a.xml'), ('close',)])
        v.check('a failure is passed on', out == ([fail] if fail else []))
    V.run('modify', modify)

    def missing():
        v = ps.vc()
        with patched(um, TIXI_INSTALLED=False):
            r, e = raises(um.open_tixi, 'x')
        v.check('without the CPACS library there is an error', isinstance(e, ModuleNotFoundError))
    V.run('missing', missing)
    return V

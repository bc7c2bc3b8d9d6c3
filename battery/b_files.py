"""files: aircraft, settings, results, project template, CPACS tables"""
import copy
import io as _io
import json
import os
import sys

import numpy as np
import model as M
from b_state import table, lists, RES


# ---------------------------------------------------------------- I01
def native_load(path):
    from pytornado.fileio.native import settings as ns, aircraft as na
    s = ns.load(path)
    return s, na.load(s)


def eq(a, b):
    return a is b or json.dumps(M.plain(a), sort_keys=True) == json.dumps(M.plain(b), sort_keys=True)


UNSET_P = {'num_c': None, 'num_s': None}


def model_of(ac):
    """values of a loaded model that the file states"""
    return {'uid': ac.uid, 'refs': dict(ac.refs), 'wings': [
        {'uid': w.uid, 'symmetry': w.symmetry,
         'segments': [{'uid': s.uid, 'vertices': {k: M.plain(v) for k, v in s.vertices.items()}, 'airfoils': dict(s.airfoils), 'panels': {k: s.panels[k] for k in ('num_c', 'num_s')}}
                      for s in w.segments.values()],
         'controls': [{'uid': c.uid, 'device_type': c.device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror, 'segment_uid': dict(c.segment_uid),
                       'rel_vertices': dict(c.rel_vertices), 'rel_hinge_vertices': dict(c.rel_hinge_vertices), 'panels': c.panels.get('num_c')} for c in w.controls.values()]}
        for w in ac.wings.values()]}


def expected(d, root):
    out = {'uid': d['uid'], 'refs': dict(REFS, **d['refs']), 'wings': []}
    for w in d['wings']:
        we = {'uid': w['uid'], 'symmetry': w['symmetry'], 'segments': [], 'controls': []}
        for s in w['segments']:
            foils = {k: (os.path.join(root, v) if v.startswith('airfoils') else v) for k, v in s['airfoils'].items()}
            we['segments'].append({'uid': s['uid'], 'vertices': s['vertices'], 'airfoils': foils, 'panels': dict(UNSET_P, **(s.get('panels') or {}))})
        for c in w.get('controls', []):
            we['controls'].append(dict({k: c[k] for k in ('uid', 'device_type', 'deflection', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices')},
                                       deflection_mirror=c['deflection'] if c.get('deflection_mirror') is None and w['symmetry'] else c.get('deflection_mirror'), panels=(c.get('panels') or {}).get('num_c')))
        out['wings'].append(we)
    return out


REFS = {'area': None, 'span': None, 'chord': None, 'gcenter': None, 'rcenter': None, 'comment': None}


def first_diff(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return at + '/%s' % k, a.get(k, '(missing)'), b.get(k, '(missing)')
            d = first_diff(a[k], b[k], at + '/%s' % k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return at, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, at + '[%d]' % i)
            if d:
                return d
        return None
    return None if eq(a, b) else (at, a, b)


def random_file(r):
    ac = M.aircraft(r)
    d = M.ac_dict(ac)
    foil = False
    for w in d['wings']:
        for s in w['segments']:
            if r.random() < 0.2:
                s['airfoils'][str(r.choice(['inner', 'outer']))] = 'airfoils/blade.X%d.dat' % int(r.integers(0, 3))
                foil = True
            x = r.random()
            if x < 0.25:
                s.pop('panels', None)
            elif x < 0.4:
                s['panels'] = None
            elif x < 0.5:
                s['panels'] = {'num_s': int(r.integers(1, 9))}
            elif x < 0.6:
                s['panels'] = {'num_c': int(r.integers(1, 9))}
            else:
                s['panels'] = {'num_c': int(r.integers(1, 9)), 'num_s': int(r.integers(1, 9))}
        for c in w['controls']:
            x = r.random()
            if x < 0.25:
                c.pop('panels', None)
            elif x < 0.4:
                c['panels'] = None
            elif x < 0.7:
                c['panels'] = {'num_c': int(r.integers(1, 9))}
            if w['symmetry'] == 0 and r.random() < 0.5:
                c.pop('deflection_mirror', None)
        if not w['controls'] and r.random() < 0.5:
            del w['controls']
    if r.random() < 0.3:
        d['refs'].pop('comment', None)
    return d, foil


def _foil():
    x = [1.0, 0.95, 0.8, 0.6, 0.4, 0.25, 0.1, 0.05, 0.0125, 0.0]
    t = lambda q: 0.6 * (0.2969 * q ** .5 - 0.126 * q - 0.3516 * q * q + 0.2843 * q ** 3 - 0.1015 * q ** 4)
    return 'X\n' + '\n'.join('%.6f %.6f' % (q, t(q) + 0.04 * q * (1 - q)) for q in x) + '\n' + '\n'.join('%.6f %.6f' % (q, 0.04 * q * (1 - q) - t(q)) for q in x[::-1][1:]) + '\n'


FOIL = _foil()


def load(ctx):
    """I01: the model has exactly the components and values of the file"""
    r = ctx.rng()
    for _ in range(30 * ctx.scale):
        d, foil = random_file(r)
        p = M.project(d, {})
        root = os.path.dirname(os.path.dirname(p))
        if foil:
            for k in range(3):
                with open(os.path.join(root, 'airfoils', 'blade.X%d.dat' % k), 'w') as f:
                    f.write(FOIL)
        ctx.count()
        ctx.current = {'aircraft file': d}
        s, ac = native_load(p)
        got, want = model_of(ac), expected(d, os.path.realpath(root))
        if not ac.state or not all(q.state for w in ac.wings.values() for q in w.segments.values()):
            ctx.fail('model is generated', {'aircraft file': d}, True, False, 'generated')
        x = first_diff(want, got)
        if x:
            ctx.fail('loaded model differs from the file', {'aircraft file': d}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'load')
        if [w for w in ac.wings] != [w['uid'] for w in d['wings']] or any(list(w.controls) != [c['uid'] for c in e.get('controls', [])] or
                                                                         list(w.segments) != [q['uid'] for q in e['segments']] for w, e in zip(ac.wings.values(), d['wings'])):
            ctx.fail('component order', {'aircraft file': d}, 'file order', repr(list(ac.wings)), 'order')
        with open(os.path.join(root, 'aircraft', 'ac.json')) as f:
            if json.load(f) != json.loads(json.dumps(d)):
                ctx.fail('loading changed the file', {'aircraft file': d}, 'same file', 'changed', 'touch')
        M.drop(p)
    for k in range(3):
        p = M.project(M.ac_dict(M.aircraft(r)), {})
        root = os.path.dirname(os.path.dirname(p))
        os.remove(os.path.join(root, 'aircraft', 'ac.json'))
        ctx.count()
        try:
            native_load(p)
        except (IOError, OSError):
            pass
        else:
            ctx.fail('missing aircraft file', {'file': 'aircraft/ac.json does not exist'}, 'error', 'model returned', 'missing')
        M.drop(p)


def save(ctx):
    """I01: save and load again gives the same model; saving leaves the model alone"""
    from pytornado.fileio.native import aircraft as na
    r = ctx.rng()
    for _ in range(25 * ctx.scale):
        d, foil = random_file(r)
        p = M.project(d, {})
        root = os.path.dirname(os.path.dirname(p))
        if foil:
            for k in range(3):
                with open(os.path.join(root, 'airfoils', 'blade.X%d.dat' % k), 'w') as f:
                    f.write(FOIL)
        ctx.count()
        ctx.current = {'aircraft file': d}
        s, ac = native_load(p)
        before = model_of(ac)
        na.save(ac, s)
        x = first_diff(before, model_of(ac))
        if x:
            ctx.fail('saving changed the model', {'aircraft file': d}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'save-touch')
        s2, ac2 = native_load(p)
        x = first_diff(before, model_of(ac2))
        if x:
            ctx.fail('model differs after save and load', {'aircraft file': d}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'roundtrip')
        if [list(w.segments) + list(w.controls) for w in ac2.wings.values()] != [list(w.segments) + list(w.controls) for w in ac.wings.values()] or list(ac.wings) != list(ac2.wings):
            ctx.fail('component order after save and load', {'aircraft file': d}, repr(list(ac.wings)), repr(list(ac2.wings)), 'roundtrip-order')
        if foil:
            with open(os.path.join(root, 'aircraft', 'ac.json')) as f:
                out = json.load(f)
            for w, w0 in zip(out['wings'], d['wings']):
                for q, q0 in zip(w['segments'], w0['segments']):
                    if q['airfoils'] != q0['airfoils']:
                        ctx.fail('airfoil entry of the saved file', {'aircraft file': d}, q0['airfoils'], q['airfoils'], 'foil')
        M.drop(p)
    # a model built by hand, never generated, with arrays as vertices
    for _ in range(8 * ctx.scale):
        from pytornado.fileio.native import settings as ns
        ac = M.aircraft(r)
        for w in ac.wings.values():
            for q in w.segments.values():
                if r.random() < 0.5:
                    for k in 'abcd':
                        q.vertices[k] = np.array(q.vertices[k])
        want = model_of(ac)
        p = M.project({}, {})
        s = ns.load(p)
        ctx.count()
        ctx.current = {'model': M.ac_dict(ac)}
        na.save(ac, s)
        s2, ac2 = native_load(p)
        for w in want['wings']:
            for c in w['controls']:
                if c['deflection_mirror'] is None and w['symmetry']:
                    c['deflection_mirror'] = c['deflection']
        x = first_diff(want, model_of(ac2))
        if x:
            ctx.fail('model differs after save and load', {'model': M.ac_dict(ac)}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'built')
        M.drop(p)


# ---------------------------------------------------------------- I02
PLOT = {'opt': [], 'show': False, 'save': False}


def defaults():
    p = {k: copy.deepcopy(PLOT) for k in ('geometry', 'lattice', 'matrix_downwash', 'results')}
    p['results']['opt'] = ['cp']
    return {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4,
            'save_results': {'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False}, 'plot': p,
            '_do_normal_rotations': True, '_deformation_check': True, '_epsilon': 1e-6}


def random_settings(r):
    d = {'aircraft': str(r.choice(['a.json', 'b.xml', 'C.JSON', 'x.y.json'])), 'state': str(r.choice(['s.json', '__CPACS', 't']))}
    if r.random() < 0.4:
        d['deformation'] = r.choice([None, 'd.json'])
    for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
        if r.random() < 0.5:
            d[k] = int(r.integers(1, 50))
    if r.random() < 0.5:
        d['save_results'] = {k: bool(r.random() < 0.5) for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
    if r.random() < 0.6:
        d['plot'] = {k: {'opt': [str(x) for x in r.choice(['cp', 'mach', 'normals', 'deformed'], int(r.integers(0, 3)))], 'show': bool(r.random() < 0.5), 'save': bool(r.random() < 0.5)}
                     for k in ('geometry', 'lattice', 'matrix_downwash', 'results')}
    for k in ('_do_normal_rotations', '_deformation_check'):
        if r.random() < 0.3:
            d[k] = bool(r.random() < 0.5)
    if r.random() < 0.4:
        d['_epsilon'] = float(r.choice([1e-12, 1e-3, 0.5, 0.999999, 5e-324]))
    keys = list(d)
    r.shuffle(keys)
    return {k: d[k] for k in keys}


def want_settings(d):
    w = defaults()
    w.update(copy.deepcopy(d))
    if not w['plot']['results']['opt']:
        w['plot']['results']['opt'] = ['cp']
    return w


def mk(d, **k):
    from pytornado.objects.settings import Settings
    return Settings('name.json', M.scratch(), settings_dict=d, make_dirs=False, **k)


def same(a, b):
    return type(a) is type(b) and (set(a) == set(b) and all(same(a[k], b[k]) for k in a) if isinstance(a, dict) else
                                   (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) if isinstance(a, list) else a == b))


def _paths(d, at=()):
    for k, v in d.items():
        yield at + (k,)
        if isinstance(v, dict):
            yield from _paths(v, at + (k,))


def _put(d, path, v):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


def _get(d, path):
    for k in path:
        d = d[k]
    return d


def settings(ctx):
    """I02: defaults, given values, wrong types, independence"""
    from pytornado.objects import settings as os_
    r = ctx.rng()
    shipped = copy.deepcopy(os_.DEFAULT_SETTINGS)
    for _ in range(60 * ctx.scale):
        d = random_settings(r)
        d0 = copy.deepcopy(d)
        ctx.count()
        ctx.current = {'settings': d0}
        s = mk(d)
        if not same(s.settings, want_settings(d0)):
            x = first_diff(want_settings(d0), s.settings) or ('type', None, None)
            ctx.fail('completed settings', {'settings': d0}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'complete')
        if not same(d, d0):
            ctx.fail("the user's dictionary was changed", {'settings': d0}, d0, d, 'user')
        # later changes of one object do not reach another, the defaults or the user's dictionary
        t = mk(copy.deepcopy(d0))
        for p in list(_paths(s.settings)):
            v = _get(s.settings, p)
            if isinstance(v, list):
                v.append('changed')
            elif not isinstance(v, dict):
                _put(s.settings, p, 'changed')
        if not same(t.settings, want_settings(d0)):
            ctx.fail('changing a settings object changed another', {'settings': d0}, want_settings(d0), t.settings, 'shared')
        if not same(d, d0):
            ctx.fail("changing a settings object changed the user's dictionary", {'settings': d0}, d0, d, 'user2')
        e = {'aircraft': 'q.json', 'state': 's.json'}
        u = mk(e)
        if not same(u.settings, want_settings(e)):
            ctx.fail('defaults changed by changing an earlier settings object', {'settings': d0, 'then': e}, want_settings(e), u.settings, 'defaults')
        if shipped != os_.DEFAULT_SETTINGS:
            ctx.fail('default table changed', {'settings': d0}, str(shipped), str(os_.DEFAULT_SETTINGS), 'table')
        # updates of an existing object
        f = random_settings(r)
        w = want_settings(d0)
        w.update(copy.deepcopy(f))
        if not w['plot']['results']['opt']:
            w['plot']['results']['opt'] = ['cp']
        v = mk(copy.deepcopy(d0))
        v.update_from_dict(f)
        if not same(v.settings, w):
            ctx.fail('updated settings', {'settings': d0, 'update': f}, w, v.settings, 'update')
    from pytornado.objects.settings import Settings
    ctx.count()
    ctx.current = {'settings': None}
    g = copy.deepcopy(Settings('job.json', M.scratch(), make_dirs=False, check_ac_file_type=False).settings)
    g['plot']['results']['opt'] = ['cp']
    if not same(g, defaults()):
        ctx.fail('no settings given', {'settings': None}, defaults(), g, 'none')
    bad = {str: [1, 2.5, True, [], {}], bool: ['x', 3, 1.5, None, []], int: ['x', 2.5, None, []], float: ['x', None, [], 1, 0], list: ['x', 1, None, {}], dict: ['x', 1, None, []]}
    base = want_settings({'aircraft': 'a.json', 'state': 's.json'})
    for p in list(_paths(base)):
        if p == ('deformation',):
            continue
        v = _get(base, p)
        for b in bad[type(v)]:
            d = copy.deepcopy(base)
            _put(d, p, b)
            if p[:3] == ('plot', 'results', 'opt') and not b:
                continue
            ctx.count()
            ctx.current = None
            try:
                mk(d)
            except (TypeError, ValueError, KeyError, AttributeError):
                continue
            ctx.fail('wrong type accepted', {'setting': '/'.join(p), 'value': repr(b)}, 'error', 'accepted', 'type')
    for p in ('aircraft', 'state'):
        d = {'aircraft': 'a.json', 'state': 's.json'}
        del d[p]
        ctx.count()
        try:
            mk(d)
        except (TypeError, ValueError):
            pass
        else:
            ctx.fail('missing %s accepted' % p, {'settings': d}, 'error', 'accepted', 'missing')
    for x in (0.0, 1.0, -1e-6, 1.5, float('inf'), -0.0, 100.0):
        ctx.count()
        try:
            mk({'aircraft': 'a.json', 'state': 's.json', '_epsilon': x})
        except ValueError:
            continue
        ctx.fail('small number accepted', {'_epsilon': x}, 'error', 'accepted', 'eps')
    for x, ok in (('a.json', False), ('A.JSON', False), ('a.xml', True), ('a.XML', True), ('a.json.xml', True), ('a', None), ('a.txt', None), ('a.jso', None)):
        ctx.count()
        try:
            g = mk({'aircraft': x, 'state': 's.json'}).aircraft_is_cpacs
        except ValueError:
            g = None
        if g is not ok:
            ctx.fail('aircraft file type', {'aircraft': x}, ok, g, 'ext')


def settings_file(ctx):
    """I02: saved settings files"""
    from pytornado.fileio.native import settings as ns
    r = ctx.rng()

    def plainify(d):
        return {k: plainify(v) if isinstance(v, dict) else v for k, v in d.items() if not k.startswith('_')}
    for _ in range(20 * ctx.scale):
        d = random_settings(r)
        d['aircraft'] = 'ac.json'
        d['state'] = 'st.json'
        p = M.project({}, {}, d)
        with open(p, 'w') as f:
            json.dump(d, f)
        ctx.count()
        ctx.current = {'settings file': d}
        s = ns.load(p)
        if not same(s.settings, want_settings(d)):
            x = first_diff(want_settings(d), s.settings) or ('type', None, None)
            ctx.fail('settings loaded from the file', {'settings file': d}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'file-load')
        if r.random() < 0.5:
            s.settings['plot']['results']['_private'] = 1
            s.settings['plot']['_x'] = {'a': 1}
            s.settings['save_results']['_y'] = [1]
            s.settings['_group'] = {'_a': 1, 'b': 2}
            s.settings['extra_'] = {'deep': {'_z': 1, 'keep_': 2, 'list': [{'_inlist': 1}]}}
        before = copy.deepcopy(s.settings)
        ns.save(s)
        if not same(s.settings, before):
            x = first_diff(before, s.settings) or ('', None, None)
            ctx.fail('saving changed the settings object', {'settings': before}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'save-touch')
        with open(p) as f:
            out = json.load(f)
        want = plainify(before)
        if not same(out, want):
            x = first_diff(want, out) or ('', None, None)
            ctx.fail('saved settings file', {'settings': before}, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'saved')
        M.drop(p)


# ---------------------------------------------------------------- I03
COLS = ['gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp']


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d) + '/'] = None
        for n in files:
            q = os.path.join(base, n)
            with open(q, 'rb') as f:
                out[os.path.relpath(q, d)] = f.read()
    return out


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-6 * np.abs(b) + 1e-300) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def check_panel_file(ctx, path, vlm, info):
    with open(path) as f:
        head = f.readline()
    names = [w for w in head.replace('#', ' ').split() if not w.startswith('[')]
    data = np.loadtxt(path, delimiter=',', ndmin=2)
    n = len(vlm.panelwise['gamma'])
    if sorted(names) != sorted(COLS):
        ctx.fail('header of the panel file', info, COLS, names, 'head')
        return
    if data.shape != (n, len(names)):
        ctx.fail('panel file', info, '%d rows, %d columns' % (n, len(names)), data.shape, 'rows')
        return
    for k, nm in enumerate(names):
        if not near(data[:, k], vlm.panelwise[nm]):
            ctx.fail('column %s of the panel file' % nm, info, vlm.panelwise[nm].tolist()[:6], data[:, k].tolist()[:6], 'column')
            return


def check_matrix_file(ctx, path, vlm, info):
    data = np.loadtxt(path, delimiter=',', ndmin=2)
    want = np.concatenate([np.array(vlm.matrix_downwash), np.reshape(vlm.array_rhs, (-1, 1))], axis=1)
    if not near(data, want):
        ctx.fail('matrix file', info, 'matrix with right-hand side as last column, first row %s' % want[0].tolist()[:8], '%s, first row %s' % (data.shape, data[:1].tolist()[:8]), 'matrix')


def results(ctx):
    """I03: result files of a run"""
    r = ctx.rng()
    combos = [{'global': bool(b & 1), 'panelwise': bool(b & 2), 'aeroperformance': bool(b & 4), 'matrix_system': bool(b & 8)} for b in range(16)]
    r.shuffle(combos)
    for i in range(16 * ctx.scale):
        opt = combos[i % 16]
        n = int(r.integers(1, 4))
        ac = M.aircraft(r, nwings=1, controls=False, nseg=1)
        d = M.ac_dict(ac)
        t = table(r, n, scalar=True)
        for k in ('alpha', 'beta'):
            t[k] = [float(x) for x in r.uniform(-15, 15, n)]
        p = M.project(d, t, {'save_results': opt, 'vlm_autopanels_c': int(r.integers(1, 3)), 'vlm_autopanels_s': int(r.integers(1, 4))}, name='job')
        root = os.path.dirname(os.path.dirname(p))
        info = {'aircraft file': d, 'state table': t, 'save_results': opt}
        ctx.count()
        ctx.current = info
        from pytornado.fileio.native import results as nr
        from pytornado.aero import vlm as vv
        per = []
        orig = vv.calc_results

        def spy(lattice, state, vlmdata, *a, **k):
            x = orig(lattice, state, vlmdata, *a, **k)
            per.append((copy.deepcopy(dict(state.aero)), copy.deepcopy(dict(state.refs)), copy.deepcopy(vlmdata)))
            return x
        vv.calc_results = spy
        try:
            out = M.run(p)
        finally:
            vv.calc_results = orig
        if len(per) != n:
            per = None
        st = out['state']
        resdir = os.path.join(root, '_results')
        files = {k for k in tree(resdir) if not k.endswith('/')}
        want = set()
        for k in range(n):
            for o, f in (('global', 'global.json'), ('panelwise', 'panelwise.dat'), ('matrix_system', 'matrix.dat')):
                if opt[o]:
                    want.add('job_%03d/%s' % (k, f))
        if opt['aeroperformance']:
            want.add('job_aeroperformance.json')
        if files != want:
            ctx.fail('result files', info, sorted(want), sorted(files), 'files')
            M.drop(p)
            continue
        last = out['vlmdata']
        for k in range(n):
            vlm = per[k][2] if per else (last if k == n - 1 else None)
            if vlm is None:
                continue
            dd = os.path.join(resdir, 'job_%03d' % k)
            if opt['global']:
                with open(os.path.join(dd, 'global.json')) as f:
                    g = json.load(f)
                w = {'aero': {q: float(st.aero[q][k]) for q in ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')}, 'refs': d['refs'],
                     'global_forces': {q: float(v) for q, v in vlm.forces.items()}, 'global_coeffs': {q: float(v) for q, v in vlm.coeffs.items()}}
                for sec in w:
                    for q, v in w[sec].items():
                        gv = g.get(sec, {}).get(q, '(missing)')
                        if gv == '(missing)' or not (near(gv, v) if not isinstance(v, (str, type(None))) and gv is not None else gv == v):
                            ctx.fail('global results of entry %d' % k, info, '%s/%s = %r' % (sec, q, v), gv, 'global')
            if opt['panelwise']:
                check_panel_file(ctx, os.path.join(dd, 'panelwise.dat'), vlm, dict(info, entry=k))
            if opt['matrix_system']:
                check_matrix_file(ctx, os.path.join(dd, 'matrix.dat'), vlm, dict(info, entry=k))
        for nm, (g, q) in RES.items():
            if per and not near(st.results[nm], [getattr(e[2], g)[q] for e in per]):
                ctx.fail('results of the entries', info, '%s = %r' % (nm, [getattr(e[2], g)[q] for e in per]), list(st.results[nm]), 'results')
        if opt['aeroperformance']:
            with open(os.path.join(resdir, 'job_aeroperformance.json')) as f:
                g = json.load(f)
            for q, v in list(st.aero.items()) + list(st.results.items()):
                w = [] if v is None else np.atleast_1d(np.asarray(v, dtype=float)).tolist()
                if q not in g or not near(g[q], w):
                    ctx.fail('results table', info, '%s = %r' % (q, w), g.get(q, '(missing)'), 'apm')
        M.drop(p)


def project_settings(aircraft='ac.json', opt=None):
    from pytornado.objects.settings import Settings
    s = Settings('job.json', M.scratch(), settings_dict={'aircraft': aircraft, 'state': '__CPACS' if aircraft.endswith('xml') else 'st.json', 'save_results': dict(opt or M.SAVE)})
    s.paths.counter = 0
    s.paths('d_results', make_dirs=True, is_dir=True)
    return s


def writers(ctx):
    """I03: writers on arbitrary data; the data are not changed"""
    from pytornado.fileio.native import results as nr
    from pytornado.objects.vlm_struct import VLMData
    r = ctx.rng()
    for _ in range(25 * ctx.scale):
        n = int(r.integers(1, 9))
        v = VLMData()
        v.panelwise = {k: r.normal(size=n) * 10 ** float(r.uniform(-5, 5)) for k in [str(x) for x in r.permutation(COLS)]}
        v.matrix_downwash = r.normal(size=(n, n))
        v.array_rhs = r.normal(size=n)
        v.forces = {k: float(r.normal()) for k in 'xyzDCLlmn'}
        v.coeffs = {k: float(r.normal()) for k in 'xyzDCLlmn'}
        s = M.cur_state(r)
        s.refs = {'area': 3.0, 'span': float(r.uniform(1, 9)), 'chord': 1.0, 'gcenter': np.array(r.normal(size=3)), 'rcenter': [0.0, 1.0, 2.0]}
        ps = project_settings()
        ctx.count()
        ctx.current = None
        before = copy.deepcopy((v.panelwise, v.matrix_downwash, v.array_rhs, v.forces, v.coeffs, s.aero, s.refs))
        nr.save_all(ps, M.aircraft(r, nwings=1, controls=False), s, v)
        after = (v.panelwise, v.matrix_downwash, v.array_rhs, v.forces, v.coeffs, s.aero, s.refs)
        info = {'panels': n, 'panelwise': M.plain(before[0])}
        if not all(eq(a, b) for a, b in zip(before, after)):
            ctx.fail('writing changed the results', info, 'unchanged', 'changed', 'w-touch')
        check_panel_file(ctx, ps.paths('f_results_panelwise'), v, info)
        check_matrix_file(ctx, ps.paths('f_results_matrix'), v, dict(info, matrix=v.matrix_downwash.tolist(), rhs=v.array_rhs.tolist()))
        with open(ps.paths('f_results_global')) as f:
            g = json.load(f)
        for sec, w in (('aero', before[5]), ('refs', before[6]), ('global_forces', before[3]), ('global_coeffs', before[4])):
            for k, x in w.items():
                if k not in g.get(sec, {}) or not eq(g[sec][k], x):
                    ctx.fail('global results', dict(info, section=sec), '%s = %r' % (k, x), g.get(sec, {}).get(k, '(missing)'), 'w-global')


# ---------------------------------------------------------------- I04
def in_dir(d, f, *a):
    old, so, se = os.getcwd(), sys.stdout, sys.stderr
    os.chdir(d)
    sys.stdout = sys.stderr = _io.StringIO()
    try:
        return f(*a), None
    except SystemExit as e:
        return None, e
    finally:
        os.chdir(old)
        sys.stdout, sys.stderr = so, se


def template(ctx):
    """I04: project template"""
    from pytornado.stdfun.setup import setup_wkdir
    from pytornado.fileio.native import settings as ns, aircraft as na, state as nst
    r = ctx.rng()
    for i in range(24 * ctx.scale):
        d = M.scratch()
        work = os.path.join(d, 'work')
        src = os.path.join(d, 'db')
        os.makedirs(work)
        os.makedirs(src)
        content = None
        f = None
        if r.random() < 0.6:
            content, foil = random_file(r)
            for w in content['wings']:
                for s in w['segments']:
                    s['airfoils'] = {'inner': 'NACA0012', 'outer': 'NACA2412'}
            f = os.path.join(src, str(r.choice(['plane.json', 'my_plane.json', 'A320.json', 'x.json'])))
            with open(f, 'w') as fp:
                json.dump(content, fp)
        kind = i % 4
        with open(os.path.join(work, 'notes.txt'), 'w') as fp:
            fp.write('keep')
        os.makedirs(os.path.join(work, 'settings'))
        target = os.path.join(work, 'pytornado')
        if kind == 1:
            os.makedirs(os.path.join(target, 'aircraft'))
            os.makedirs(os.path.join(target, '_results', 'x_000'))
            for q in ('aircraft/template_aircraft.json', 'aircraft/plane.json', 'precious.dat', '_results/x_000/global.json'):
                with open(os.path.join(target, q), 'w') as fp:
                    fp.write('precious %d' % i)
        elif kind == 2:
            with open(target, 'w') as fp:
                fp.write('a file')
        elif kind == 3:
            os.makedirs(target)
        before, sb = tree(work), tree(src)
        ctx.count()
        info = {'prior contents': sorted(before), 'aircraft file': content}
        ctx.current = info
        res, ex = in_dir(work, setup_wkdir, f)
        if sb != tree(src):
            ctx.fail('source aircraft file changed', info, 'unchanged', sorted(tree(src)), 'source')
        after = tree(work)
        if kind:
            if after != before:
                ctx.fail('existing data touched', info, sorted(before), sorted(after), 'touched')
            if ex is None or ex.code in (None, 0):
                ctx.fail('existing target', info, 'error status', 'none' if ex is None else 'exit %r' % ex.code, 'status')
            continue
        if ex is not None:
            ctx.fail('template refused although the target does not exist', info, 'project', 'exit %r' % ex.code, 'refused')
            continue
        for k in before:
            if after.get(k, 0) != before[k]:
                ctx.fail('existing data touched', info, k, 'changed', 'touched')
        sf = sorted(k for k in after if k.startswith('pytornado/settings/') and not k.endswith('/'))
        if len(sf) != 1:
            ctx.fail('settings file of the project', info, 'one file', sf, 'files')
            continue
        s = ns.load(os.path.join(work, sf[0]))
        ac = na.load(s)
        st = nst.load(s)
        if content is not None:
            x = first_diff(expected(content, os.path.join(os.path.realpath(work), 'pytornado')), model_of(ac))
            if x:
                ctx.fail('aircraft of the project', info, 'at %s: %r' % (x[0], x[1]), repr(x[2]), 'aircraft')
        elif not ac.wings or not all(w.segments for w in ac.wings.values()):
            ctx.fail('aircraft of the project', info, 'complete template aircraft', M.describe(ac), 'aircraft')
        if len(list(st.iter_states())) < 1:
            ctx.fail('state of the project', info, 'at least one entry', 0, 'state')


# ---------------------------------------------------------------- K01
saved_none = object()
APM = '/cpacs/vehicles/aircraft/model/analyses/aeroPerformance'


class NoSuchElement(Exception):
    real = True         # an error of the document, not of the stand-in


class Table(dict):
    def __missing__(self, k):
        raise NoSuchElement('no element ' + k)


class Tixi:
    """document of element vectors and texts; calls are recorded"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise NotImplementedError('the stand-in has no ' + k)

    def __init__(self, vectors, texts, childs):
        self.vec, self.txt, self.childs, self.log, self.fail_at, self.n = Table(vectors), Table(texts), Table(childs), [], None, 0
        self.saved = self.closed = 0
        self.opened = None

    def getVectorSize(self, x):
        self._ready()
        return len(self.vec[x])

    def getFloatVector(self, x, n):
        return tuple(self.vec[x][:n])

    def uIDGetXPath(self, u):
        return self.txt['uid:' + u]

    def getNumberOfChilds(self, x):
        return self.childs[x]

    def getTextAttribute(self, x, a):
        return self.txt[x + '@' + a]

    def getTextElement(self, x):
        return self.txt[x]

    def checkElement(self, x):
        return x in self.vec

    def _step(self):
        self.n += 1
        if self.fail_at is not None and self.n > self.fail_at:
            raise OSError('disk error')

    def updateFloatVector(self, x, v, n, format=None):
        self._step()
        self._ready()
        self.vec[x]
        self.vec[x] = list(v)[:n]

    def addFloatVector(self, parent, name, v, n, format=None):
        self._step()
        self._ready()
        self.vec.setdefault(parent + '/' + name, list(v)[:n])

    def _ready(self):
        if self.opened is None:
            raise NoSuchElement('no document is open')

    def open(self, f):
        if not isinstance(f, str):
            raise NoSuchElement('file name is not a text')
        self.opened = f
        self.log.append(('open', f))

    def saveDocument(self, f):
        self.saved += 1
        self.log.append(('save', f))

    def close(self):
        self.closed += 1
        self.log.append(('close',))


CMAP = {'cl': 'CL', 'cd': 'CD', 'cs': 'CC', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}


def document(r, n, ragged=False):
    base = '/cpacs/vehicles/aircraft/model/analyses/aeroPerformance/aeroMap[%d]' % int(r.integers(1, 4))
    u = 'apm_' + str(r.integers(0, 99))
    one = r.random() < 0.5
    txt = {'uid:' + u: base}
    other = 'other'
    txt['uid:' + other] = '/elsewhere'
    if one:
        txt[APM + '/aeroMap@uID'] = u
        txt['/cpacs/toolspecific/pytornado/aeroMapUID'] = other
    else:
        txt[APM + '/aeroMap@uID'] = other
        txt['/cpacs/toolspecific/pytornado/aeroMapUID'] = u
    vec = {}
    m = base + '/aeroPerformanceMap/'
    lens = [n] * 4
    if ragged:
        lens[int(r.integers(0, 4))] += int(r.choice([1, 2]))
    for k, ln in zip(('altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip'), lens):
        vec[m + k] = [float(x) for x in {'altitude': r.uniform(0, 10000, ln), 'machNumber': r.uniform(0.05, 0.8, ln)}.get(k, r.uniform(-20, 20, ln))]
        vec['/elsewhere/aeroPerformanceMap/' + k] = [0.5] * 7
    return Tixi(vec, txt, {APM: 1 if one else int(r.integers(2, 5))}), m


def cpacs(ctx):
    """K01: tables read from and written to a (recorded) CPACS document"""
    from pytornado.fileio.cpacs import state as cs, results as cr, utils as cu
    from pytornado.objects.state import FlightState
    r = ctx.rng()
    import types
    wrapper = types.SimpleNamespace(Tixi=None, TixiException=NoSuchElement)
    put = [(cu, 'TIXI_INSTALLED', True), (cu, 'tixiwrapper', wrapper)]
    saved = [(m, k, getattr(m, k, saved_none)) for m, k, _ in put]
    for m, k, x in put:
        setattr(m, k, x)
    try:
        for _ in range(50 * ctx.scale):
            n = int(r.integers(1, 5))
            ragged = r.random() < 0.25
            t, m = document(r, n, ragged)
            s = project_settings('model.xml')
            f = str(s.paths('f_aircraft'))
            open(f, 'w').close()
            wrapper.Tixi = lambda: t
            t.opened = None
            if r.random() < 0.1:
                os.remove(f)
                ctx.count()
                ctx.current = {'document': 'does not exist'}
                try:
                    cs.load(s)
                except OSError:
                    continue
                ctx.fail('missing document', 'the file does not exist', 'error', 'flight conditions returned', 'missing')
                continue
            doc = copy.deepcopy(t.vec)
            info = {'document': doc, 'maps': t.childs, 'texts': t.txt}
            ctx.count()
            ctx.current = info
            try:
                st = cs.load(s)
            except ValueError:
                if not ragged:
                    raise
                continue
            if ragged:
                ctx.fail('vectors of different length accepted', info, 'error', 'accepted', 'ragged')
                continue
            got = {k: None if v is None else np.asarray(v, dtype=float).tolist() for k, v in st.aero.items()}
            for k, c in (('altitude', 'altitude'), ('mach', 'machNumber'), ('alpha', 'angleOfAttack'), ('beta', 'angleOfSideslip')):
                if got[k] != doc[m + c]:
                    ctx.fail('flight condition %s' % k, info, doc[m + c], got[k], 'read')
            for k in ('rate_P', 'rate_Q', 'rate_R'):
                if got[k] != [0.0] * n:
                    ctx.fail('rate %s' % k, info, [0.0] * n, got[k], 'rate')
            if t.opened != f:
                ctx.fail('document read', info, f, t.opened, 'which')
            t.opened = None
            if t.vec != doc:
                ctx.fail('reading changed the document', info, doc, t.vec, 'read-touch')
            # write results
            for k in CMAP.values():
                st.results[k] = [float(x) for x in r.normal(size=n)]
            for k in ('Fx', 'Cx', 'CY', 'FL', 'Cy', 'Cz'):
                st.results[k] = [float(x) for x in r.normal(size=n)]
            for k in CMAP:
                if r.random() < 0.5:
                    t.vec[m + k] = [float(x) for x in r.normal(size=int(r.integers(1, 6)))]
            doc = copy.deepcopy(t.vec)
            broken = r.random() < 0.3
            if broken:
                t.fail_at = int(r.integers(0, 6))
            t.log.clear()
            t.saved = t.closed = 0
            ctx.current = info = {'document': doc, 'results': copy.deepcopy({k: list(v) for k, v in st.results.items()}), 'failure': 'at write %r' % t.fail_at if broken else None}
            err = None
            try:
                cr.save_aeroperformance_map(st, s)
            except OSError as e:
                if not broken:
                    raise
                err = e
            if broken and err is None:
                ctx.fail('failure while writing', info, 'error', 'none', 'swallowed')
            if [x[0] for x in t.log if x[0] != 'open'] != ['save', 'close'] or [x for x in t.log if x[0] == 'save'][0][1] != f:
                ctx.fail('document saved and closed', info, 'saved to %s and closed once' % f, t.log, 'closed')
            if not broken:
                want = dict(doc, **{m + k: info['results'][v] for k, v in CMAP.items()})
                if t.vec != want:
                    k = sorted(q for q in set(want) | set(t.vec) if want.get(q) != t.vec.get(q))[0]
                    ctx.fail('result vector %s' % k, info, want.get(k), t.vec.get(k), 'written')
            else:
                for k in set(doc) | set(t.vec):
                    w = info['results'].get(CMAP.get(k[len(m):])) if k.startswith(m) else None
                    if t.vec.get(k) != doc.get(k) and t.vec.get(k) != w:
                        ctx.fail('vector %s after a failure' % k, info, [doc.get(k), w], t.vec.get(k), 'partial')
        cu.TIXI_INSTALLED = False
        ctx.count()
        ctx.current = {'TiXI': 'not installed'}
        try:
            cu.open_tixi(f)
        except ImportError:
            pass
        else:
            ctx.fail('document interface is not installed', 'not installed', 'error', 'none', 'installed')
        cu.TIXI_INSTALLED = True
        # single vectors
        for _ in range(30 * ctx.scale):
            name = str(r.choice(['cl', 'cd', 'cms']))
            parent = str(r.choice(['/a', '/a/b[2]', '/cpacs/x']))
            path = parent + '/' + name
            has = r.random() < 0.5
            t = Tixi({path: [1.0, 2.0]} if has else {}, {}, {})
            t.opened = 'x'
            t.vec[parent + '/other'] = [5.0]
            v = [float(x) for x in r.normal(size=int(r.integers(1, 5)))]
            ctx.count()
            ctx.current = info = {'path': path, 'existing': has, 'vector': v}
            cu.add_vector(t, path + ('/' if r.random() < 0.5 else ''), v)
            if t.vec != {path: v, parent + '/other': [5.0]}:
                ctx.fail('vector written', info, {path: v}, t.vec, 'add')
    finally:
        for m, k, x in saved:
            if x is saved_none:
                delattr(m, k)
            else:
                setattr(m, k, x)


def paths(ctx):
    """I05: places of the files of a project; cleaning (removals are recorded, not done)"""
    import pathlib
    import shutil
    from pytornado.fileio.native import settings as ns, state as nst
    from pytornado.stdfun import run as rn
    r = ctx.rng()
    words = ['job', 'run1', 'a.b', 'cruise_2', 'settings']
    for i in range(20 * ctx.scale):
        top = M.scratch()
        proj = os.path.join(top, str(r.choice(['proj', 'settings', 'my_settings', 'p.x'])))
        sub_ = str(r.choice(['settings', 'settings', '', 'my_settings', 'cfg']))
        base = str(r.choice(words))
        folder = os.path.join(proj, sub_) if sub_ else proj
        os.makedirs(folder)
        wk = os.path.dirname(folder) if os.path.basename(folder) == 'settings' else folder
        kind = str(r.choice(['.json', '.xml', '.JSON', '.Xml', '.txt', '']))
        state = str(r.choice(['st.json', '__CPACS', '__cpacs', 'x.y.json']))
        dfm = [None, 'def.json'][int(r.integers(0, 2))]
        d = {'aircraft': 'ac' + kind, 'state': state}
        if dfm:
            d['deformation'] = dfm
        f = os.path.join(folder, base + '.json')
        json.dump(d, open(f, 'w'))
        ctx.count()
        ctx.current = info = {'settings file': f[len(top):], 'settings': d}
        try:
            st = rn.get_settings(f)
        except ValueError:
            if kind.lower() in ('.json', '.xml'):
                raise
            continue
        if kind.lower() not in ('.json', '.xml'):
            ctx.fail('aircraft file of unknown kind', info, 'error', 'accepted', 'kind')
            continue
        if st.aircraft_is_cpacs is not (kind.lower() == '.xml'):
            ctx.fail('kind of the aircraft file', info, kind.lower() == '.xml', st.aircraft_is_cpacs, 'kind')
        try:
            c = st.state_is_cpacs
            bad = state.lower() == '__cpacs' and not st.aircraft_is_cpacs
        except RuntimeError:
            c, bad = None, not (state.lower() == '__cpacs' and not st.aircraft_is_cpacs)
        if bad or c is not None and c is not (state.lower() == '__cpacs'):
            ctx.fail('kind of the state', info, state.lower() == '__cpacs', c, 'state kind')
        real = os.path.realpath(wk)
        for n in (0, int(r.integers(1, 9)), int(r.integers(10, 99)), int(r.integers(100, 2000))):
            st.paths.counter = n
            tag = '%s_%03d' % (base, n)
            want = {'root': '', 'f_aircraft': 'aircraft/ac' + kind, 'f_state': 'state/' + state, 'f_settings': 'settings/%s.json' % base, 'd_airfoils': 'airfoils', 'd_results': '_results/' + tag, 'd_plots': '_plots/' + tag,
                    'f_results_global': '_results/%s/global.json' % tag, 'f_results_panelwise': '_results/%s/panelwise.dat' % tag, 'f_results_matrix': '_results/%s/matrix.dat' % tag,
                    'f_results_apm_global': '_results/%s_aeroperformance.json' % base}
            if dfm:
                want['f_deformation'] = 'deformation/' + dfm
            for k, x in want.items():
                w, g = os.path.normpath(os.path.join(real, x)), str(st.paths(k))
                if g != w:
                    ctx.fail('place of %s' % k, dict(info, entry=n), w[len(top):], g[len(top):] if g.startswith(top) else g, 'place ' + k)
        # cleaning: what is asked to be removed
        for k in ('_results', '_plots', 'aircraft', 'state', 'settings', 'deformation', 'airfoils'):
            os.makedirs(os.path.join(wk, k), exist_ok=True)
            open(os.path.join(wk, k, 'keep'), 'w').close()
        gone = []
        rec = lambda p, *a, **k: gone.append(os.path.realpath(os.fspath(p)))
        saved = [(o, k, getattr(o, k)) for o, k in ((shutil, 'rmtree'), (os, 'remove'), (os, 'unlink'), (os, 'rmdir'), (pathlib.Path, 'unlink'), (pathlib.Path, 'rmdir'))]
        for o, k, _ in saved:
            setattr(o, k, rec)
        try:
            rn.clean_project_dir(st)
        finally:
            for o, k, x in saved:
                setattr(o, k, x)
        ok = [os.path.join(real, '_results'), os.path.join(real, '_plots')]
        bad = [p for p in gone if not any(p == q or p.startswith(q + os.sep) for q in ok)]
        bad = [p for p in bad if os.path.exists(p)]
        if bad:
            ctx.fail('cleaning removes only generated output', info, ['_results', '_plots'], [p[len(real):] for p in bad], 'clean')
        if not set(ok) <= set(gone) and any(os.path.exists(q) and q not in gone and os.path.join(q, 'keep') not in gone for q in ok):
            ctx.fail('cleaning removes results and plots', info, ['_results', '_plots'], [p[len(real):] for p in gone], 'clean-all')
        shutil.rmtree(top)
    # state files
    for i in range(20 * ctx.scale):
        n = int(r.integers(1, 4))
        t = table(r, n, scalar=True)
        p = M.project({}, t, name='job')
        ctx.count()
        ctx.current = info = {'state file': t}
        st = rn.get_settings(p)
        s = nst.load(st)
        for k, x in t.items():
            g = np.atleast_1d(np.asarray(s.aero[k], dtype=float)).tolist() if s.aero[k] is not None else None
            w = None if x is None else np.atleast_1d(np.asarray(x, dtype=float)).tolist()
            if w is not None and g != w:
                ctx.fail('state file: %s' % k, info, w, g, 'state')
        M.drop(p)

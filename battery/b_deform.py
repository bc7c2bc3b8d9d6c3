"""deformation files and deformed lattice points"""
import copy
import json
import os
import numpy as np
import model as M
from model import refl, bil, ORDER


def moved(p, f):
    """rigid motion of the closest entry of the field (documentation of aeroframe)"""
    from aeroframe.interpol.translate import get_deformed_point
    return get_deformed_point(np.array(p, float), np.array(f, float))


def field(r, wing, mirror):
    pts = []
    for s in wing.segments.values():
        for e in (0, 0.5, 1):
            p = bil(s.vertices, e, 0.25)
            pts.append(refl(p, wing.symmetry) if mirror else p)
    return [[float(x) for x in p] + [float(x) for x in r.uniform(-0.2, 0.2, 6)] for p in pts]


SETS = [['w', 'w2'], ['wing_m', 'wing'], ['main_m_wing', 'tail'], ['a_m', 'b'], ['w_m_m', 'x'], ['_fin', 'fin'], ['mm', 'm'], ['wing_mirror', 'a_'], ['w_m_a', 'w']]


def load(ctx):
    from pytornado.fileio.native import deformation, settings as nset
    from pytornado.objects.aircraft import Aircraft
    r = ctx.rng()
    for t in range(60 * ctx.scale):
        names = SETS[t % len(SETS)]
        ac = M.aircraft(r, nwings=len(names), sym=1 + t % 3, nseg=1, controls=False)
        wings = list(ac.wings.values())
        ac.wings.clear()
        for n, w in zip(names, wings):
            w.uid = n
            ac.wings[n] = w
        fields, exp = {}, {n: [None, None] for n in names}
        for n in names:
            for m in (False, True):
                key = n + ('_m' if m else '')
                if r.random() < 0.35 or (m and key in names):
                    continue
                if key in fields:
                    continue
                fields[key] = field(r, ac.wings[n], m)
                if not key.startswith('_'):
                    exp[n][m] = fields[key]
        for n in ('_skip', '_' + names[0] + '_m', '_w'):
            if r.random() < 0.5 and n not in fields:
                fields[n] = field(r, wings[0], False)
        if not fields:
            continue
        base = M.ac_dict(ac)
        f = M.project(base, {'airspeed': 50, 'density': 1, 'alpha': 1}, {'deformation': 'def.json'})
        with open(os.path.join(os.path.dirname(os.path.dirname(f)), 'deformation', 'def.json'), 'w') as fh:
            json.dump(fields, fh)
        before = [(n, dict(vars(w))) for n, w in ac.wings.items()]
        inp = {'wings': names, 'fields': list(fields)}
        try:
            deformation.load(ac, nset.load(f))
        except Exception as e:
            ctx.fail('deformation file of existing wings is rejected', inp, None, repr(e))
            continue
        finally:
            M.drop(f)
        ctx.count()
        for n, old in before:
            w = ac.wings.get(n)
            if w is None or list(ac.wings) != names:
                ctx.fail('wings changed', inp)
                break
            for m, got in ((0, w.def_field), (1, w.def_field_mirror)):
                e = exp[n][m]
                if (e is None) != (got is None) or e is not None and not np.array_equal(np.array(e), np.asarray(got)):
                    ctx.fail('deformation field of %s side' % ('mirrored' if m else 'main'), [inp, n], 'field given' if e is not None else 'no field', 'none' if got is None else 'field')
            for k, x in vars(w).items():
                if k not in ('def_field', 'def_field_mirror') and x is not old.get(k):
                    ctx.fail('something else changed', [inp, n, k])
    # missing file
    ac = M.aircraft(r, nwings=1, controls=False)
    f = M.project(M.ac_dict(ac), {'airspeed': 50, 'density': 1, 'alpha': 1}, {'deformation': 'missing.json'})
    try:
        deformation.load(ac, nset.load(f))
        ctx.fail('missing deformation file accepted', 'missing.json')
    except IOError:
        pass
    M.drop(f)


def run(ctx):
    """a run uses the deformation file if and only if the settings name one"""
    r = ctx.rng(3)
    for t in range(4 * ctx.scale):
        ac = M.aircraft(r, nwings=1 + t % 2, sym=[2, 0, 1, 3][t % 4], nseg=1, controls=False)
        wings = list(ac.wings.values())
        ac.wings.clear()
        for n, w in zip(('main', 'tail'), wings):
            w.uid = n
            ac.wings[n] = w
        fields = {u: field(r, w, False) for u, w in ac.wings.items()}
        fields.update({u + '_m': field(r, w, True) for u, w in ac.wings.items() if w.symmetry})
        table = {'airspeed': [50.0, 60.0], 'density': [1.0, 1.0], 'alpha': [1.0, 2.0], 'beta': [0.0, 0.0], 'rate_P': [0.0, 0.0], 'rate_Q': [0.0, 0.0], 'rate_R': [0.0, 0.0]}
        for use in (True, False):
            f = M.project(M.ac_dict(ac), table, {'deformation': 'def.json'} if use else {'deformation': None})
            with open(os.path.join(os.path.dirname(os.path.dirname(f)), 'deformation', 'def.json'), 'w') as fh:
                json.dump(fields, fh)
            ctx.count()
            ctx.current = inp = {'aircraft': M.ac_dict(ac), 'fields': fields if use else None}
            lat = M.run(f)['lattice']
            M.drop(f)
            for e in lat.panel_bookkeeping:
                w = e.subarea.parent_wing
                c = e.subarea.abs_vertices(e.mirror)
                for side, d in ((False, w.def_field), (True, w.def_field_mirror)):
                    want = fields.get(w.uid + ('_m' if side else '')) if use else None
                    if (d is None) != (want is None) or want is not None and not np.array_equal(np.asarray(d), np.array(want)):
                        ctx.fail('deformation field of the wings in a run', inp, 'field given' if want is not None else 'no field', 'none' if d is None else 'another field' if want is not None else 'field')
                        return
                if not np.allclose([lat.p[e.pan_idx[0]][0], lat.p[e.pan_idx[0]][1]], [c['a'], c['b']], atol=1e-9):
                    ctx.fail('lattice of a run follows the deformation', inp, [c['a'], c['b']], lat.p[e.pan_idx[0]][:2])
                    return


def points(ctx):
    import pytornado.aero.vlm as vlm
    r = ctx.rng()
    for t in range(60 * ctx.scale):
        ac = M.aircraft(r, nwings=1 + t % 2, sym=1 + t % 3, nseg=1 + t % 2, devs=t % 3)
        try:
            ac.generate()
            vlm.set_autopanels(ac, M.St())
            vlm.pre_panelling(ac)
        except ValueError:
            continue
        und = {}
        for w, s, st, p in M.all_parts(ac):
            for m in (False, True):
                und[id(st), m] = {k: v.copy() for k, v in st.abs_vertices(m).items()}
                und[id(p), m] = {k: v.copy() for k, v in p.abs_vertices(m).items()}
        fields = {}
        for i, w in enumerate(ac.wings.values()):
            for m in (0, 1):
                fields[w.uid, m] = field(r, w, m) if (t + i + m) % 3 else None
            w.def_field = None if fields[w.uid, 0] is None else np.array(fields[w.uid, 0])
            w.def_field_mirror = None if fields[w.uid, 1] is None else np.array(fields[w.uid, 1])
        for rep in range(2):
            for w, s, st, p in M.all_parts(ac):
                pl = w.symmetry
                for m in (False, True):
                    f = fields[w.uid, int(m)]
                    o, q = st.abs_vertices(m), p.abs_vertices(m)
                    ctx.count()
                    inp = [M.describe(ac), {'wing': w.uid, 'mirror': m, 'field': f, 'strip': dict(st.rel_vertices), 'call': rep}]
                    for k in 'abcd':
                        if f is None:
                            if not np.allclose(o[k], und[id(st), m][k], atol=1e-12) or not np.allclose(q[k], und[id(p), m][k], atol=1e-12):
                                ctx.fail('a side without field is not the undeformed one', inp + [k], und[id(p), m][k], q[k])
                        elif not np.allclose(o[k], moved(und[id(st), m][k], f), atol=1e-9):
                            ctx.fail('corner point is not the point moved by the field of this side', inp + [k], moved(und[id(st), m][k], f), o[k])
                    if f is not None:
                        v = p.rel_vertices
                        xs = [v['xsi_' + k] for k in 'abcd']
                        if m:
                            xs = [xs['abcd'.index(k)] for k in ORDER[pl]]
                            if pl == 3:
                                xs = [1 - x for x in xs]
                        e = {'a': o['a'] + xs[0] * (o['d'] - o['a']), 'b': o['b'] + xs[1] * (o['c'] - o['b']), 'c': o['b'] + xs[2] * (o['c'] - o['b']), 'd': o['a'] + xs[3] * (o['d'] - o['a'])}
                        for k in 'abcd':
                            if not np.allclose(q[k], e[k], atol=1e-9):
                                ctx.fail('part corner of a deformed strip', inp + [p.type, k], e[k], q[k])
        for w in ac.wings.values():
            for m, g in ((0, w.def_field), (1, w.def_field_mirror)):
                f = fields[w.uid, m]
                if (f is None) != (g is None) or f is not None and not np.array_equal(g, np.array(f)):
                    ctx.fail('the deformation field itself was modified', [M.describe(ac), w.uid, m])

"""flight conditions: free stream, table validation, iteration, independence of entries"""
import itertools
import json
import os

import numpy as np
import model as M

PARAMS = ['airspeed', 'alpha', 'altitude', 'beta', 'density', 'mach', 'rate_P', 'rate_Q', 'rate_R']
PRIMARY = ['airspeed', 'alpha', 'beta', 'density', 'rate_P', 'rate_Q', 'rate_R']
RES = {'Fx': ('forces', 'x'), 'Fy': ('forces', 'y'), 'Fz': ('forces', 'z'), 'FD': ('forces', 'D'), 'FC': ('forces', 'C'), 'FL': ('forces', 'L'),
       'Mx': ('forces', 'l'), 'My': ('forces', 'm'), 'Mz': ('forces', 'n'), 'Cx': ('coeffs', 'x'), 'Cy': ('coeffs', 'y'), 'Cz': ('coeffs', 'z'),
       'CD': ('coeffs', 'D'), 'CC': ('coeffs', 'C'), 'CL': ('coeffs', 'L'), 'Cl': ('coeffs', 'l'), 'Cm': ('coeffs', 'm'), 'Cn': ('coeffs', 'n')}


def fs(al, be):
    a, b = np.radians(al), np.radians(be)
    return np.array([np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)])


def table(r, n, kind=None, scalar=False):
    kind = kind or [('airspeed', 'density'), ('airspeed', 'altitude'), ('mach', 'altitude')][int(r.integers(3))]
    gen = {'airspeed': lambda: float(r.uniform(1, 300)), 'density': lambda: float(r.uniform(0.1, 1.4)), 'altitude': lambda: float(r.uniform(-500, 18000)), 'mach': lambda: float(r.uniform(0.01, 0.9)),
           'alpha': lambda: float(r.choice([r.uniform(-90, 90), r.uniform(-15, 15), 0.0, 90.0, -90.0], p=[.2, .5, .1, .1, .1])),
           'beta': lambda: float(r.choice([r.uniform(-90, 90), r.uniform(-15, 15), 0.0, 90.0, -90.0], p=[.2, .5, .1, .1, .1]))}
    t = {}
    for p in list(kind) + ['alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R']:
        g = gen.get(p, lambda: float(r.choice([0.0, r.uniform(-1, 1)])))
        t[p] = [g() for _ in range(n)]
        if n == 1 and scalar and r.random() < 0.5:
            t[p] = t[p][0]
        elif r.random() < 0.2:
            t[p] = [int(round(x)) for x in t[p]] if p not in ('density', 'mach') else t[p]
            if p == 'airspeed':
                t[p] = [max(1, x) for x in t[p]]
    keys = list(t)
    r.shuffle(keys)
    t = {k: t[k] for k in keys}
    for p in PARAMS:
        if p not in t and r.random() < 0.4:
            t[p] = None
    return t


def lists(t):
    return {k: (v if isinstance(v, list) else [v]) for k, v in t.items() if v is not None}


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def iso(h):
    from ambiance import Atmosphere
    a = Atmosphere(np.array(h, dtype=float))
    return np.array(a.density), np.array(a.speed_of_sound)


def accept(ctx):
    """A02: valid tables are completed, invalid ones rejected"""
    from pytornado.objects.state import FlightState
    r = ctx.rng()
    for t in range(300 * ctx.scale):
        n = int(r.choice([1, 1, 2, 3, 7]))
        tb = table(r, n, scalar=True)
        src = json.loads(json.dumps(tb))
        s = FlightState()
        ctx.count()
        try:
            s.update_from_dict(tb)
        except Exception as e:
            ctx.fail('a valid table is rejected', src, 'accepted', repr(e))
            continue
        g = lists(src)
        exp = {k: np.array(v, float) for k, v in g.items()}
        if 'altitude' in g:
            rho, snd = iso(g['altitude'])
            exp['density'] = rho
            if 'mach' in g:
                exp['airspeed'] = exp['mach'] * snd
        for p in PARAMS:
            got = s.aero.get(p)
            if (got is None) != (p not in exp) or (p in exp and not close(np.asarray(got, float), exp[p])):
                ctx.fail('value of %s' % p, src, exp.get(p), got, key='value')
                break
        if s.num_apm_entries != n:
            ctx.fail('number of entries', src, n, s.num_apm_entries)
    # combinations of given parameters
    four = ['airspeed', 'density', 'mach', 'altitude']
    ok = [{'airspeed', 'density'}, {'airspeed', 'altitude'}, {'mach', 'altitude'}]
    for k in range(5):
        for sub in itertools.combinations(four, k):
            for n in (1, 3):
                for null in (True, False):
                    tb = {p: [0.5 + 0.01 * i for i in range(n)] for p in sub}
                    for p in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R'):
                        tb[p] = [float(r.uniform(-10, 10)) for _ in range(n)]
                    if null:
                        for p in four:
                            tb.setdefault(p, None)
                    ctx.count()
                    err = error(tb)
                    if (err is None) != (set(sub) in ok):
                        ctx.fail('combination of parameters', tb, 'accepted' if set(sub) in ok else 'rejected', err or 'accepted')
    # angles and lengths
    for t in range(150 * ctx.scale):
        n = int(r.choice([1, 2, 4, 9]))
        tb = {k: v for k, v in table(r, n).items()}
        a = str(r.choice(['alpha', 'beta']))
        i = int(r.integers(n))
        x = float(r.choice([90.0001, -90.0001, 91, -91, 180, -180, 360, 1e6, -1e6, r.uniform(90.001, 500), -r.uniform(90.001, 500)]))
        tb[a] = [float(v) for v in (r.uniform(-90, 90, n) if r.random() < 0.5 else np.zeros(n))]
        tb[a][i] = x
        ctx.count()
        if error(json.loads(json.dumps(tb))) is None:
            ctx.fail('angle out of range accepted', tb, 'rejected', 'accepted')
        tb = table(r, n)
        given = [k for k, v in tb.items() if v is not None]
        k = str(r.choice(given))
        v = tb[k] if isinstance(tb[k], list) else [tb[k]]
        tb[k] = v + [v[0]] if r.random() < 0.5 or n == 1 else (v[:-1] if r.random() < 0.5 or n < 3 else v[0])
        ctx.count()
        if error(json.loads(json.dumps(tb))) is None:
            ctx.fail('different numbers of entries accepted', tb, 'rejected', 'accepted')


def error(tb):
    from pytornado.objects.state import FlightState
    try:
        FlightState().update_from_dict(tb)
    except Exception as e:
        return repr(e)
    return None


def iterate(ctx):
    """A01/A03: iter_states"""
    from pytornado.objects.state import FlightState
    r = ctx.rng()
    for t in range(120 * ctx.scale):
        n = int(r.choice([1, 2, 3, 5, 20]))
        tb = table(r, n, scalar=True)
        src = json.loads(json.dumps(tb))
        s = FlightState()
        s.update_from_dict(tb)
        got = list(s.iter_states())
        ctx.count()
        if len(got) != n:
            ctx.fail('number of flight conditions', src, n, len(got))
            continue
        g = lists(src)
        exp = {k: np.array(v, float) for k, v in g.items()}
        if 'altitude' in g:
            exp['density'], snd = iso(g['altitude'])
            if 'mach' in g:
                exp['airspeed'] = exp['mach'] * snd
        for i, c in enumerate(got):
            for p in PRIMARY:
                if not close(float(c.aero[p]), float(exp[p][i])):
                    ctx.fail('%s of entry %d' % (p, i), src, exp[p][i], c.aero[p], key='entry')
            v = exp['airspeed'][i] * fs(exp['alpha'][i], exp['beta'][i])
            if not np.allclose(c.free_stream_velocity_vector, v, rtol=1e-9, atol=1e-9 * exp['airspeed'][i]):
                ctx.fail('free-stream velocity', [src, i], v, c.free_stream_velocity_vector)


def model(r, big=False):
    while True:
        ac = M.aircraft(r, nwings=int(r.integers(1, 3)), nseg=1, devs=int(r.integers(0, 3)))
        for w in ac.wings.values():
            if w.symmetry == 3 or w.symmetry == 1:
                w.symmetry = 2
            for s in w.segments.values():
                s.panels.update(num_c=2, num_s=2)
            for c in w.controls.values():
                c.panels['num_c'] = 1
                if w.symmetry and c.deflection_mirror is None:
                    c.deflection_mirror = -c.deflection
        d = M.ac_dict(ac)
        try:
            ac.generate()
            import pytornado.aero.vlm as vlm
            vlm.pre_panelling(ac)
            return d
        except ValueError:
            continue


SMALL = [('airspeed', lambda r: float(r.uniform(10, 100))), ('density', lambda r: float(r.uniform(0.3, 1.3))), ('alpha', lambda r: float(r.uniform(-10, 10))),
         ('beta', lambda r: float(r.uniform(-10, 10))), ('rate_P', lambda r: float(r.uniform(-.2, .2))), ('rate_Q', lambda r: float(r.uniform(-.2, .2))), ('rate_R', lambda r: float(r.uniform(-.2, .2)))]


def independent(ctx):
    """A03: a table gives for every entry what the entry alone gives"""
    r = ctx.rng()
    for t in range(8 * ctx.scale):
        d = model(r)
        n = int(r.choice([2, 3, 4]))
        tb = {k: [g(r) for _ in range(n)] for k, g in SMALL}
        if t % 2 == 0:
            for k in tb:       # some parameters stay the same
                if r.random() < 0.5:
                    tb[k] = [tb[k][0]] * n
        else:
            tb['alpha'][-1] = tb['alpha'][0]
            for k in tb:       # a repeated entry
                tb[k][n - 1] = tb[k][0]
        f = M.project(d, tb)
        res = M.run(f)['state'].results
        apm = json.load(open(os.path.join(os.path.dirname(os.path.dirname(f)), '_results', 'set_aeroperformance.json')))
        M.drop(f)
        ctx.count()
        for k in RES:
            if len(res[k]) != n:
                ctx.fail('number of values of %s' % k, [d, tb], n, len(res[k]), key='number of values')
                return
            if not np.allclose(apm[k], res[k], rtol=1e-12, equal_nan=True):
                ctx.fail('results table file differs from the results', [d, tb, k], res[k], apm[k])
        for i in range(n):
            one = {k: v[i] for k, v in tb.items()}
            f = M.project(d, one)
            out = M.run(f)
            M.drop(f)
            v = out['vlmdata']
            for k, (g, q) in RES.items():
                x = getattr(v, g)[q]
                if not np.allclose(res[k][i], x, rtol=1e-7, atol=1e-9 * scale(v, g)):
                    ctx.fail('%s of an entry depends on the other entries' % k, {'aircraft': d, 'table': tb, 'entry': i}, x, res[k][i], key='depends')
                    return


def scale(v, g):
    return max(abs(x) for x in getattr(v, g).values()) + 1e-9


def convention(ctx):
    """A01: wake legs, boundary condition, drag axis of a complete calculation use the same direction"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    r = ctx.rng()
    for t in range(6 * ctx.scale):
        ac = M.aircraft(r, nwings=1, nseg=1, devs=0, sym=0)
        ac.generate()
        from pytornado.objects.state import FlightState
        s = FlightState()
        tb = {k: g(r) for k, g in SMALL}
        if t % 2:
            tb['alpha'], tb['beta'] = float(r.uniform(-60, 60)), float(r.uniform(-60, 60))
        s.update_from_dict(dict(tb))
        for cur in s.iter_states():
            cur.refs = {k: np.array(v, float) if isinstance(v, list) else v for k, v in ac.refs.items()}
            st = M.St(_do_normal_rotations=False)
            vlm.set_autopanels(ac, st)
            lat = vlm.gen_lattice(ac, cur, st)
            d = VLMData()
            f = fs(tb['alpha'], tb['beta'])
            ctx.count()
            if not np.allclose(cur.free_stream_velocity_vector, tb['airspeed'] * f, rtol=1e-9, atol=1e-9):
                ctx.fail('free-stream velocity', tb, tb['airspeed'] * f, cur.free_stream_velocity_vector)
            for a, b in ((0, 1), (3, 2)):
                leg = lat.v[:, a] - lat.v[:, b]
                leg = leg / np.linalg.norm(leg, axis=1)[:, None]
                if not np.allclose(leg, f, atol=1e-6):
                    ctx.fail('trailing legs do not follow the free stream', tb, f, leg[0])
            vlm.calc_boundary(lat, cur, d)
            om = np.array([tb['rate_P'], tb['rate_Q'], tb['rate_R']])
            on = tb['airspeed'] * f - np.cross(om, lat.c - np.array(cur.refs['gcenter'], float))
            e = -np.einsum('ij,ij->i', on, lat.n)
            if not np.allclose(d.array_rhs, e, rtol=1e-7, atol=1e-9 * tb['airspeed']):
                ctx.fail('boundary condition', tb, e, d.array_rhs)
            vlm.calc_downwash(lat, d)
            vlm.solver(d)
            vlm.calc_results(lat, cur, d)
            F = np.array([d.forces[k] for k in 'xyz'])
            if not np.allclose(d.forces['D'], F @ f, rtol=1e-6, atol=1e-7 * np.linalg.norm(F)):
                ctx.fail('drag is not along the free stream', tb, F @ f, d.forces['D'])
            if not np.allclose(np.linalg.norm([d.forces[k] for k in 'DCL']), np.linalg.norm(F), rtol=1e-6):
                ctx.fail('wind axes are not orthonormal', tb)


# ---------------------------------------------------------------- S02
def solve(ctx):
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    r = ctx.rng()
    for t in range(40 * ctx.scale):
        n = int(r.choice([1, 2, 3, 6, 12]))
        d = VLMData()
        A = r.uniform(-1, 1, (n, n)) + (2 * n * np.eye(n) if t % 2 else 0)
        if t % 5 == 0 and n > 1:
            A = A[r.permutation(n)]
        b = r.uniform(-3, 3, n)
        if t % 7 == 0:
            b[:] = 0
        if np.linalg.cond(A) > 1e8:
            continue
        d.matrix_downwash, d.array_rhs = A.copy(), b.copy()
        vlm.solver(d)
        g = np.asarray(d.panelwise['gamma'], float)
        ctx.count()
        if g.shape != (n,) or not np.allclose(A @ g, b, rtol=1e-7, atol=1e-7):
            ctx.fail('residual of the linear system', [A, b], b, A @ g if g.shape == (n,) else g)
        if not np.array_equal(d.matrix_downwash, A) or not np.array_equal(d.array_rhs, b):
            ctx.fail('the solver changes matrix or right-hand side', [A, b])
    for t in range(30 * ctx.scale):
        n = int(r.choice([1, 2, 3, 5]))
        A = r.integers(-3, 4, (n, n)).astype(float)
        k = t % 4
        if k == 0:
            A[int(r.integers(n))] = 0
        elif k == 1:
            A[:, int(r.integers(n))] = 0
        elif k == 2 and n > 1:
            A[1] = A[0]
        else:
            A[:] = 0
        b = r.uniform(-3, 3, n)
        d = VLMData()
        d.matrix_downwash, d.array_rhs = A.copy(), b.copy()
        from scipy.linalg import lapack
        if lapack.dgesv(A, b)[3] == 0:
            continue      # rounding hides the singularity
        ctx.count()
        try:
            vlm.solver(d)
        except Exception:
            continue
        ctx.fail('a singular system gives numbers', [A, b], 'an error', d.panelwise['gamma'])


def tangential(ctx):
    """S02: whole chain: no flow through any panel"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    from b_kernels import horseshoe, freestream
    r = ctx.rng()
    for t in range(8 * ctx.scale):
        ac = M.aircraft(r, nwings=int(r.integers(1, 3)), nseg=1, devs=t % 3)
        try:
            ac.generate()
            st = M.St()
            vlm.set_autopanels(ac, st)
            cur = M.cur_state(r)
            cur.refs = {k: np.array(v, float) if isinstance(v, list) else v for k, v in ac.refs.items()}
            lat = vlm.gen_lattice(ac, cur, st)
        except ValueError:
            continue
        d = VLMData()
        vlm.calc_downwash(lat, d)
        vlm.calc_boundary(lat, cur, d)
        A, b = d.matrix_downwash.copy(), d.array_rhs.copy()
        vlm.solver(d)
        g = d.panelwise['gamma']
        s = cur.aero
        om = np.array([s['rate_P'], s['rate_Q'], s['rate_R']])
        n = len(g)
        flow = np.zeros(n)
        for i in range(n):
            v = s['airspeed'] * freestream(s['alpha'], s['beta']) - np.cross(om, lat.c[i] - cur.refs['gcenter'])
            for j in range(n):
                v = v + g[j] * horseshoe(lat.c[i], lat.v[j], lat.epsilon)
            flow[i] = v @ lat.n[i]
        ctx.count()
        if np.linalg.cond(A) > 1e7:
            continue
        if not np.allclose(flow, 0, atol=1e-5 * s['airspeed']):
            ctx.fail('flow through a panel', [M.describe(ac), s, cur.refs], 0, flow)

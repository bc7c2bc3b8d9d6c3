"""compiled kernels against an independent numpy implementation of their contracts"""
import numpy as np

DEG = np.pi / 180.0


class Obj:
    pass


def freestream(al, be):
    a, b = al * DEG, be * DEG
    return np.array([np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)])


def mk_state(r, zero=False):
    s = Obj()
    s.aero = {'airspeed': 0.0 if zero else float(r.uniform(1, 200)), 'density': float(r.uniform(0.1, 1.5)), 'alpha': float(r.uniform(-60, 60)),
              'beta': float(r.uniform(-60, 60)), 'rate_P': float(r.uniform(-1, 1)), 'rate_Q': float(r.uniform(-1, 1)),
              'rate_R': float(r.uniform(-1, 1)), 'altitude': float(r.uniform(0, 9000)), 'mach': 0.2}
    if zero and r.random() < 0.6:
        s.aero.update(airspeed=float(r.choice([0.0, 40.0])), density=0.0)
    for k, p in (('alpha', .15), ('beta', .15), ('rate_P', .15), ('rate_Q', .15), ('rate_R', .15)):
        if r.random() < p:
            s.aero[k] = 0.0
    s.refs = {'area': float(r.uniform(1, 50)), 'span': float(r.uniform(1, 20)), 'chord': float(r.uniform(0.5, 4)),
              'gcenter': r.uniform(-2, 2, 3), 'rcenter': r.uniform(-2, 2, 3)}
    return s


INFO = ['num_wings', 'num_controls', 'num_segments', 'num_strips', 'num_panels']
INFO_OUT = ['area_min', 'area_max', 'area_avg', 'aspect_min', 'aspect_max', 'aspect_avg']


def mk_lattice(r, n, nseg=1, fill=True):
    l = Obj()
    g = (lambda *s: r.uniform(-5, 5, s)) if fill else (lambda *s: np.full(s, np.nan))
    l.p, l.v, l.c, l.bound_leg_midpoints = g(n, 4, 3), g(n, 4, 3), g(n, 3), g(n, 3)
    l.n = g(n, 3)
    if fill:
        l.n /= np.linalg.norm(l.n, axis=1)[:, None]
    l.a = np.abs(g(n))
    l.epsilon = 1e-6
    l.info = {k: 7 for k in INFO}
    l.info.update(num_panels=n, num_segments=nseg)
    l.info.update({k: 0.0 for k in INFO_OUT})
    return l


PAN = ['gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp']


def mk_data(r, n):
    d = Obj()
    d.panelwise = {k: r.uniform(-3, 3, n) for k in PAN}
    d.forces = {k: float(r.uniform(-9, 9)) for k in 'xyzDCLlmn'}
    d.coeffs = {k: float(r.uniform(-9, 9)) for k in 'xyzDCLlmn'}
    return d


def segvel(p, v1, v2, eps):
    r1, r2 = p - v1, p - v2
    m1, m2 = np.linalg.norm(r1), np.linalg.norm(r2)
    return np.cross(r1, r2) / (4 * np.pi) * (1 / m1 + 1 / m2) / (np.dot(r1, r2) + m1 * m2 * (1 + eps))


def horseshoe(p, v, eps):
    return sum(segvel(p, v[k], v[k + 1], eps) for k in range(3))


def close(a, b, rtol=1e-6, atol=1e-9):
    return np.allclose(a, b, rtol=rtol, atol=atol)


def snapshot(l, s):
    return [np.array(x) for x in (l.p, l.v, l.c, l.bound_leg_midpoints, l.n, l.a)], dict(l.info), dict(s.aero), {k: np.array(v) for k, v in s.refs.items()}


def same_snap(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[0], b[0])) and a[1] == b[1] and a[2] == b[2] and all(np.array_equal(a[3][k], b[3][k]) for k in a[3])


def dump(l=None, s=None, d=None, **kw):
    o = dict(kw)
    if l is not None:
        o['lattice'] = {k: v for k, v in vars(l).items()}
    if s is not None:
        o['state'] = vars(s)
    if d is not None:
        o['vlmdata'] = vars(d)
    return o


def downwash(ctx):
    from pytornado.aero import c_vlm
    for t in range(25 * ctx.scale):
        r = ctx.rng(t)
        n = int(r.choice([1, 2, 3, 5, 8, 13]))
        l, s = mk_lattice(r, n), mk_state(r)
        l.epsilon = float(r.choice([1e-6, 1e-3, 0.3]))
        if t % 5 == 1:
            l.v *= 40
        if t % 5 == 2:      # collocation points close to the vortex lines
            j = int(r.integers(n))
            l.c[j] = 0.5 * (l.v[j, 1] + l.v[j, 2]) + 1e-3 * r.uniform(-1, 1, 3)
        if t % 5 == 3:
            l.v[:, 0] += 1000 * freestream(*r.uniform(-40, 40, 2))
            l.v[:, 3] += 1000 * freestream(*r.uniform(-40, 40, 2))
        dw = np.full((n, n), 77.0)
        sn = snapshot(l, s)
        c_vlm.py2c_downwash(l, dw)
        exp = np.array([[np.dot(horseshoe(l.c[i], l.v[j], l.epsilon), l.n[i]) for j in range(n)] for i in range(n)])
        ctx.count()
        if not close(dw, exp, 1e-5, 1e-9):
            ctx.fail('influence matrix', dump(l), exp, dw)
        if not same_snap(sn, snapshot(l, s)):
            ctx.fail('influence matrix changes its inputs', dump(l))


def onset(s, x):
    om = np.array([s.aero['rate_P'], s.aero['rate_Q'], s.aero['rate_R']])
    return s.aero['airspeed'] * freestream(s.aero['alpha'], s.aero['beta']) - np.cross(om, x - s.refs['gcenter'])


def boundary(ctx):
    from pytornado.aero import c_vlm
    for t in range(60 * ctx.scale):
        r = ctx.rng(t)
        n = int(r.choice([1, 2, 4, 7, 12]))
        l, s = mk_lattice(r, n), mk_state(r)
        if t % 4 == 1:
            s.aero['rate_P'] = s.aero['rate_R'] = 0.0
        if t % 4 == 2:
            s.aero['airspeed'] = 0.0
        rhs = np.full(n, 55.0)
        sn = snapshot(l, s)
        c_vlm.py2c_boundary(l, s, rhs)
        exp = np.array([-np.dot(onset(s, l.c[i]), l.n[i]) for i in range(n)])
        ctx.count()
        if not close(rhs, exp):
            ctx.fail('right-hand side', dump(l, s), exp, rhs)
        if not same_snap(sn, snapshot(l, s)):
            ctx.fail('right-hand side changes its inputs', dump(l, s))


def expected_results(l, s, g):
    n = len(g)
    om = np.array([s.aero['rate_P'], s.aero['rate_Q'], s.aero['rate_R']])
    iw = np.zeros((n, 3))
    f = np.zeros((n, 3))
    m = np.zeros((n, 3))
    for i in range(n):
        x = l.bound_leg_midpoints[i]
        for j in range(n):
            iw[i] += g[j] * horseshoe(x, l.v[j], l.epsilon)
        V = iw[i] + onset(s, x)
        f[i] = s.aero['density'] * g[i] * np.cross(V, l.v[i, 2] - l.v[i, 1])
        m[i] = np.cross(x - s.refs['rcenter'], f[i])
    q = 0.5 * s.aero['density'] * s.aero['airspeed'] ** 2
    cp = np.array([np.dot(f[i], l.n[i]) / (q * l.a[i]) if q else np.nan for i in range(n)])
    return iw, f, m, cp


def coeff_of(F, M, s):
    a, b = s.aero['alpha'] * DEG, s.aero['beta'] * DEG
    q = 0.5 * s.aero['density'] * s.aero['airspeed'] ** 2
    q = q if q != 0 else 1.0
    S, c, bb = s.refs['area'], s.refs['chord'], s.refs['span']
    d = np.array([np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)])
    e = np.array([np.cos(a) * np.sin(b), np.cos(b), np.sin(a) * np.sin(b)])
    k = np.array([-np.sin(a), 0, np.cos(a)])
    D, C, L = F @ d, F @ e, F @ k
    return {'D': D, 'C': C, 'L': L}, {'x': F[0] / (q * S), 'y': F[1] / (q * S), 'z': F[2] / (q * S), 'D': D / (q * S), 'C': C / (q * S), 'L': L / (q * S),
                                      'l': M[0] / (q * S * bb), 'm': M[1] / (q * S * c), 'n': M[2] / (q * S * bb)}


def results(ctx):
    from pytornado.aero import c_vlm
    for t in range(40 * ctx.scale):
        r = ctx.rng(t)
        n = int(r.choice([1, 2, 3, 5, 9]))
        l, s, d = mk_lattice(r, n), mk_state(r, zero=t % 5 == 4), mk_data(r, n)
        l.epsilon = float(r.choice([1e-6, 0.2]))
        g = np.array(d.panelwise['gamma'])
        sn = snapshot(l, s)
        c_vlm.py2c_results(l, s, d)
        iw, f, m, cp = expected_results(l, s, g)
        F, M = f.sum(0), m.sum(0)
        wind, co = coeff_of(F, M, s)
        exp_p = {'gamma': g, 'vx': iw[:, 0], 'vy': iw[:, 1], 'vz': iw[:, 2], 'vmag': np.linalg.norm(iw, axis=1), 'fx': f[:, 0], 'fy': f[:, 1],
                 'fz': f[:, 2], 'fmag': np.linalg.norm(f, axis=1)}
        if s.aero['airspeed'] and s.aero['density']:
            exp_p['cp'] = cp
        exp_f = dict(x=F[0], y=F[1], z=F[2], l=M[0], m=M[1], n=M[2], **wind)
        ctx.count()
        inp = lambda: dump(l, s, None, gamma=g)
        for k, v in exp_p.items():
            if not close(d.panelwise[k], v, 1e-5, 1e-7):
                ctx.fail('panelwise[%s]' % k, inp(), v, d.panelwise[k])
        sc = max(1.0, np.abs(f).sum(), np.abs(m).sum())
        for k, v in exp_f.items():
            if not close(d.forces[k], v, 1e-6, 1e-9 * sc):
                ctx.fail('forces[%s]' % k, inp(), v, d.forces[k])
        q = 0.5 * s.aero['density'] * s.aero['airspeed'] ** 2 or 1.0
        for k, v in co.items():
            if not close(d.coeffs[k], v, 1e-6, 1e-9 * sc / (q * s.refs['area'] * min(1, s.refs['span'], s.refs['chord']))):
                ctx.fail('coeffs[%s]' % k, inp(), v, d.coeffs[k])
        if set(d.forces) != set('xyzDCLlmn') or set(d.coeffs) != set('xyzDCLlmn') or set(d.panelwise) != set(PAN):
            ctx.fail('result entries added or lost', inp(), None, [sorted(d.forces), sorted(d.coeffs), sorted(d.panelwise)])
        if not same_snap(sn, snapshot(l, s)):
            ctx.fail('results change their inputs', inp())


def quads(r, nseg, kind):
    """corner points of regions: inner leading, outer leading, outer trailing, inner trailing"""
    pts = np.zeros((nseg, 4, 3))
    for k in range(nseg):
        x0, y0, c1, c2, b, sw, dih = r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(0.3, 2), r.uniform(0.3, 2), r.uniform(0.3, 4), r.uniform(-1, 1), r.uniform(-1, 1)
        pts[k] = [[x0, y0, 0], [x0 + sw, y0 + b, dih], [x0 + sw + c2, y0 + b, dih], [x0 + c1, y0, 0]]
        if kind == 1:
            pts[k] += r.uniform(-0.1, 0.1, (4, 3))
        if kind == 2:       # vertical
            pts[k] = pts[k][:, [0, 2, 1]]
    return pts


def lattice(ctx):
    from pytornado.aero import c_vlm
    for t in range(60 * ctx.scale):
        r = ctx.rng(t)
        nseg = int(r.choice([1, 2, 3, 5]))
        pts = quads(r, nseg, t % 3)
        pan = r.integers(1, 5, (nseg, 2))
        if t % 4:
            pan[:, 0] = 1 if t % 4 == 1 else pan[:, 0]
        pan = np.ascontiguousarray(pan.astype(int))
        n = int((pan[:, 0] * pan[:, 1]).sum())
        l, s = mk_lattice(r, n, nseg, fill=False), mk_state(r)
        guard = [np.concatenate([x.ravel(), np.full(30, 4.25)]) for x in (l.p, l.v, l.c, l.bound_leg_midpoints, l.n, l.a)]
        shp = [x.shape for x in (l.p, l.v, l.c, l.bound_leg_midpoints, l.n, l.a)]
        l.p, l.v, l.c, l.bound_leg_midpoints, l.n, l.a = [g[:-30].reshape(sh) for g, sh in zip(guard, shp)]
        sym = np.zeros(nseg, dtype=int)
        a0, i0, p0, n0 = dict(s.aero), dict(l.info), pts.copy(), pan.copy()
        c_vlm.py2c_lattice(l, s, pts, sym, pan)
        inp = lambda: {'corners': p0, 'panels': n0, 'state': s.aero}
        ctx.count()
        if not all((g[-30:] == 4.25).all() for g in guard):
            ctx.fail('writes outside the lattice arrays', inp())
        if s.aero != a0 or not np.array_equal(p0, pts) or not np.array_equal(n0, pan):
            ctx.fail('lattice generation changes its inputs', inp())
        fr = freestream(s.aero['alpha'], s.aero['beta'])
        slot = 0
        areas, asps = [], []
        for k in range(nseg):
            A, B, C, D = p0[k]
            ns, nc = n0[k]
            bil = lambda u, v: (1 - u) * (1 - v) * A + u * (1 - v) * B + u * v * C + (1 - u) * v * D
            for j in range(ns):
                for i in range(nc):
                    q = [bil(j / ns, i / nc), bil((j + 1) / ns, i / nc), bil((j + 1) / ns, (i + 1) / nc), bil(j / ns, (i + 1) / nc)]
                    P, Q, R, S = q
                    where = {'region': k, 'span index': j, 'chord index': i, 'slot': slot}
                    if not close(l.p[slot], q, 1e-8):
                        ctx.fail('panel corner points', dict(inp(), **where), q, l.p[slot], key='L01')
                    v2, v3 = 0.75 * P + 0.25 * S, 0.75 * Q + 0.25 * R
                    if not (close(l.v[slot, 1], v2) and close(l.v[slot, 2], v3)):
                        ctx.fail('bound vortex end points', dict(inp(), **where), [v2, v3], l.v[slot, 1:3], key='L02')
                    for x, y in ((0, 1), (3, 2)):
                        leg = l.v[slot, x] - l.v[slot, y]
                        ln = np.linalg.norm(leg)
                        if ln < 900 or not close(leg / ln, fr, 1e-8, 1e-8):
                            ctx.fail('trailing leg', dict(inp(), **where), fr, leg, key='L02')
                    col = (P + Q) / 8 + 3 * (R + S) / 8
                    if not close(l.c[slot], col):
                        ctx.fail('collocation point', dict(inp(), **where), col, l.c[slot], key='L02')
                    if not close(l.bound_leg_midpoints[slot], (v2 + v3) / 2):
                        ctx.fail('force application point', dict(inp(), **where), (v2 + v3) / 2, l.bound_leg_midpoints[slot], key='L02')
                    chordline = (R + S) / 2 - (P + Q) / 2
                    e1 = col - (P + Q) / 2
                    e2 = col - (0.75 * Q + 0.25 * R if False else (Q + 3 * R) / 4)
                    nn = np.cross(e1, e2)
                    nn /= np.linalg.norm(nn)
                    if not close(l.n[slot], nn, 1e-6, 1e-8):
                        ctx.fail('panel normal', dict(inp(), **where), nn, l.n[slot], key='L02')
                    sp, ch = np.linalg.norm((Q + R - P - S) / 2), np.linalg.norm(chordline)
                    areas.append(sp * ch)
                    asps.append(sp / ch)
                    if not close(l.a[slot], sp * ch):
                        ctx.fail('panel area', dict(inp(), **where), sp * ch, l.a[slot], key='L02')
                    slot += 1
        exp = dict(area_min=min(areas), area_max=max(areas), area_avg=np.mean(areas), aspect_min=min(asps), aspect_max=max(asps), aspect_avg=np.mean(asps))
        for k, v in exp.items():
            if not close(l.info[k], v):
                ctx.fail('lattice.info[%s]' % k, inp(), v, l.info[k], key='L02')
        for k in INFO:
            if l.info[k] != i0[k]:
                ctx.fail('lattice.info[%s] changed' % k, inp(), i0[k], l.info[k], key='L02')


def lattice_corners(ctx):
    _filter(ctx, lattice, 'L01')


def lattice_panels(ctx):
    _filter(ctx, lattice, 'L02')


def _filter(ctx, f, tag):
    """keep the failures of one property of a shared battery"""
    orig = ctx.fail

    def fail(what, inp, expected=None, got=None, key=None):
        if key in (None, tag):
            orig(what, inp, expected, got)
    ctx.fail = fail
    try:
        f(ctx)
    finally:
        ctx.fail = orig


def chain(ctx):
    """the Python drivers hand lattice, state and data to the kernels; earlier contents of the containers do not matter"""
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    for t in range(6 * ctx.scale):
        r = ctx.rng(t)
        d = VLMData()
        for rep in range(3):
            n = int(r.choice([1, 2, 4, 7])) if rep != 1 else n
            l, s = mk_lattice(r, n), mk_state(r)
            sn = snapshot(l, s)
            vlm.calc_downwash(l, d)
            vlm.calc_boundary(l, s, d)
            A = np.array([[np.dot(horseshoe(l.c[i], l.v[j], l.epsilon), l.n[i]) for j in range(n)] for i in range(n)])
            b = -np.array([np.dot(onset(s, l.c[i]), l.n[i]) for i in range(n)])
            g = r.uniform(-3, 3, n)
            d.panelwise['gamma'] = g.copy()
            vlm.calc_results(l, s, d)
            iw, f, m, cp = expected_results(l, s, g)
            ctx.count()
            inp = lambda: dump(l, s, None, gamma=g, calculation=rep)
            if not close(d.matrix_downwash, A, 1e-5, 1e-9):
                ctx.fail('influence matrix', inp(), A, d.matrix_downwash)
            if not close(d.array_rhs, b, 1e-6, 1e-9):
                ctx.fail('right-hand side', inp(), b, d.array_rhs)
            sc = max(1.0, np.abs(f).sum(), np.abs(m).sum())
            for k, v in (('vx', iw[:, 0]), ('fx', f[:, 0]), ('fy', f[:, 1]), ('fz', f[:, 2]), ('cp', cp), ('gamma', g), ('vmag', np.linalg.norm(iw, axis=1))):
                if np.shape(d.panelwise[k]) != np.shape(v) or not close(d.panelwise[k], v, 1e-5, 1e-7 * sc):
                    ctx.fail('panelwise[%s]' % k, inp(), v, d.panelwise[k])
            for k, v in zip('xyzlmn', list(f.sum(0)) + list(m.sum(0))):
                if not close(d.forces[k], v, 1e-6, 1e-9 * sc):
                    ctx.fail('forces[%s]' % k, inp(), v, d.forces[k])
            if not same_snap(sn, snapshot(l, s)):
                ctx.fail('lattice or state changed', inp())

"""strips of a segment: spanwise partition, chordwise parts, placement of control surfaces"""
import numpy as np
import model as M
from model import bil

BAD = (ValueError, RuntimeError)


def lim(A):
    return getattr(A, 'MIN_ETA_LIMIT', 0.01)


class Ctl:
    def __init__(self, typ, uid='c'):
        self.device_type, self.uid = typ, uid
        self.deflection = self.deflection_mirror = 0.0
        self.panels = {'num_c': None}


def control(w, typ, uid):
    c = w.add_control(uid)
    c.device_type = typ
    c.deflection = 1.0
    c.deflection_mirror = 1.0
    return c


def planar_quad(r, inner=None):
    """convex plane quadrilateral, dihedral plane; returns a b c d"""
    if inner is None:
        g = r.uniform(-0.5, 0.5)
        ch, sp = r.uniform(0.8, 3), r.uniform(1, 6)
        q = [(0, 0), (r.uniform(-0.3, 1), sp)]
        t = ch * r.uniform(0.4, 1.2)
        k1, k2 = r.uniform(-0.1, 0.1, 2)
        q += [(q[1][0] + t, sp + k2 * t), (ch, k1 * ch)]
        o = r.uniform(-2, 2, 3)
        return [o + np.array([x, s * np.cos(g), s * np.sin(g)]) for x, s in q]
    a, d = inner
    g, sp = r.uniform(-0.5, 0.5), r.uniform(1, 5)
    b = a + np.array([r.uniform(-0.2, 0.6), sp * np.cos(g), sp * np.sin(g)])
    return [a, b, b + r.uniform(0.5, 1.1) * (d - a), d]


def segment(r, planar=True, nseg=1, wing=None, num_s=None):
    from pytornado.objects.aircraft import Aircraft
    ac = Aircraft()
    ac.uid = 'ac'
    ac.refs.update(area=1.0, span=1.0, chord=1.0, gcenter=[0.0, 0.0, 0.0], rcenter=[0.0, 0.0, 0.0])
    w = ac.add_wing('w')
    w.symmetry = 0
    inner = None
    for k in range(nseg):
        s = w.add_segment('s%d' % k)
        a, b, c, d = planar_quad(r, inner) if planar else M.quad(r, inner)
        inner = (b, c)
        for n, p in zip('abcd', (a, b, c, d)):
            s.vertices[n] = [float(x) for x in p]
        s.airfoils['inner'] = s.airfoils['outer'] = 'NACA0012'
        if num_s is not None:
            s.panels['num_s'] = int(num_s[k])
            s.panels['num_c'] = 2
    ac.generate()
    return ac, w, [w.segments['s%d' % k] for k in range(nseg)]


def lines(s):
    """strips from inner to outer end"""
    return sorted(s.subdivision.values(), key=lambda t: float(t.rel_vertices.get('eta_a', np.nan)))


def pos(s):
    return [[float(t.rel_vertices.get('eta_' + k, np.nan)) for k in 'abcd'] for t in lines(s)]


def partition(p):
    """None if the strips p partition [0, 1], else what is wrong"""
    if not p:
        return 'no strips'
    if p[0][0] != 0 or p[-1][1] != 1:
        return 'ends of the span'
    for a, b, c, d in p:
        if a != d or b != c:
            return 'leading and trailing edge positions differ'
        if not a < b:
            return 'width not positive'
    for x, y in zip(p, p[1:]):
        if x[1] != y[0]:
            return 'gap or overlap between strips'
    return None


def parts(st):
    """None if slat, main part and flap fill the strip, else what is wrong"""
    sub = st.subarea
    if 'segment' not in sub or set(sub) - {'slat', 'segment', 'flap'}:
        return 'kinds of parts'
    seq = [sub[k].rel_vertices for k in ('slat', 'segment', 'flap') if k in sub]
    for up, lo in (('a', 'd'), ('b', 'c')):
        e = [(float(v['xsi_' + up]), float(v['xsi_' + lo])) for v in seq]
        if e[0][0] != 0 or e[-1][1] != 1:
            return 'chord not covered to leading and trailing edge'
        for x, y in zip(e, e[1:]):
            if abs(x[1] - y[0]) > 1e-12:
                return 'gap or overlap between parts'
        if any(not x < y for x, y in e):
            return 'part without chord'
    return None


# ---------------------------------------------------------------- G02
def division(ctx):
    from pytornado.objects import aircraft as A
    r = ctx.rng()
    L = lim(A)
    for t in range(60 * ctx.scale):
        _, _, (s,) = segment(r, planar=t % 2 == 0)
        ref = [0.0, 1.0]
        hist = []
        if [x[:2] for x in pos(s)] != [[0.0, 1.0]]:
            ctx.fail('a new segment is one strip', {}, [[0, 1]], pos(s))
        for n in range(int(r.integers(1, 25))):
            z = r.random()
            if z < 0.5:
                x = float(r.uniform(0, 1))
            elif z < 0.6:
                x = float(r.choice(ref))
            elif z < 0.8:
                x = float(r.choice(ref) + r.choice([-1, 1]) * r.choice([1e-12, 1e-9, 1e-4, 0.5 * L, 0.99 * L, 1.01 * L, 2 * L]))
            elif z < 0.9:
                x = float(r.choice([0.0, 1.0, -0.0, -0.5, 1.5, 1e-15, 1 - 1e-15, L, 1 - L, 1 - 0.1 * L]))
            else:
                x = float(r.integers(1, 20)) / 20
            ign = bool(r.random() < 0.5)
            hist.append((x, ign))
            inp = {'requests': list(hist), 'vertices': M.plain(s.vertices)}
            ctx.count()
            err = None
            try:
                got = s.add_subdivision(x, x, ign)
            except BAD as e:
                err, got = e, None
            valid = 0 < x < 1
            if valid:
                k = max(i for i in range(len(ref) - 1) if ref[i] <= x)
                start = ref[k]
                if x != ref[k] and x - ref[k] >= L:
                    ref.insert(k + 1, x)
                    start = x
            if (err is not None) != (not valid and not ign):
                ctx.fail('a position outside (0, 1) is rejected unless ignored; others are accepted', inp, 'error' if not valid and not ign else 'no error', repr(err))
            p = pos(s)
            if [a for a, b, c, d in p] + [1.0] != ref or partition(p):
                ctx.fail('dividing lines after the requests', inp, ref, p)
                break
            if valid and (got is None or float(got.rel_vertices['eta_a']) != start):
                ctx.fail('strip returned for a division request', inp, start, got and got.rel_vertices)
            if not valid and got is not None:
                ctx.fail('ignored request returns nothing', inp, None, got.rel_vertices)
    history(ctx, ctx.rng(5), 'G02')


def history(ctx, r, what):
    """any sequence of divisions and control surfaces"""
    from pytornado.objects import aircraft as A
    for t in range(60 * ctx.scale):
        planar = t % 4 != 3
        _, w, (s,) = segment(r, planar=planar)
        hist = []
        old = {0.0, 1.0}
        for n in range(int(r.integers(1, 12))):
            z = r.random()
            before = snap(s)
            err = None
            try:
                if z < 0.5:
                    x = near(r, sorted(old))
                    hist.append(('division', x))
                    s.add_subdivision(x, x)
                else:
                    a, b = sorted((near(r, sorted(old)), near(r, sorted(old))))
                    a, b = max(a, 0.0), min(b, 1.0)
                    if not a < b:
                        continue
                    typ = str(r.choice(['slat', 'flap']))
                    x = r.uniform(0.05, 0.35, 2) if typ == 'slat' else r.uniform(0.6, 0.95, 2)
                    if r.random() < 0.15:
                        x = r.uniform(-0.2, 1.2, 2)
                    h = np.clip(x + r.uniform(-0.03, 0.03, 2), 0, 1) if r.random() < 0.9 else r.uniform(-0.2, 1.2, 2)
                    if t == 0 and n < 2:
                        a, b, typ, x, h = [(0.1, 0.5, 'flap', np.array([0.7, 0.7]), np.array([0.7, 0.7])), (0.1, 0.505, 'slat', np.array([0.2, 0.2]), np.array([0.2, 0.2]))][n]
                    c = Ctl(typ, 'c%d' % n)
                    a = 0 if a == 0 else a
                    hist.append((typ, float(a), float(b), x.tolist(), h.tolist()))
                    s.add_subdivision_for_control(a, b, c, float(x[0]), float(x[1]), float(h[0]), float(h[1]))
            except BAD as e:
                err = e
            ctx.count()
            inp = {'history': list(hist), 'vertices': M.plain(s.vertices), 'error': repr(err)}
            if err is not None and planar and hist[-1][0] == 'division' and 0 < hist[-1][1] < 1:
                ctx.fail('a division inside of a plane segment is accepted', inp, 'no error', repr(err))
                break
            p = pos(s)
            bad = partition(p)
            if bad:
                ctx.fail('strips partition the span', inp, bad, p)
                break
            new = {q[0] for q in p} | {1.0}
            if not old <= new:
                ctx.fail('no dividing line is moved or lost', inp, sorted(old), sorted(new))
                break
            old = new
            for st in lines(s):
                bad = parts(st)
                if bad and what == 'G03':
                    ctx.fail('slat, main part and flap fill the strip', inp, bad, {k: q.rel_vertices for k, q in st.subarea.items()})
                    break
            if bad:
                break
            if err is not None:
                break
            if what == 'G03' and hist[-1][0] == 'division':
                divided(ctx, s, before, inp, planar)


def near(r, ref):
    z = r.random()
    if z < 0.6:
        return float(r.uniform(0.01, 0.99))
    if z < 0.75:
        return float(r.choice(ref))
    if z < 0.9:
        return float(r.choice(ref) + r.choice([-1, 1]) * r.choice([1e-9, 0.0005, 0.004, 0.009, 0.011, 0.03]))
    return float(r.integers(1, 20)) / 20


def snap(s):
    out = []
    for st in lines(s):
        out.append((float(st.rel_vertices['eta_a']), float(st.rel_vertices['eta_b']),
                    {k: (dict(q.rel_vertices), dict(q.rel_hinge_vertices) if k != 'segment' else None, q.parent_control) for k, q in st.subarea.items()}))
    return out


def edge(typ, d):
    """positions of the device edge: inner, outer"""
    v = d[0]
    return (v['xsi_d'], v['xsi_c']) if typ == 'slat' else (v['xsi_a'], v['xsi_b'])


def on_line(V, e0, x0, e1, x1, e, x, tol=1e-7):
    """point (e, x) lies on the straight line through (e0, x0) and (e1, x1)"""
    p, q, m = bil(V, e0, x0), bil(V, e1, x1), bil(V, e, x)
    u = (q - p) / np.linalg.norm(q - p)
    return np.linalg.norm(np.cross(m - p, u)) <= tol * (1 + np.linalg.norm(m))


def divided(ctx, s, before, inp, planar):
    """devices on strips before and after one division"""
    after = snap(s)
    for ea, eb, sub in before:
        pieces = [x for x in after if x[0] >= ea and x[1] <= eb]
        for x in pieces:
            if set(x[2]) != set(sub):
                ctx.fail('divided strip keeps its devices', inp, sorted(sub), sorted(x[2]))
                return
        for typ in sub:
            if typ == 'segment':
                continue
            if any(x[2][typ][2] is not sub[typ][2] for x in pieces):
                ctx.fail('parts of a divided device belong to its control', inp)
            e0, e1 = edge(typ, sub[typ])
            h = sub[typ][1]
            E = [edge(typ, x[2][typ]) for x in pieces]
            H = [(x[2][typ][1]['xsi_h1'], x[2][typ][1]['xsi_h2']) for x in pieces]
            ends = (E[0][0], E[-1][1], H[0][0], H[-1][1])
            if not np.allclose(np.array(ends, float), np.array((e0, e1, h['xsi_h1'], h['xsi_h2']), float), atol=1e-12, rtol=0):
                ctx.fail('outer edges and hinge ends of a divided device stay', inp, (e0, e1, h), ends)
            for i in range(len(pieces) - 1):
                if abs(E[i][1] - E[i + 1][0]) > 1e-12 or abs(H[i][1] - H[i + 1][0]) > 1e-12:
                    ctx.fail('parts of a divided device share edge and hinge position', inp, None, [E, H])
                elif planar:
                    x = pieces[i][1]
                    if not on_line(s.vertices, ea, e0, eb, e1, x, E[i][1]):
                        ctx.fail('edge of a divided device stays straight', inp, None, E)
                    if not on_line(s.vertices, ea, h['xsi_h1'], eb, h['xsi_h2'], x, H[i][1]):
                        ctx.fail('hinge line of a divided device stays straight', inp, None, H)


# ---------------------------------------------------------------- G03
def devices(ctx):
    from pytornado.objects import aircraft as A
    r = ctx.rng()
    X = getattr(A, 'MIN_XSI_LIMIT', 0.01)

    def place(s, typ, x1, x2, h1, h2, ctl=None):
        c = ctl or Ctl(typ, typ)
        try:
            s.add_subdivision_for_control(0, 1, c, x1, x2, h1, h2)
        except BAD as e:
            return c, e
        return c, None

    vals = (0.0, 1.0, -0.1, 1.2, 1e-12, 0.5, 1 - 1e-12)
    for typ in ('slat', 'flap'):
        for x in vals:
            for i in (0, 1):
                _, w, (s,) = segment(r)
                xs = [0.5, 0.5]
                xs[i] = x
                c, e = place(s, typ, xs[0], xs[1], 0.5, 0.5)
                ctx.count()
                if (e is None) != (0 < x < 1):
                    ctx.fail('edge outside (0, 1) is rejected', [typ, xs], 'accepted' if 0 < x < 1 else 'rejected', repr(e))
        for h in (0.0, 1.0, -1e-9, 1 + 1e-9, 0.3, -2.0, 3.0):
            for i in (0, 1):
                _, w, (s,) = segment(r)
                hs = [0.5, 0.5]
                hs[i] = h
                c, e = place(s, typ, 0.5, 0.5, hs[0], hs[1])
                ctx.count()
                if (e is None) != (0 <= h <= 1):
                    ctx.fail('hinge outside [0, 1] is rejected', [typ, hs], 'accepted' if 0 <= h <= 1 else 'rejected', repr(e))
    for typ in ('elevator', 'Flap', '', None, 'segment'):
        _, w, (s,) = segment(r)
        c, e = place(s, typ, 0.5, 0.5, 0.5, 0.5)
        ctx.count()
        if e is None:
            ctx.fail('unknown kind of device is rejected', [typ])
    for t in range(150 * ctx.scale):
        _, w, (s,) = segment(r, planar=t % 2 == 0)
        first = str(r.choice(['slat', 'flap']))
        second = str(r.choice(['slat', 'flap']))
        x = r.uniform(0.2, 0.8, 2)
        gap = np.array([float(r.choice([-0.1, -1e-6, 0.0, 0.5 * X, 1.5 * X, 0.1])) for _ in '12'])
        y = x + gap if first == 'slat' else x - gap
        h = r.uniform(0, 1, 4)
        c1, e1 = place(s, first, *[float(q) for q in x], *[float(q) for q in h[:2]])
        before = snap(s)
        c2, e2 = place(s, second, *[float(q) for q in y], *[float(q) for q in h[2:]])
        ctx.count()
        inp = [first, x.tolist(), second, y.tolist(), h.tolist()]
        if e1 is not None:
            ctx.fail('a single device inside the limits is accepted', inp, None, repr(e1))
            continue
        if first == second:
            if e2 is None:
                ctx.fail('second device of the same kind is rejected', inp)
            elif snap(s) != before:
                ctx.fail('rejected device changes nothing', inp, before, snap(s))
            continue
        if (gap <= 0).any() and e2 is None:
            ctx.fail('overlapping device is rejected', inp)
            continue
        if (gap >= X + 1e-9).all() and e2 is not None:
            ctx.fail('device that does not overlap is accepted', inp, None, repr(e2))
            continue
        if e2 is not None:
            if snap(s) != before:
                ctx.fail('rejected device changes nothing', inp, before, snap(s))
            continue
        (st,) = s.subdivision.values()
        bad = parts(st)
        if bad:
            ctx.fail('slat, main part and flap fill the strip', inp, bad, snap(s))
        for typ, c, xx, hh in ((first, c1, x, h[:2]), (second, c2, y, h[2:])):
            p = st.subarea[typ]
            if p.parent_control is not c:
                ctx.fail('part belongs to its control', inp)
            if not np.allclose(edge(typ, (p.rel_vertices,)), xx, atol=1e-12):
                ctx.fail('edge position of the device', inp, xx.tolist(), p.rel_vertices)
            hv = p.rel_hinge_vertices
            if not np.allclose((hv.get('xsi_h1', np.nan), hv.get('xsi_h2', np.nan)), hh, atol=1e-12):
                ctx.fail('hinge position of the device', inp, hh.tolist(), hv)
    history(ctx, ctx.rng(7), 'G03')


# ---------------------------------------------------------------- G04
def points(ctx):
    from pytornado.objects import aircraft as A
    r = ctx.rng()
    for t in range(300 * ctx.scale):
        V = {k: r.uniform(-3, 3, 3) for k in 'abcd'}
        old = {k: v.copy() for k, v in V.items()}
        for e, x in ((0, 0), (1, 0), (1, 1), (0, 1), r.uniform(0, 1, 2), r.uniform(-0.5, 1.5, 2)):
            ctx.count()
            p = A.get_abs_segment_point_coords(V, e, x)
            if not np.allclose(p, bil(old, e, x), atol=1e-10):
                ctx.fail('point map', [M.plain(old), float(e), float(x)], bil(old, e, x), p)
        if any((V[k] != old[k]).any() for k in V):
            ctx.fail('point map changes the vertices', [M.plain(old)])


def placed(w, c):
    """parts of a control per segment, from inner to outer end: (ea, eb, edge inner, outer, hinge inner, outer)"""
    out = {}
    for su, s in w.segments.items():
        rows = []
        for ea, eb, sub in snap(s):
            for typ in sub:
                if sub[typ][2] is c and c is not None:
                    e, h = edge(typ, sub[typ]), sub[typ][1]
                    if typ == 'slat':
                        e = (sub[typ][0]['xsi_d'], sub[typ][0]['xsi_c'])
                    rows.append((ea, eb, float(e[0]), float(e[1]), float(h['xsi_h1']), float(h['xsi_h2']), typ))
        if rows:
            out[su] = rows
    return out


def check_span(ctx, A, s, rows, a, b, xs, hs, typ, inp):
    """parts of a control between a and b of one segment; requested edge and hinge positions at the two ends"""
    L = lim(A) * 1.1 + 1e-9
    for x, y in zip(rows, rows[1:]):
        if abs(x[1] - y[0]) > L:
            ctx.fail('control has a gap', inp, None, rows)
            return
        if abs(x[3] - y[2]) > 1e-9 or abs(x[5] - y[4]) > 1e-9:
            ctx.fail('neighbouring parts share edge and hinge position', inp, None, rows)
            return
    if abs(rows[0][0] - a) > L or abs(rows[-1][1] - b) > L:
        ctx.fail('control covers the requested span', inp, [a, b], [rows[0][0], rows[-1][1]])
        return
    if any(x[6] != typ for x in rows):
        ctx.fail('kind of device', inp, typ, rows)
    got = (rows[0][2], rows[-1][3], rows[0][4], rows[-1][5])
    if not np.allclose(got, (xs[0], xs[1], hs[0], hs[1]), atol=1e-9):
        ctx.fail('edge and hinge positions at the ends of the control', inp, (xs, hs), got)
        return
    if abs(rows[0][0] - a) < 1e-9 and abs(rows[-1][1] - b) < 1e-9:
        for x in rows[:-1]:
            if not on_line(s.vertices, a, xs[0], b, xs[1], x[1], x[3]):
                ctx.fail('edge of the control is straight', inp, None, rows)
            if not on_line(s.vertices, a, hs[0], b, hs[1], x[1], x[5]):
                ctx.fail('hinge line of the control is straight', inp, None, rows)


def controls(ctx):
    from pytornado.objects import aircraft as A
    from pytornado.aero import vlm
    r = ctx.rng()
    for t in range(120 * ctx.scale):
        ns = 1 + t % 4
        num = r.integers(1, 7, ns)
        ac, w, segs = segment(r, nseg=ns, num_s=num)
        want = []
        n = int(r.integers(1, 4))
        for j in range(n):
            typ = ['flap', 'slat', 'flap'][j]
            i0 = int(r.integers(0, ns))
            i1 = int(r.integers(i0, ns))
            if j == 2:                     # second flap beside the first
                i0 = i1 = 0
            if i0 == i1:
                a, b = sorted(r.uniform(0, 1, 2))
                if b - a < 0.05:
                    a, b = 0.2, 0.7
                z = r.random()
                if z < 0.2:
                    a = 0.0
                elif z < 0.4:
                    b = 1.0
                elif z < 0.6:              # on / next to the lines of the strips or of other controls
                    k = int(num[i0])
                    b = float(np.clip(np.ceil(a * k + 1e-9) / k + r.choice([0, 1e-12, -1e-12, 0.004, -0.004]), a + 0.05, 1.0))
                elif want and want[-1][2] == i0 == want[-1][3]:
                    a, b = want[-1][4], float(min(1.0, want[-1][5] + r.choice([0.0, 0.004, -0.004, 0.02])))
            else:
                a, b = r.uniform(0.0, 0.9), r.uniform(0.1, 1.0)
                if r.random() < 0.2:
                    a = 0.0
                if r.random() < 0.2:
                    b = 1.0
            lo, hi = (0.6, 0.9) if typ == 'flap' else (0.1, 0.35)
            x = r.uniform(lo, hi, 2)
            h = np.clip(x + r.uniform(-0.04, 0.04, 2), 0, 1)
            if r.random() < 0.3:
                x[1] = x[0]
            if r.random() < 0.3:
                h[1] = h[0]
            c = control(w, typ, 'c%d' % j)
            c.segment_uid.update(inner='s%d' % i0, outer='s%d' % i1)
            c.rel_vertices.update(eta_inner=float(a), eta_outer=float(b), xsi_inner=float(x[0]), xsi_outer=float(x[1]))
            c.rel_hinge_vertices.update(xsi_inner=float(h[0]), xsi_outer=float(h[1]))
            want.append((c, typ, i0, i1, float(a), float(b), x.tolist(), h.tolist()))
        ctx.count()
        inp = {'vertices': [M.plain(s.vertices) for s in segs], 'num_s': num.tolist(), 'controls': [v[1:] for v in want]}
        try:
            vlm.pre_panelling(ac)
        except BAD as e:
            if 'already has subarea' in str(e) or 'overlap' in str(e) or 'narrow' in str(e).lower():
                continue
            ctx.fail('valid control is accepted', inp, None, repr(e))
            continue
        for s, k in zip(segs, num):
            p = pos(s)
            bad = partition(p)
            if bad:
                ctx.fail('strips partition the span', inp, bad, p)
            ls = [q[0] for q in p] + [1.0]
            for i in range(1, int(k)):
                if min(abs(i / k - q) for q in ls) > lim(A) + 1e-9:
                    ctx.fail('requested number of spanwise strips', inp, i / k, ls)
        for c, typ, i0, i1, a, b, x, h in want:
            got = placed(w, c)
            i1_ = {'s%d' % i: i for i in range(i0, i1 + 1)}
            if set(got) != set(i1_):
                ctx.fail('control has parts on exactly its segments', inp, sorted(i1_), sorted(got))
                continue
            if i0 == i1:
                check_span(ctx, A, segs[i0], got['s%d' % i0], a, b, x, h, typ, inp)
                continue
            ns_ = list(range(i0, i1 + 1))
            eta = [(a if i == i0 else 0.0, b if i == i1 else 1.0) for i in ns_]
            avg = sum(x) / 2
            l = [0.0]
            for i, (e0, e1) in zip(ns_, eta):
                p = bil(segs[i].vertices, e0, x[0] if i == i0 else avg)
                q = bil(segs[i].vertices, e1, x[1] if i == i1 else avg)
                l.append(l[-1] + np.linalg.norm(q - p))
            f = [q / l[-1] for q in l]
            for k, (i, (e0, e1)) in enumerate(zip(ns_, eta)):
                xs = [x[0] + g * (x[1] - x[0]) for g in f[k:k + 2]]
                hs = [h[0] + g * (h[1] - h[0]) for g in f[k:k + 2]]
                check_span(ctx, A, segs[i], got['s%d' % i], e0, e1, xs, hs, typ, inp)
    single(ctx, A, ctx.rng(3))


def single(ctx, A, r):
    """one control on a segment with any division lines"""
    for t in range(200 * ctx.scale):
        ac, w, (s,) = segment(r, planar=True)
        req = [float(x) for x in r.uniform(0.02, 0.98, int(r.integers(0, 6)))]
        for x in req:
            s.add_subdivision(x, x)
        ref = sorted([q[0] for q in pos(s)] + [1.0])
        a, b = sorted((near(r, ref), near(r, ref)))
        a, b = max(a, 0.0), min(b, 1.0)
        if r.random() < 0.2:
            a = 0.0
        if r.random() < 0.2:
            b = 1.0
        if b - a < 0.03:
            continue
        typ = str(r.choice(['slat', 'flap']))
        x, h = r.uniform(0.1, 0.9, 2).tolist(), r.uniform(0, 1, 2).tolist()
        c = Ctl(typ)
        inp = {'vertices': M.plain(s.vertices), 'lines': req, 'control': [typ, a, b, x, h]}
        ctx.count()
        args = x + h
        if r.random() < 0.2:
            args, h = x, x
        try:
            s.add_subdivision_for_control(0 if a == 0 else a, b, c, *args)
        except BAD as e:
            ctx.fail('valid control is accepted', inp, None, repr(e))
            continue
        rows = placed(w, c).get('s0')
        if not rows:
            ctx.fail('control has no parts', inp)
            continue
        check_span(ctx, A, s, rows, a, b, x, h, typ, inp)
        if any(set(q[2]) != {'segment'} for q in snap(s) if q[1] <= rows[0][0] + 1e-12 or q[0] >= rows[-1][1] - 1e-12):
            ctx.fail('other strips have no device', inp, None, [(q[0], q[1], sorted(q[2])) for q in snap(s)])

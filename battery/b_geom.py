"""geometry: mirrored halves, strips, parts, control surfaces, segment geometry"""
import numpy as np
import model as M
from model import refl, bil, AXIS, ORDER


def same(a, b, tol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=tol)


# ---------------------------------------------------------------- G01
def mirror(ctx):
    from pytornado.objects import aircraft as A
    r = ctx.rng()
    names = {1: 'xy', 2: 'xz', 3: 'yz'}
    for t in range(200 * ctx.scale):
        p = r.uniform(-5, 5, 3)
        for plane in (1, 2, 3):
            for key in (plane, names[plane]):
                for q in (p.copy(), list(p), p.copy().tolist()):
                    old = list(q)
                    m = A.mirror_point(q, plane=key)
                    ctx.count()
                    if not same(m, refl(old, plane)) or list(q) != old:
                        ctx.fail('mirror_point', [old, key], refl(old, plane), m)
                    if not same(A.mirror_point(m, plane=key), old):
                        ctx.fail('mirror_point is an involution', [old, key])
            V = [r.uniform(-3, 3, 3) for _ in range(4)]
            old = [v.copy() for v in V]
            m = A.mirror_vertices(tuple(V), plane)
            exp = [refl(V['abcd'.index(k)], plane) for k in ORDER[plane]]
            if not same(m, exp) or not same(V, old):
                ctx.fail('mirror_vertices', [old, plane], exp, m)
    for bad in (0, 4, -1, 'zx', None, 'x', 12, 2.5, '2'):
        for f, a in ((A.mirror_point, np.ones(3)), (A.order_mirrored_vertex_points, (1, 2, 3, 4)), (A.mirror_vertices, tuple(np.ones(3) for _ in range(4)))):
            ctx.count()
            try:
                f(a, bad)
            except Exception:
                continue
            ctx.fail('invalid plane accepted', [f.__name__, bad])
    for t in range(60 * ctx.scale):
        ac = M.aircraft(r, nwings=1, sym=1 + t % 3, nseg=1 + t % 2, devs=t % 3)
        try:
            ac.generate()
            import pytornado.aero.vlm as vlm
            vlm.set_autopanels(ac, M.St())
            vlm.pre_panelling(ac)
        except ValueError:
            continue
        mirrored_parts(ctx, ac)


def mirrored_parts(ctx, ac, key=None):
    for w, s, st, p in M.all_parts(ac):
        if not w.symmetry:
            continue
        pl = w.symmetry
        o, m = st.abs_vertices(False), st.abs_vertices(True)
        ctx.count()
        for i, k in enumerate('abcd'):
            if not same(m[k], refl(o[ORDER[pl][i]], pl)):
                ctx.fail('mirrored strip corner', [M.describe(ac), st.rel_vertices, k], refl(o[ORDER[pl][i]], pl), m[k])
        e = {k: bil(s.vertices, st.rel_vertices['eta_' + k], 0 if k in 'ab' else 1) for k in 'abcd'}
        for k in 'abcd':
            if not same(o[k], e[k]):
                ctx.fail('strip corner', [M.describe(ac), st.rel_vertices, k], e[k], o[k])
        o, m = p.abs_vertices(False), p.abs_vertices(True)
        for i, k in enumerate('abcd'):
            if not same(m[k], refl(o[ORDER[pl][i]], pl)):
                ctx.fail('mirrored part corner', [M.describe(ac), p.type, p.rel_vertices, k], refl(o[ORDER[pl][i]], pl), m[k])
        if p.parent_control is not None:
            h, g = p.abs_hinge_vertices(False), p.abs_hinge_vertices(True)
            sv, hr = st.abs_vertices(False), p.rel_hinge_vertices
            exp = [sv['a'] + hr['xsi_h1'] * (sv['d'] - sv['a']), sv['b'] + hr['xsi_h2'] * (sv['c'] - sv['b'])]
            if not same([h['p_inner'], h['p_outer']], exp):
                ctx.fail('hinge line', [M.describe(ac), p.type, p.rel_vertices, hr], exp, [h['p_inner'], h['p_outer']])
            sw = ('p_outer', 'p_inner') if pl == 2 else ('p_inner', 'p_outer')
            if not same(g['p_inner'], refl(h[sw[0]], pl)) or not same(g['p_outer'], refl(h[sw[1]], pl)):
                ctx.fail('mirrored hinge line', [M.describe(ac), p.type, p.rel_vertices, p.rel_hinge_vertices], [refl(h[x], pl) for x in sw], [g['p_inner'], g['p_outer']])
            if not same(p.abs_hinge_axis(True), g['p_outer'] - g['p_inner']) or not same(p.abs_hinge_axis(False), h['p_outer'] - h['p_inner']):
                ctx.fail('hinge axis', [M.describe(ac)])

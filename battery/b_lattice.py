"""bookkeeping of the lattice (B01), rotation of normals (R01)"""
import math
import numpy as np
import model as M
from b_geom import same


def models(ctx, n, **k):
    from pytornado.aero import vlm
    r = ctx.rng()
    for t in range(n):
        ac = M.aircraft(r, devs=t % 3, **k)
        for w in ac.wings.values():
            for c in w.controls.values():
                c.check()
        st = M.St(vlm_autopanels_c=int(r.integers(1, 6)), vlm_autopanels_s=int(r.integers(1, 6)))
        desc = M.describe(ac)
        try:
            ac.generate()
            vlm.set_autopanels(ac, st)
            lat = None
            cs = M.cur_state(r)
            st.settings['_do_normal_rotations'] = False
            flat = vlm.gen_lattice(ac, cs, st)
        except ValueError:
            continue          # devices of the random model overlap
        yield r, ac, st, cs, flat, desc


def regions(ac):
    """specified regions in order: (part, mirrored, chordwise panels, wing, segment)"""
    out = []
    for w, s, st, p in M.all_parts(ac):
        if p.type == 'segment':
            x = p.rel_vertices
            n = math.ceil((x['xsi_c'] + x['xsi_d'] - x['xsi_a'] - x['xsi_b']) / 2 * s.panels['num_c'])
            exact = (x['xsi_c'] + x['xsi_d'] - x['xsi_a'] - x['xsi_b']) / 2 * s.panels['num_c']
            if abs(exact - round(exact)) < 1e-9:
                n = None          # rounding decides
        else:
            n = p.parent_control.panels['num_c']
        for m in ([False, True] if w.symmetry else [False]):
            out.append((p, m, n, w, s))
    return out


def bookkeeping(ctx):
    from pytornado.aero import vlm
    for r, ac, st, cs, lat, desc in models(ctx, 40 * ctx.scale):
        R = regions(ac)
        B = lat.panel_bookkeeping
        ctx.count()
        if [(id(e.subarea), bool(e.mirror)) for e in B] != [(id(p), m) for p, m, _, _, _ in R]:
            ctx.fail('regions are all parts in order, each followed by its mirrored copy on symmetric wings', desc, [(p.type, m) for p, m, _, _, _ in R], [(e.subarea.type, e.mirror) for e in B])
            continue
        at = 0
        for e, (p, m, n, w, s) in zip(B, R):
            if n is not None and e.num_chordwise_panels != n:
                ctx.fail('number of chordwise panels of a region', [desc, p.type, p.rel_vertices], n, e.num_chordwise_panels)
            if list(e.pan_idx) != list(range(at, at + e.num_chordwise_panels)):
                ctx.fail('panel index range of a region', [desc, p.type, m], [at, at + e.num_chordwise_panels], [e.pan_idx[0], e.pan_idx[-1] + 1] if len(e.pan_idx) else [])
            c = p.abs_vertices(m)
            k = e.num_chordwise_panels
            for j, i in enumerate(e.pan_idx):
                if i >= len(lat.p):
                    ctx.fail('panel index outside the lattice', [desc, i], len(lat.p))
                    break
                exp = [M.bil(c, eta, (j + x) / k) for eta, x in ((0, 0), (1, 0), (1, 1), (0, 1))]
                if not same(lat.p[i], exp):
                    ctx.fail('corner points of panel %d of a region are those of its part' % j, [desc, p.type, m, p.rel_vertices, p.parent_subdivision.rel_vertices], exp, lat.p[i])
            at += e.num_chordwise_panels
        N = at
        exp = {'num_wings': len(ac.wings), 'num_controls': sum(len(w.controls) for w in ac.wings.values()), 'num_segments': len(R), 'num_strips': N, 'num_panels': N}
        got = {k: lat.info[k] for k in exp}
        if got != exp:
            ctx.fail('reported counts', desc, exp, got)
        for nm, by, mir in (('wing', lat.bookkeeping_by_wing_uid, False), ('mirrored wing', lat.bookkeeping_by_wing_uid_mirror, True)):
            exp = {}
            for e, (p, m, n, w, s) in zip(B, R):
                if m == mir:
                    exp.setdefault(w.uid, []).append(e)
            got = {u: list(v) for u, v in by.items() if v}
            if set(got) != set(exp) or any(len(got[u]) != len(exp[u]) or any(a is not b for a, b in zip(got[u], exp[u])) for u in exp):
                ctx.fail('regions listed by %s' % nm, desc, {u: len(v) for u, v in exp.items()}, {u: len(v) for u, v in got.items()})
        from pytornado.objects import objecttools as ot
        exp = [len(ac.wings), sum(len(w.segments) for w in ac.wings.values()), sum(len(w.controls) for w in ac.wings.values()), sum(1 for _ in M.all_parts(ac))]
        got = [ot.count_all_wings(ac), ot.count_all_segments(ac), ot.count_all_controls(ac), ot.count_all_subareas(ac)]
        if got != exp:
            ctx.fail('numbers of wings, segments, controls and regions', desc, exp, got)
        shapes = {'p': (N, 4, 3), 'v': (N, 4, 3), 'c': (N, 3), 'bound_leg_midpoints': (N, 3), 'n': (N, 3), 'a': (N,)}
        got = {k: np.shape(getattr(lat, k)) for k in shapes}
        if got != shapes:
            ctx.fail('sizes of the lattice arrays', desc, shapes, got)
        if lat.epsilon != st.settings['_epsilon']:
            ctx.fail('regularisation parameter', desc, st.settings['_epsilon'], lat.epsilon)
        by = {}
        bm = {}
        for e, (p, m, n, w, s) in zip(B, R):
            (bm if m else by).setdefault(w.uid, []).append(e)
        if {k: v for k, v in lat.bookkeeping_by_wing_uid.items()} != by or {k: v for k, v in lat.bookkeeping_by_wing_uid_mirror.items()} != bm:
            ctx.fail('regions listed by wing', desc)
        # a second lattice from the same parts: same regions, own bookkeeping
        n0 = len(R)
        lat2 = vlm.gen_lattice(ac, M.cur_state(r), st, make_new_subareas=False)
        if len(regions(ac)) != n0 or len(lat2.panel_bookkeeping) != n0 or len(lat.panel_bookkeeping) != n0 or not same(lat2.p, lat.p):
            ctx.fail('second lattice from the same strips', desc, n0, [len(regions(ac)), len(lat2.panel_bookkeeping), len(lat.panel_bookkeeping)])


def rot(axis, angle, x):
    k = np.asarray(axis, float) / np.linalg.norm(axis)
    return x * math.cos(angle) + np.cross(k, x) * math.sin(angle) + k * np.dot(k, x) * (1 - math.cos(angle))


def rotation(ctx):
    from pytornado.aero import vlm
    from airfoils import Airfoil, MorphAirfoil
    for r, ac, st, cs, flat, desc in models(ctx, 40 * ctx.scale):
        st.settings['_do_normal_rotations'] = True
        if r.random() < 0.2:
            for w in ac.wings.values():
                for c in w.controls.values():
                    c.deflection = 0.0
        lat = vlm.gen_lattice(ac, cs, st, make_new_subareas=False)
        ctx.count()
        if not same(lat.p, flat.p) or not same(lat.c, flat.c) or not same(lat.a, flat.a) or not same(lat.v, flat.v) or not same(lat.bound_leg_midpoints, flat.bound_leg_midpoints):
            ctx.fail('rotation of normals changes other lattice quantities', desc)
        if not same(np.linalg.norm(lat.n, axis=1), 1):
            ctx.fail('normals have unit length', desc, 1, np.linalg.norm(lat.n, axis=1))
        for e in flat.panel_bookkeeping:
            p, m = e.subarea, e.mirror
            d = 0
            if p.parent_control is not None:
                d = p.parent_control.deflection_mirror if m else p.parent_control.deflection
            ev = p.parent_subdivision.rel_vertices
            seg = p.parent_segment.airfoils
            foil = MorphAirfoil(*[Airfoil.NACA4(seg[q][4:]) for q in ('inner', 'outer')]).at_eta((ev['eta_a'] + ev['eta_b']) / 2)
            c = p.abs_vertices(m)
            ax = np.cross(np.cross(c['b'] - c['a'], c['d'] - c['a']), c['d'] - c['a'])
            x = p.rel_vertices
            le, te = (x['xsi_a'] + x['xsi_b']) / 2, (x['xsi_c'] + x['xsi_d']) / 2
            h = None
            if d:
                sv, hr, sym = p.parent_subdivision.abs_vertices(False), p.rel_hinge_vertices, p.parent_wing.symmetry
                ends = [sv['a'] + hr['xsi_h1'] * (sv['d'] - sv['a']), sv['b'] + hr['xsi_h2'] * (sv['c'] - sv['b'])]
                if m:
                    ends = [M.refl(q, sym) for q in (ends[::-1] if sym == 2 else ends)]
                h = ends[1] - ends[0]
            for j, i in enumerate(e.pan_idx):
                n = flat.n[i]
                if d:
                    n = rot(h, math.radians(d), n)
                ang = math.radians(foil.camber_line_angle(le + (j + 0.75) / len(e.pan_idx) * (te - le)))
                n = rot(ax, ang, n)
                if not same(lat.n[i], n, 1e-8):
                    ctx.fail('normal of panel %d of a %s%s' % (j, p.type, ' (mirrored)' if m else ''), [desc, x, ev, {'deflection': d, 'camber angle': ang}], n, lat.n[i])
                    break


def symmetric_foil(ctx):
    """no camber, no deflection: flat normals; deflection moves only normals of the control surface"""
    from pytornado.aero import vlm
    r = ctx.rng()
    for t in range(15 * ctx.scale):
        ac = M.aircraft(r, devs=1 + t % 2)
        for w in ac.wings.values():
            for s in w.segments.values():
                s.airfoils.update(inner='NACA0012', outer='NACA0012')
            for c in w.controls.values():
                c.check()
        st = M.St()
        try:
            ac.generate()
            vlm.set_autopanels(ac, st)
            lat = vlm.gen_lattice(ac, M.cur_state(r), st)
            flat = vlm.gen_lattice(ac, M.cur_state(r), M.St(_do_normal_rotations=False), make_new_subareas=False)
        except ValueError:
            continue
        ctx.count()
        for e in lat.panel_bookkeeping:
            c = e.subarea.parent_control
            d = 0 if c is None else c.deflection_mirror if e.mirror else c.deflection
            for i in e.pan_idx:
                same_n = same(lat.n[i], flat.n[i], 1e-8)
                if not d and not same_n:
                    ctx.fail('normal of an undeflected flat panel is changed', [M.describe(ac), e.subarea.type, e.mirror], flat.n[i], lat.n[i])
                    break
                if d and abs(d) > 0.5 and not abs(float(np.dot(lat.n[i], flat.n[i])) - 1) > 1e-7:
                    h = e.subarea.abs_hinge_axis(e.mirror)
                    if abs(np.dot(h / np.linalg.norm(h), flat.n[i])) < 0.9:
                        ctx.fail('normal of a deflected panel is not rotated', [M.describe(ac), e.subarea.type, e.mirror, d], None, lat.n[i])
                        break

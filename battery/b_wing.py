"""wings: segment and wing geometry, automatic panelling, definitions"""
import copy
import math
import numpy as np
import model as M


def close(a, b, tol=1e-9):
    return a is not None and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=tol)


# ---------------------------------------------------------------- W01
def segment_geometry(ctx):
    from pytornado.objects.aircraft import Aircraft
    r = ctx.rng()
    for t in range(120 * ctx.scale):
        ac = M.aircraft(r, nwings=1 + t % 3, nseg=1 + t % 4, controls=False)
        given = t % 4 == 1
        verts = {}
        for wu, w in ac.wings.items():
            for su, s in w.segments.items():
                if t % 7 == 3:       # vertical, reversed or skewed segments
                    for k in 'abcd':
                        x, y, z = s.vertices[k]
                        s.vertices[k] = [x, z, y] if r.random() < 0.5 else [x, -y, z]
                if given:
                    for k in s.geometry:
                        s.geometry[k] = float(r.uniform(0.1, 0.9))
                verts[wu, su] = {k: list(v) for k, v in s.vertices.items()}
        d = M.describe(ac)
        ac.generate()
        ctx.count()
        tot = 0
        for wu, w in ac.wings.items():
            spans, areas = [], []
            for su, s in w.segments.items():
                P = {k: np.array(v) for k, v in verts[wu, su].items()}
                for k in 'abcd':
                    if not np.array_equal(np.asarray(s.vertices[k]), P[k]):
                        ctx.fail('vertex altered', [d, wu, su, k], P[k], s.vertices[k])
                ci, co = np.linalg.norm(P['d'] - P['a']), np.linalg.norm(P['c'] - P['b'])
                sp = math.hypot(P['b'][1] - P['a'][1], P['b'][2] - P['a'][2])
                for nm, e, g in (('inner_chord', ci, s.geometry['inner_chord']), ('outer_chord', co, s.geometry['outer_chord']), ('span', sp, s.geometry['span']), ('area', sp * (ci + co) / 2, s.area)):
                    if not close(g, e):
                        ctx.fail('segment ' + nm, [d, wu, su], e, g)
                spans.append(sp)
                areas.append(sp * (ci + co) / 2)
            if not close(w.span, sum(spans)) or not close(w.area, sum(areas)):
                ctx.fail('span and area of a wing', [d, wu], [sum(spans), sum(areas)], [w.span, w.area])
            tot += sum(areas)
            acc = np.concatenate([[0], np.cumsum(spans)]) / sum(spans)
            for i, s in enumerate(w.segments.values()):
                if not close([s.position['inner'], s.position['outer']], acc[i:i + 2]):
                    ctx.fail('relative position of a segment', [d, wu, i], acc[i:i + 2], [s.position['inner'], s.position['outer']])
        if not close(ac.area, tot):
            ctx.fail('area of the aircraft', d, tot, ac.area)


# ---------------------------------------------------------------- W03
def geo_points(g, points, given):
    """corners of the segment with the geometric properties g of which the given points are corners"""
    rad = {k: math.radians(x) for k, x in g.items() if k.split('_')[-1] in ('alpha', 'beta', 'sweep', 'dihedral')}
    edge = {}
    for pre in ('inner', 'outer'):
        u = np.array([math.cos(rad[pre + '_beta']), math.sin(rad[pre + '_beta']), -math.cos(rad[pre + '_beta']) * math.tan(rad[pre + '_alpha'])])
        edge[pre] = g[pre + '_chord'] * u / np.linalg.norm(u)
    off = g['outer_axis'] * edge['outer'] - g['inner_axis'] * edge['inner']
    sd, cd = math.sin(rad['dihedral']), math.cos(rad['dihedral'])
    # b = span (cos t, sin t) with the axis b + off at the dihedral angle
    t = rad['dihedral'] - math.asin((cd * off[2] - sd * off[1]) / g['span'])
    b = np.array([g['span'] * math.tan(rad['sweep']), g['span'] * math.cos(t), g['span'] * math.sin(t)])
    P = {'a': np.zeros(3), 'b': b, 'c': b + edge['outer'], 'd': edge['inner']}
    sh = np.array(given[points[0]]) - P[points[0]]
    P = {k: x + sh for k, x in P.items()}
    if g['span'] < 0:
        P['a'], P['b'], P['c'], P['d'] = P['b'], P['a'], P['d'], P['c']
    if g['inner_chord'] < 0:
        P['a'], P['d'] = P['d'], P['a']
    if g['outer_chord'] < 0:
        P['b'], P['c'] = P['c'], P['b']
    return P


def geo_random(r, kind):
    g = {}
    for pre in ('inner_', 'outer_'):
        g[pre + 'chord'] = float(r.uniform(0.4, 2))
        g[pre + 'alpha'] = float(r.uniform(-15, 15))
        g[pre + 'beta'] = float(r.uniform(-15, 15))
        g[pre + 'axis'] = float(r.uniform(0.05, 0.95))
    g.update(span=float(r.uniform(2, 6)), sweep=float(r.uniform(-40, 40)), dihedral=float(r.uniform(-30, 30)))
    if kind == 1:
        for k in ('inner_alpha', 'outer_alpha', 'inner_beta', 'outer_beta', 'sweep', 'dihedral'):
            if r.random() < 0.6:
                g[k] = 0.0
    if kind == 2:
        for k in ('span', 'inner_chord', 'outer_chord'):
            if r.random() < 0.5:
                g[k] = -g[k]
    if kind == 3:
        g.update(inner_alpha=float(r.uniform(40, 80)), dihedral=float(r.uniform(50, 88)), outer_beta=float(r.uniform(-60, 60)), span=8.0)
    return g


def geometry_definition(ctx):
    from pytornado.objects.aircraft import Aircraft
    r = ctx.rng()

    def seg(verts, geo):
        s = Aircraft().add_wing('w').add_segment('s')
        s.vertices.update({k: list(map(float, x)) for k, x in verts.items()})
        s.geometry.update(geo)
        s.airfoils.update(inner='NACA0012', outer='NACA2412')
        return s
    for t in range(60 * ctx.scale):
        g = geo_random(r, t % 4)
        if t % 5 == 4:
            g['inner_axis'] = g['outer_axis'] = 0.25
        for points in ('a', 'b', 'c', 'd', 'ad', 'bc', 'abcd'):
            geo = dict(g)
            P0 = {points[0]: [float(x) for x in r.uniform(-2, 2, 3)]}
            exp = geo_points(g, points, P0)
            if len(points) > 1:
                if min(g['span'], g['inner_chord'], g['outer_chord']) < 0:
                    continue
                P0 = {k: exp[k] for k in points}
                geo = {k: x for k, x in g.items() if not k.startswith({'ad': 'inner_', 'bc': 'outer_'}.get(points, '')) or 'axis' in k and points != 'abcd'}
            if t % 5 == 4:
                geo = {k: x for k, x in geo.items() if 'axis' not in k}
            extra = {}
            if len(points) > 1 and t % 2:
                # given along with the vertices that determine them
                extra = {k: float(r.uniform(0.5, 3)) for k in g if k not in geo and 'axis' not in k}
            s = seg(P0, dict(geo, **extra))
            inp = {'vertices': P0, 'geometry': dict(geo, **extra)}
            ctx.current = inp
            ctx.count()
            s.generate()
            for k in 'abcd':
                if not close(s.vertices[k], exp[k], 1e-8):
                    ctx.fail('vertex %s of a segment defined by %s and geometric properties' % (k, points), inp, exp[k], s.vertices[k])
            for k, x in geo.items():
                if s.geometry[k] != x:
                    ctx.fail('%s of a segment altered' % k, inp, x, s.geometry[k])
            if min(g['span'], g['inner_chord'], g['outer_chord']) > 0:
                for k, x in g.items():
                    if ('axis' not in k or k in geo) and not (points == 'abcd' and k == 'dihedral' and g['inner_axis'] != 0.25) and not close(s.geometry[k], x, 1e-7):
                        ctx.fail('%s of a segment defined by %s' % (k, points), inp, x, s.geometry[k])
    # incomplete definitions
    for t in range(200 * ctx.scale):
        g = geo_random(r, 0)
        points = [k for k in 'abcd' if r.random() < 0.5]
        left = [[], ['inner_chord'], ['outer_beta'], ['span'], ['sweep'], ['dihedral'], ['inner_alpha', 'outer_chord'], [k for k in g if 'axis' not in k]][t % 8]
        geo = {k: x for k, x in g.items() if k not in left}
        pts = geo_points(g, 'a', {'a': [0.1, 0.2, 0.3]})
        s = seg({k: pts[k] for k in points}, geo)
        p = ''.join(points)
        need = {'abcd': [], 'ad': [k for k in g if not k.startswith('inner_')], 'bc': [k for k in g if not k.startswith('outer_')]}.get(p, list(g) if len(p) == 1 else None)
        ok = need is not None and all(k in geo or 'axis' in k for k in need)
        inp = {'vertices': {k: pts[k] for k in points}, 'geometry': geo}
        ctx.current = inp
        ctx.count()
        if accepts(s.generate) != ok:
            ctx.fail('definition by points %r without %s %s' % (p, left, 'rejected' if ok else 'accepted'), inp)


def geometry_files(ctx):
    """an aircraft file with segments given by geometric properties is the same aircraft as with their corners"""
    import json
    import os
    from pytornado.aero import vlm
    from pytornado.fileio.native import aircraft as nac, settings as nset
    r = ctx.rng(3)
    for t in range(3 * ctx.scale):
        ac = M.aircraft(r, nwings=1 + t % 2, sym=2, nseg=2, controls=False)
        base = M.ac_dict(ac)
        for w in base['wings']:
            P = None
            for s in w['segments']:
                g = geo_random(r, 1)
                g.update(inner_chord=1.0, outer_chord=1.0, inner_alpha=0.0, outer_alpha=0.0, inner_beta=0.0, outer_beta=0.0, dihedral=abs(g['dihedral']))
                start = [0.0, 0.5, 0.0] if P is None else [float(x) for x in P['b']]
                P = geo_points(g, 'a', {'a': start})
                s['geo'] = (g, start, {k: [float(y) for y in x] for k, x in P.items()})
        out = []
        for i in (0, 1):
            d = copy.deepcopy(base)
            for w in d['wings']:
                for s in w['segments']:
                    g, start, P = s.pop('geo')
                    if i:
                        s['geometry'], s['vertices'] = g, {'a': start}
                    else:
                        s['geometry'], s['vertices'] = {}, P
            ctx.current = d
            ctx.count()
            f = M.project(d, {'airspeed': 50, 'density': 1.2, 'alpha': 1})
            a = nac.load(nset.load(f))
            M.drop(f)
            vlm.set_autopanels(a, M.St())
            lat = vlm.gen_lattice(a, M.cur_state(), M.St())
            out.append((a.area, lat.p.copy(), lat.c.copy()))
        for nm, x, y in zip(('area', 'panels', 'collocation points'), *out):
            if not close(x, y, 1e-8):
                ctx.fail('%s of an aircraft given by geometric properties' % nm, d, x, y)


# ---------------------------------------------------------------- P01
def autopanels(ctx):
    from pytornado.aero import vlm
    r = ctx.rng()
    for t in range(150 * ctx.scale):
        ac = M.aircraft(r)
        try:
            ac.generate()
        except ValueError:
            continue
        for w in ac.wings.values():
            for s in w.segments.values():
                s.panels['num_c'] = [None, int(r.integers(1, 9))][int(r.integers(0, 2))]
                s.panels['num_s'] = [None, int(r.integers(1, 9))][int(r.integers(0, 2))]
            for c in w.controls.values():
                c.panels['num_c'] = [None, int(r.integers(1, 9))][int(r.integers(0, 2))]
        na, nb = int(r.integers(1, 12)), int(r.integers(1, 30))
        before = copy.deepcopy(M.describe(ac))
        vlm.set_autopanels(ac, M.St(vlm_autopanels_c=na, vlm_autopanels_s=nb))
        ctx.count()
        after = M.describe(ac)
        inp = [before, na, nb]
        for wu, w in ac.wings.items():
            tot = sum(math.hypot(s.vertices['b'][1] - s.vertices['a'][1], s.vertices['b'][2] - s.vertices['a'][2]) for s in w.segments.values())
            for su, s in w.segments.items():
                old, new = before[wu]['segments'][su]['panels'], s.panels
                sp = math.hypot(s.vertices['b'][1] - s.vertices['a'][1], s.vertices['b'][2] - s.vertices['a'][2])
                if new['num_c'] != (old['num_c'] if old['num_c'] is not None else na) or not new['num_c'] > 0:
                    ctx.fail('chordwise panels of a segment', inp + [wu, su], old['num_c'] or na, new['num_c'])
                x = sp / tot * nb
                ok = {old['num_s']} if old['num_s'] is not None else {math.ceil(x - 1e-9), math.ceil(x + 1e-9)}
                if new['num_s'] not in ok or not new['num_s'] > 0:
                    ctx.fail('spanwise panels of a segment', inp + [wu, su], sorted(ok), new['num_s'])
            for cu, c in w.controls.items():
                old = before[wu]['controls'][cu]['panels']['num_c']
                if c.panels['num_c'] != (old if old is not None else na):
                    ctx.fail('chordwise panels of a control', inp + [wu, cu], old or na, c.panels['num_c'])
        for x in (before, after):
            for w in x.values():
                for s in list(w['segments'].values()) + list(w['controls'].values()):
                    s.pop('panels')
        if str(before) != str(after):
            ctx.fail('something else changed', inp, before, after)


# ---------------------------------------------------------------- W02
def accepts(f):
    try:
        f()
    except Exception:
        return False
    return True


def definitions(ctx):
    from pytornado.objects.aircraft import Aircraft
    r = ctx.rng()
    good = ['a', 'w_m', '_x', 'main wing', 'ä']
    bad = ['', None, 3, 0, 2.5, ['a'], ('a',), b'a', {}, True]
    for what in ('wing', 'segment', 'control'):
        for n in range(4):
            for u in good[:n] + bad + ['new']:
                ac = Aircraft()
                w = ac.add_wing('base')
                add, comp = {'wing': (ac.add_wing, ac.wings), 'segment': (w.add_segment, w.segments), 'control': (w.add_control, w.controls)}[what]
                if what == 'wing':
                    del ac.wings['base']
                for g in good[:n]:
                    add(g)
                old = list(comp.items())
                ok = accepts(lambda: add(u))
                ctx.count()
                exp = u == 'new'
                if ok != exp:
                    ctx.fail('%s identifier %s' % (what, 'rejected' if exp else 'accepted'), [what, good[:n], u], exp, ok)
                now = list(comp.items())
                if now[:len(old)] != old or len(now) != len(old) + (1 if exp else 0) or any(x[1] is not y[1] for x, y in zip(old, now)):
                    ctx.fail('existing components changed', [what, good[:n], u], [k for k, _ in old], [k for k, _ in now])
                if ok and exp and (now[-1][0] != u or now[-1][1].uid != u):
                    ctx.fail('component stored under another identifier', [what, u])
    for x in ['', 'a', 'any name', None, 3, 2.5, ['a'], b'a', {}, True]:
        for o in (Aircraft(), Aircraft().add_wing('w'), Aircraft().add_wing('w').add_segment('w'), Aircraft().add_wing('w').add_control('w')):
            o.uid = 'w'
            ok = accepts(lambda: setattr(o, 'uid', x))
            ctx.count()
            if ok != isinstance(x, str) or o.uid != (x if ok else 'w'):
                ctx.fail('identifier of %s' % type(o).__name__, [x], isinstance(x, str), [ok, o.uid])
    for x in [0, 1, 2, 3, -1, 4, 5, 1.5, 'xz', '2', None, [1]]:
        w = Aircraft().add_wing('w')
        w.symmetry = 2
        ok = accepts(lambda: setattr(w, 'symmetry', x))
        ctx.count()
        exp = not isinstance(x, (str, list)) and x in (0, 1, 2, 3)
        if ok != exp or w.symmetry != (x if exp else 2):
            ctx.fail('symmetry value', [x], exp, [ok, w.symmetry])
    for x in ['slat', 'flap', 'aileron', 'Flap', 'flaps', 'fla', '', 's', None, 1, ['slat']]:
        c = Aircraft().add_wing('w').add_control('c')
        ok = accepts(lambda: setattr(c, 'device_type', x))
        ctx.count()
        exp = x in ('slat', 'flap')
        if ok != exp or c.device_type != (x if exp else None):
            ctx.fail('device type', [x], exp, [ok, c.device_type])
    vals = [None, 0, 0.0, 12.5, -12.5, 90, -90, 90.0, -90.0, 90.0001, -90.0001, 91, -91, 1e9, -1e9, '5', [1.0], 45]
    for sym in range(4):
        for d in vals:
            for m in vals:
                for e0, e1, other in ((0.2, 0.7, False), (0.7, 0.2, False), (0.4, 0.4, False), (0.7, 0.2, True), (0.0, 1.0, False)):
                    if (e0, e1) != (0.2, 0.7) and (d not in (12.5, None) or m not in (None, -12.5)):
                        continue
                    ac = Aircraft()
                    w = ac.add_wing('w')
                    w.symmetry = sym
                    c = w.add_control('c')
                    c.device_type = 'flap'
                    c.segment_uid.update(inner='s', outer='t' if other else 's')
                    c.rel_vertices.update(eta_inner=e0, eta_outer=e1, xsi_inner=0.7, xsi_outer=0.6)
                    c.rel_hinge_vertices.update(xsi_inner=0.75, xsi_outer=0.65)
                    c.deflection, c.deflection_mirror = d, m
                    old = [dict(x) for x in (c.segment_uid, c.rel_vertices, c.rel_hinge_vertices, c.panels)]
                    num = lambda x: isinstance(x, (int, float)) and -90 <= x <= 90
                    exp = num(d) and (not sym or m is None or num(m)) and (other or e1 > e0)
                    ok = accepts(c.check)
                    ctx.count()
                    inp = {'symmetry': sym, 'deflection': d, 'deflection_mirror': m, 'eta': [e0, e1], 'two segments': other}
                    if ok != exp:
                        ctx.fail('control %s' % ('rejected' if exp else 'accepted'), inp, exp, ok)
                    if not ok or not exp:
                        continue
                    if c.deflection != d or c.deflection_mirror != (d if m is None and sym else m):
                        ctx.fail('deflection stored', inp, [d, d if m is None and sym else m], [c.deflection, c.deflection_mirror])
                    if old != [dict(x) for x in (c.segment_uid, c.rel_vertices, c.rel_hinge_vertices, c.panels)]:
                        ctx.fail('values changed by the check', inp, old)


def file_definitions(ctx):
    """invalid definitions are rejected when the aircraft file is loaded"""
    import json
    import os
    from pytornado.fileio.native import aircraft as nac, settings as nset
    r = ctx.rng()

    def variants(d):
        w = d['wings'][0]
        s, c = w['segments'][0], w['controls'][0]
        return [('duplicate wing', lambda: d['wings'].append(dict(w))), ('empty wing uid', lambda: w.update(uid='')), ('numeric wing uid', lambda: w.update(uid=4)),
                ('duplicate segment', lambda: w['segments'].append(dict(s))), ('empty segment uid', lambda: s.update(uid='')),
                ('duplicate control', lambda: w['controls'].append(dict(c))), ('empty control uid', lambda: c.update(uid='')),
                ('symmetry 4', lambda: w.update(symmetry=4)), ('symmetry -1', lambda: w.update(symmetry=-1)), ('device type', lambda: c.update(device_type='spoiler')),
                ('no deflection', lambda: c.update(deflection=None)), ('text deflection', lambda: c.update(deflection='5')), ('deflection 91', lambda: c.update(deflection=91.0)),
                ('mirrored deflection -91', lambda: c.update(deflection_mirror=-91.0)), ('mirrored deflection text', lambda: c.update(deflection_mirror='5')),
                ('reversed ends', lambda: c['rel_vertices'].update(eta_inner=c['rel_vertices']['eta_outer'], eta_outer=c['rel_vertices']['eta_inner'])),
                ('equal ends', lambda: c['rel_vertices'].update(eta_inner=c['rel_vertices']['eta_outer']))] + [
                ('%s %r' % (k, x), lambda k=k, x=x: d['refs'].update({k: x})) for k in ('area', 'span', 'chord') for x in (None, 0, -1.0, 0.0, -1e-9, [1.0])] + [
                ('%s %r' % (k, x), lambda k=k, x=x: d['refs'].update({k: x})) for k in ('gcenter', 'rcenter') for x in (None, [0, 0], [0, 0, 0, 0], 'abc', [0, 'x', 1], 4)] + [
                ('no %s' % k, lambda k=k: d['refs'].pop(k)) for k in ('area', 'span', 'chord', 'gcenter', 'rcenter')] + [
                ('vertex %s %r' % (k, x), lambda k=k, x=x: s['vertices'].update({k: x})) for k in 'abcd' for x in ([0, 0], [0, 0, 0, 0], 'abc', [0, 'x', 1], None)] + [
                ('%s %r' % (k, x), lambda k=k, x=x: s['panels'].update({k: x})) for k in ('num_c', 'num_s') for x in (0, -1, 2.5, 2.0, '2')] + [
                ('control panels %r' % x, lambda x=x: c['panels'].update(num_c=x)) for x in (0, -1, 2.5, 2.0, '2')] + [
                ('airfoil %s %r' % (k, x), lambda k=k, x=x: s['airfoils'].update({k: x})) for k in ('inner', 'outer') for x in (12, None, 'foo', '', 'NAC0012', 'blade.none')] + [
                ('%s %r' % (k, x), lambda g=g, k=k, x=x: c[g].update({k: x})) for g in ('rel_vertices', 'rel_hinge_vertices') for k in c[g] for x in (-0.1, 1.1, -1e-9, 1.000001, '0.5')] + [
                ('%s segment %r' % (k, x), lambda k=k, x=x: c['segment_uid'].update({k: x})) for k in ('inner', 'outer') for x in (1, ['s0'])]
    for t in range(3 * ctx.scale):
        ac = M.aircraft(r, nwings=1 + t % 2, sym=1 + t % 3, nseg=1 + t % 2, controls=False)
        for w in ac.wings.values():
            c = w.add_control('c0')
            c.device_type = 'flap'
            c.deflection, c.deflection_mirror = 5.0, [None, -3.0][t % 2]
            c.segment_uid.update(inner='s0', outer='s0')
            c.rel_vertices.update(eta_inner=0.2, eta_outer=0.6, xsi_inner=0.7, xsi_outer=0.8)
            c.rel_hinge_vertices.update(xsi_inner=0.7, xsi_outer=0.8)
            c.panels['num_c'] = 2
        base = M.ac_dict(ac)
        n = len(variants(copy.deepcopy(base)))
        f = M.project(base, {'airspeed': 50, 'density': 1.2, 'alpha': 1})
        acf = os.path.join(os.path.dirname(os.path.dirname(f)), 'aircraft', 'ac.json')
        for i in range(-1, n):
            d = copy.deepcopy(base)
            nm = 'valid'
            if i >= 0:
                nm, ch = variants(d)[i]
                ch()
            with open(acf, 'w') as fh:
                json.dump(d, fh)
            st = nset.load(f)
            got = [None]
            ok = accepts(lambda: got.__setitem__(0, nac.load(st)))
            ctx.count()
            if ok != (i < 0):
                ctx.fail('aircraft file with %s %s' % (nm, 'accepted' if ok else 'rejected'), d)
            if ok and i < 0:
                for w in got[0].wings.values():
                    c = w.controls['c0']
                    if (c.deflection, c.deflection_mirror) != (5.0, -3.0 if t % 2 else 5.0):
                        ctx.fail('deflections loaded', d, None, [c.deflection, c.deflection_mirror])
        M.drop(f)

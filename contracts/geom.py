"""contracts of the geometry of strips, parts and mirrored halves (objects/aircraft.py)"""
import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, raises, same, snapshot, diff

AXIS = {1: 2, 2: 1, 3: 0, 'xy': 2, 'xz': 1, 'yz': 0}
ORDER = {1: (0, 1, 2, 3), 2: (1, 0, 3, 2), 3: (3, 2, 1, 0), 'xy': (0, 1, 2, 3), 'xz': (1, 0, 3, 2), 'yz': (3, 2, 1, 0)}


def refl(p, plane):
    q = list(p)
    q[AXIS[plane]] = -q[AXIS[plane]]
    return ps.obj_array(q)


def veq(v, name, a, b):
    v.check(name, same(a, b))


def mk_wing(v, ac, symmetry=0, seg='seg'):
    """a wing with one segment with symbolic corners; the vertices are arrays as after generate()"""
    w = ac.Wing('w')
    w._symmetry = symmetry
    s = w.add_segment(seg)
    for k in 'abcd':
        s.vertices[k] = v.vec(k)
    return w, s


def mk_strip(v, ac, seg, eta=None):
    e = eta or {k: v.real('eta_' + k) for k in 'abcd'}
    st = ac.SegmentStrip(seg, {'eta_' + k: e[k] for k in 'abcd'})
    return st


def mk_part(v, ac, strip, typ='flap'):
    p = ac.StripSubdivision(strip, {'xsi_' + k: v.real('xsi_' + k) for k in 'abcd'}, typ)
    p._add_hinge_line(v.real('h1'), v.real('h2'))
    return p


def lerp(a, b, t):
    return a + t * (b - a)


def g_mirror():
    """G01: reflections"""
    ac = ps.load('objects.aircraft')
    V = VC('mirror', ['mirror_point', 'order_mirrored_vertex_points', 'mirror_vertices'])

    def point():
        v = ps.vc()
        plane = v.choose(*AXIS)
        kind = v.choose('array', 'list')
        p = v.vec('p')
        if kind == 'list':
            p = list(p)
        old = list(p)
        q = ac.mirror_point(p, plane)
        veq(v, 'reflects in plane %s' % plane, list(q), list(refl(old, plane)))
        v.check('argument unchanged', same(list(p), old))
        v.check('result is a new object', q is not p)
        veq(v, 'involution', list(ac.mirror_point(q, plane)), old)
    V.run('mirror_point', point)

    def order():
        v = ps.vc()
        plane = v.choose(*AXIS)
        P = [v.vec('p%d' % i) for i in range(4)]
        r = ac.order_mirrored_vertex_points(tuple(P), plane)
        v.check('corner order in plane %s' % plane, len(r) == 4 and all(r[i] is P[ORDER[plane][i]] for i in range(4)))
        r = ac.mirror_vertices(tuple(P), plane)
        for i in range(4):
            veq(v, 'mirror_vertices corner %d' % i, r[i], refl(P[ORDER[plane][i]], plane))
    V.run('order_mirrored_vertex_points', order)

    def invalid():
        v = ps.vc()
        kind = v.choose('int', 'none', 'str')
        plane = {'int': None, 'none': None, 'str': 'zx'}[kind]
        if kind == 'int':
            plane = v.int('plane')
            for k in (1, 2, 3):
                v.assume(plane != k)
        which = v.choose('mirror_point', 'order_mirrored_vertex_points', 'mirror_vertices')
        P = tuple(v.vec() for _ in range(4))
        a = P[0] if which == 'mirror_point' else P
        r, e = raises(getattr(ac, which), a, plane)
        v.check('%s rejects any other plane (%s)' % (which, kind), e is not None)
    V.run('invalid plane', invalid)
    return V


def g_mirror_parts():
    """G01: mirrored strips, parts and hinge lines"""
    ac = ps.load('objects.aircraft')
    V = VC('mirror parts', ['SegmentStrip.abs_vertices', 'StripSubdivision.abs_vertices', 'StripSubdivision.abs_hinge_vertices', 'StripSubdivision.abs_hinge_axis'])

    def strip():
        v = ps.vc()
        plane = v.choose(1, 2, 3)
        w, s = mk_wing(v, ac, plane)
        st = mk_strip(v, ac, s)
        snap = snapshot({'wing': w, 'strip': st})
        o = st.abs_vertices(False)
        m = st.abs_vertices(True)
        vs, e = s.vertices, st.rel_vertices
        exp = [lerp(vs['a'], vs['b'], e['eta_a']), lerp(vs['a'], vs['b'], e['eta_b']), lerp(vs['d'], vs['c'], e['eta_c']), lerp(vs['d'], vs['c'], e['eta_d'])]
        for i, k in enumerate('abcd'):
            veq(v, 'strip corner %s' % k, o[k], exp[i])
            veq(v, 'mirrored strip corner %s, plane %d' % (k, plane), m[k], refl(o['abcd'[ORDER[plane][i]]], plane))
        v.check('geometry is not modified', not diff(snap))
    V.run('strip', strip)

    def part():
        v = ps.vc()
        plane = v.choose(1, 2, 3)
        w, s = mk_wing(v, ac, plane)
        st = mk_strip(v, ac, s)
        typ = v.choose('segment', 'slat', 'flap')
        p = mk_part(v, ac, st, typ)
        snap = snapshot({'wing': w, 'strip': st, 'part': p})
        so = st.abs_vertices(False)
        o = p.abs_vertices(False)
        m = p.abs_vertices(True)
        x = p.rel_vertices
        exp = {'a': lerp(so['a'], so['d'], x['xsi_a']), 'b': lerp(so['b'], so['c'], x['xsi_b']),
               'c': lerp(so['b'], so['c'], x['xsi_c']), 'd': lerp(so['a'], so['d'], x['xsi_d'])}
        for i, k in enumerate('abcd'):
            veq(v, 'part corner %s' % k, o[k], exp[k])
            veq(v, 'mirrored part corner %s, plane %d' % (k, plane), m[k], refl(o['abcd'[ORDER[plane][i]]], plane))
        h, g = p.abs_hinge_vertices(False), p.abs_hinge_vertices(True)
        hx = p.rel_hinge_vertices
        veq(v, 'hinge inner', h['p_inner'], lerp(so['a'], so['d'], hx['xsi_h1']))
        veq(v, 'hinge outer', h['p_outer'], lerp(so['b'], so['c'], hx['xsi_h2']))
        sw = ('p_outer', 'p_inner') if plane == 2 else ('p_inner', 'p_outer')
        veq(v, 'mirrored hinge inner, plane %d' % plane, g['p_inner'], refl(h[sw[0]], plane))
        veq(v, 'mirrored hinge outer, plane %d' % plane, g['p_outer'], refl(h[sw[1]], plane))
        veq(v, 'hinge axis', p.abs_hinge_axis(False), h['p_outer'] - h['p_inner'])
        veq(v, 'mirrored hinge axis', p.abs_hinge_axis(True), g['p_outer'] - g['p_inner'])
        v.check('geometry is not modified', not diff(snap))
    V.run('part', part)
    return V

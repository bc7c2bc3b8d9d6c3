"""the small functions of the commonlibs package that the properties use, verified on the installed source"""
import numpy as np

from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, raises, same, term, snapshot, diff


def g_rotation():
    """axis_rot_matrix: rotation about an axis by an angle"""
    m = ps.load_external('commonlibs.math.vectors')
    V = VC('commonlibs.math.vectors', ['axis_rot_matrix'])

    def go():
        v = ps.vc()
        axis, angle, x = v.vec('axis'), v.real('angle'), v.vec('x')
        n2 = axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]
        v.assume(n2 > 0)
        kind = v.choose('array', 'list')
        snap = snapshot({'axis': axis})
        R = m.axis_rot_matrix(axis if kind == 'array' else list(axis), angle)
        v.check('argument unchanged', not diff(snap))
        v.check('3 by 3 matrix', getattr(R, 'shape', None) == (3, 3))
        c, s = (angle / 2).cos(), (angle / 2).sin()
        k = [a / n2.sqrt() for a in axis]
        dot = k[0] * x[0] + k[1] * x[1] + k[2] * x[2]
        cr = [k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0]]
        y = R @ x
        for i in range(3):
            v.check('rotation of a vector about the axis (Rodrigues, half angle), component %d' % i,
                    same(y[i], (c * c - s * s) * x[i] + 2 * c * s * cr[i] + 2 * s * s * dot * k[i]))
        v.check('length of a vector is kept', same(y[0] * y[0] + y[1] * y[1] + y[2] * y[2], x[0] * x[0] + x[1] * x[1] + x[2] * x[2]))
        z = R @ axis
        for i in range(3):
            v.check('the axis stays, component %d' % i, same(z[i], axis[i]))
    V.run('axis_rot_matrix', go)

    def zero():
        v = ps.vc()
        axis = v.vec('axis')
        n2 = axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]
        v.assume(n2 > 0)
        R = m.axis_rot_matrix(axis, 0)
        for i in range(3):
            for j in range(3):
                v.check('angle zero gives the identity', same(R[i, j], int(i == j)))
    V.run('axis_rot_matrix, angle zero', zero)
    return V


def g_intersect():
    m = ps.load_external('commonlibs.math.vectors')
    V = VC('commonlibs.math.vectors', ['get_plane_line_intersect'])

    def go():
        v = ps.vc()
        n, p, d, q = v.vec('n'), v.vec('p'), v.vec('d'), v.vec('q')
        snap = snapshot({'n': n, 'p': p, 'd': d, 'q': q})
        r, e = raises(m.get_plane_line_intersect, n, p, d, q)
        v.check('arguments unchanged', not diff(snap))
        nd = n[0] * d[0] + n[1] * d[1] + n[2] * d[2]
        if e is not None:
            v.check('error only if the line is (nearly) parallel to the plane', abs(nd) < 1e-6)
            v.check('the error is RuntimeError', type(e) is RuntimeError)
            return
        v.assume(nd != 0)
        w = [r[i] - p[i] for i in range(3)]
        v.check('the point is in the plane', same(n[0] * w[0] + n[1] * w[1] + n[2] * w[2], 0))
        u = [r[i] - q[i] for i in range(3)]
        for i, j in ((0, 1), (1, 2), (2, 0)):
            v.check('the point is on the line', same(u[i] * d[j] - u[j] * d[i], 0))
    V.run('get_plane_line_intersect', go)
    return V


def g_lin_interpol():
    m = ps.load_external('commonlibs.math.interpolation')
    V = VC('commonlibs.math.interpolation', ['lin_interpol'])

    def go():
        v = ps.vc()
        y, x, t = (v.real('y1'), v.real('y2')), (v.real('x1'), v.real('x2')), v.real('x')
        v.assume(x[0] != x[1])
        v.check('linear interpolation', same(m.lin_interpol(y, x, t) * (x[1] - x[0]), y[0] * (x[1] - t) + y[1] * (t - x[0])))
    V.run('lin_interpol', go)
    return V

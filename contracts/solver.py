"""contracts of the Python side of the solver (aero/vlm.py)"""
from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, U, raises, same, snapshot, diff


class GArr:
    """float array with unknown contents (a token per version)"""

    def __init__(self, shape, tok, zero=False):
        self.shape, self.tok, self.zero, self.order = shape, tok, zero, 'C'

    def __vcarray__(self):
        return GArr(self.shape, self.tok, self.zero)
    copy = __vcarray__

    def __vclen__(self):
        return self.shape[0]


def world(v):
    """ghost allocation, compiled kernels and LAPACK"""
    calls = []

    def alloc(sh, val, dtype):
        return GArr(sh, tm.pfresh('alloc', 'Arr'), True)
    npx = ps.npx()
    npx.hooks.clear()
    npx.hooks['alloc'] = alloc
    npx.hooks['linalg.cond'] = lambda m: v.real('cond')
    return calls


def g_solver():
    """S02: solver"""
    vlm = ps.load('aero.vlm')
    V = VC('solver', ['solver'])

    def go():
        v = ps.vc()
        n = v.int('n', 1)
        world(v)
        d = vlm.VLMData() if hasattr(vlm, 'VLMData') else __import__('pytornado.objects.vlm_struct', fromlist=['x']).VLMData()
        A, b = GArr((n, n), tm.pfresh('A', 'Arr')), GArr((n,), tm.fresh('b', 'Arr'))
        d.matrix_downwash, d.array_rhs = A, b
        ta, tb = A.tok, b.tok
        singular = v.choose(False, True)
        used = []

        class Lapack:
            @staticmethod
            def dgesv(a, bb, overwrite_a=0, overwrite_b=0):
                used.append((a, bb))
                v.check('the system solved is (influence matrix, right-hand side)', a.tok is ta and bb.tok is tb)
                if overwrite_a:
                    a.tok = tm.pfresh('lost', 'Arr')
                if overwrite_b:
                    bb.tok = tm.pfresh('lost', 'Arr')
                info = S(tm.ZERO)
                if singular:
                    info = v.int('info')
                    v.assume(info != 0)
                return GArr((n, n), tm.pfresh('lu', 'Arr')), GArr((n,), tm.fresh('piv', 'Arr')), GArr((n,), tm.fn('SOLVE', a.tok if not overwrite_a else ta, tb, sort='Arr') if not singular else tm.fresh('garbage', 'Arr')), info
        vlm.lapack = Lapack

        def np_solve(a, bb):
            v.check('the system solved is (influence matrix, right-hand side)', a.tok is ta and bb.tok is tb)
            if singular:
                import numpy
                raise numpy.linalg.LinAlgError('Singular matrix')
            return GArr((n,), tm.fn('SOLVE', ta, tb, sort='Arr'))
        ps.npx().hooks['linalg.solve'] = np_solve
        r, e = raises(vlm.solver, d)
        if singular:
            v.check('a system without unique solution raises an error', e is not None)
            return
        v.check('a solvable system is solved without error', e is None)
        g = d.panelwise['gamma']
        v.check('the circulations satisfy the linear system', isinstance(g, GArr) and g.tok is tm.fn('SOLVE', ta, tb, sort='Arr'))
        v.check('matrix and right-hand side are kept', d.matrix_downwash is A and A.tok is ta and d.array_rhs is b and b.tok is tb)
    V.run('solver', go)
    return V


def g_calc():
    """S01/S02/F01/B01: allocation and hand-over to the compiled kernels"""
    vlm = ps.load('aero.vlm')
    vs = __import__('pytornado.objects.vlm_struct', fromlist=['x'])
    V = VC('calc', ['calc_downwash', 'calc_boundary', 'calc_results', 'VLMData.__init__'])

    def go():
        v = ps.vc()
        n = v.int('n', 1)
        world(v)
        lattice, state = type('L', (), {})(), type('St', (), {})()
        lattice.info = {'num_panels': n}
        d = vs.VLMData()
        old = {}
        for k in list(d.panelwise):
            d.panelwise[k] = old[k] = GArr((v.int('m'),), tm.pfresh('old', 'Arr'))
        d.matrix_downwash = GArr((v.int('m'), v.int('m')), tm.pfresh('old', 'Arr'))
        d.array_rhs = GArr((v.int('m'),), tm.pfresh('old', 'Arr'))
        seen = []
        full = lambda a, *sh: isinstance(a, GArr) and len(a.shape) == len(sh) and all(same(x, y) is True for x, y in zip(a.shape, sh))

        class C:
            @staticmethod
            def py2c_downwash(l, m):
                v.check('downwash: lattice and n x n array', l is lattice and full(m, n, n) and m.zero)
                m.tok, m.zero = tm.fn('DW', sort='Arr'), False
                seen.append('downwash')

            @staticmethod
            def py2c_boundary(l, s, r):
                v.check('boundary: lattice, state and array of n zeros', l is lattice and s is state and full(r, n) and r.zero)
                r.tok, r.zero = tm.fn('RHS', sort='Arr'), False
                seen.append('boundary')

            @staticmethod
            def py2c_results(l, s, dd):
                v.check('results: lattice, state and data', l is lattice and s is state and dd is d)
                arrs = [d.panelwise[k] for k in ('vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')]
                v.check('results: nine arrays of n zeros', all(full(a, n) and a.zero for a in arrs))
                v.check('results: the arrays are distinct', len({id(a) for a in arrs}) == 9)
                v.check('results: the circulations are those of the solver', d.panelwise['gamma'] is old['gamma'])
                seen.append('results')
        vlm.c_vlm = C
        which = v.choose('downwash', 'boundary', 'results')
        if which == 'downwash':
            vlm.calc_downwash(lattice, d)
            v.check('the influence matrix is stored', seen == ['downwash'] and full(d.matrix_downwash, n, n) and d.matrix_downwash.tok is tm.fn('DW', sort='Arr'))
        elif which == 'boundary':
            vlm.calc_boundary(lattice, state, d)
            v.check('the right-hand side is stored', seen == ['boundary'] and full(d.array_rhs, n) and d.array_rhs.tok is tm.fn('RHS', sort='Arr'))
        else:
            vlm.calc_results(lattice, state, d)
            v.check('kernel called once', seen == ['results'])
            v.check('circulations kept', d.panelwise['gamma'] is old['gamma'])
    V.run('calc', go)
    return V

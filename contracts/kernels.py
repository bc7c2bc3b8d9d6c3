"""Contracts of the C++ kernels (src/lib/pytornado/aero/*.cpp).

Every contract states the pre-state (region sizes, ranges), and the post-state for an
arbitrary index, so that one obligation covers every panel."""
from vcg.terms import *
from vcg.prover import Prover, flat, ELEM_INV
from vcg.cfront import CProgram, qt
from vcg import cexec
from vcg.cexec import CExec, State, Obj, Ptr, Ref, Obligation, Unsupported

N3 = 3
SIZES = {'P': 12, 'V': 12, 'C': 3, 'N': 3, 'BoundLegMidpoint': 3, 'A': 1}
RES_ARR = ['gamma', 'iw_x', 'iw_y', 'iw_z', 'iw_mag', 'fpan_x', 'fpan_y', 'fpan_z', 'fpan_mag', 'cp']
RES_SCA = ['ftot_x', 'ftot_y', 'ftot_z', 'Cx', 'Cy', 'Cz', 'ftot_D', 'ftot_C', 'ftot_L', 'CD', 'CC', 'CL',
           'mtot_x', 'mtot_y', 'mtot_z', 'Cl', 'Cm', 'Cn']
STATE_F = ['airspeed', 'rho', 'alpha', 'beta', 'P', 'Q', 'R']


def setup(ex, n):
    """initial machine state: structs with their arrays"""
    st = State()
    for f, s in SIZES.items():
        st.fields[('lattice', f)] = ex.region('lattice.' + f, mul(num(s), n))
    st.fields[('lattice', 'EPSILON')] = var('eps')
    for f in STATE_F:
        st.fields[('state', f)] = var('state_' + f)
    for f in ('CG', 'RP'):
        st.fields[('refs', f)] = ex.region('refs.' + f, num(3))
    for f in ('area', 'span', 'chord'):
        st.fields[('refs', f)] = var('refs_' + f)
    for f in RES_ARR:
        st.fields[('results', f)] = ex.region('results.' + f, n)
    for f in RES_SCA:
        st.fields[('results', f)] = var('old_' + f)
    return st


def params_of(f):
    return [p for p in f['inner'] if p['kind'] == 'ParmVarDecl']


class KernelRun:
    """symbolic execution of one kernel"""

    def __init__(self, prog, fname, args, n, pre=(), contracts=None, prepare=None):
        self.ex = CExec(prog, contracts=contracts)
        self.n = n
        st = setup(self.ex, n)
        if prepare:
            prepare(self.ex, st)
        st.pc = tuple(pre) + (le(ONE, n),)
        self.pre = st.copy()
        f = prog.function(fname)
        if f is None:
            raise Unsupported('function %s not found' % fname)
        vals = [a(self.ex) if callable(a) else a for a in args]
        ps = params_of(f)
        if len(ps) != len(vals):
            raise Unsupported('signature of %s changed' % fname)
        self.ret = self.ex.run_body(st, f, ps, vals)
        self.post = st
        self.fname = fname

    def rd(self, region, idx, facts=()):
        st = self.post.copy()
        st.pc = st.pc + tuple(facts)
        return self.ex.read(st, region, idx, check=False)

    def pre_rd(self, region, idx):
        return fn(region, canon(idx), sort=self.ex.regions[region].sort)

    def field(self, o, f):
        return self.post.fields[(o, f)]

    def oblige(self, name, facts, goal):
        self.ex.obls.append(Obligation(self.fname + ': ' + name, tuple(self.pre.pc) + tuple(facts), goal))

    def frame(self, regions, fields):
        """only the named regions / struct fields may be modified"""
        bad = []
        for r, ws in self.post.writes.items():
            if ws and self.ex.regions[r].kind != 'local' and r not in regions:
                bad.append(r)
        for k, v in self.post.fields.items():
            if k in fields or k[0].startswith('local'):
                continue
            if not cexec.same_val(v, self.pre.fields.get(k)):
                bad.append('%s.%s' % k)
        self.oblige('frame: modifies only %s' % ', '.join(sorted(regions) + sorted('%s.%s' % f for f in fields)), (),
                    TRUE if not bad else FALSE)
        if bad:
            self.ex.obls[-1].name += ' (also modified: %s)' % ', '.join(bad)


# ---- specification functions (from the documentation / Drela) ---------------
def vec(f):
    return [f(0), f(1), f(2)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def norm(a):
    return sqrt(dot(a, a))


def scale(k, a):
    return [k * x for x in a]


def segment_velocity(p, v1, v2, eps):
    """velocity induced at p by a unit vortex filament from v1 to v2"""
    r1, r2 = vsub(p, v1), vsub(p, v2)
    m1, m2 = norm(r1), norm(r2)
    k = div(ONE, num(4) * PI) * div(ONE, dot(r1, r2) + m1 * m2 * (num(1) + eps)) * (div(ONE, m1) + div(ONE, m2))
    return scale(k, cross(r1, r2))


def horseshoe_velocity(run, p, j):
    V = lambda q: vec(lambda c: run.pre_rd('lattice.V', num(12) * j + num(3 * q + c)))
    eps = var('eps')
    w = [num(0, 'R')] * 3
    for q in range(3):
        w = vadd(w, segment_velocity(p, V(q), V(q + 1), eps))
    return w


def freestream():
    a = var('state_alpha') * PI / num(180)
    b = var('state_beta') * PI / num(180)
    s, c = (lambda x: fn('sin', x)), (lambda x: fn('cos', x))
    return [c(a) * c(b), -s(b), s(a) * c(b)]


def v3(run, region, i):
    return vec(lambda c: run.pre_rd(region, num(3) * i + num(c)))


def omega():
    return [var('state_P'), var('state_Q'), var('state_R')]


def rng(i, n):
    return (le(ZERO, i), lt(i, n))


def downwash(prog):
    n = var('num_pan', 'I')
    r = KernelRun(prog, 'vlm_downwash', [Obj('lattice'), lambda ex: ex.region('dw', mul(n, n)), n], n)
    i, j = fresh('i', 'I'), fresh('j', 'I')
    f = rng(i, n) + rng(j, n)
    w = horseshoe_velocity(r, v3(r, 'lattice.C', i), j)
    spec = dot(w, v3(r, 'lattice.N', i))
    r.oblige('dw[i*n+j] = n_i . sum of the three Biot-Savart legs of horseshoe j at c_i', f, eq(r.rd('dw', i * n + j, f), spec))
    r.frame({'dw'}, set())
    return r


def boundary(prog):
    n = var('num_pan', 'I')
    r = KernelRun(prog, 'vlm_boundary', [Obj('lattice'), Obj('state'), Obj('refs'), lambda ex: ex.region('rhs', n), n], n)
    i = fresh('i', 'I')
    f = rng(i, n)
    cg = vec(lambda c: r.pre_rd('refs.CG', num(c)))
    vel = vsub(cross(omega(), vsub(v3(r, 'lattice.C', i), cg)), scale(var('state_airspeed'), freestream()))
    r.oblige('rhs[i] = -(onset velocity at c_i) . n_i', f, eq(r.rd('rhs', i, f), dot(vel, v3(r, 'lattice.N', i))))
    r.frame({'rhs'}, set())
    return r


COEFF_F = ['Cx', 'Cy', 'Cz', 'ftot_D', 'ftot_C', 'ftot_L', 'CL', 'CD', 'CC', 'Cl', 'Cm', 'Cn']


def coeff_spec(F, M):
    """contract of vlm_coeffs: values of the coefficient fields from total loads F, M"""
    a = var('state_alpha') * PI / num(180)
    b = var('state_beta') * PI / num(180)
    sa, ca, sb, cb = fn('sin', a), fn('cos', a), fn('sin', b), fn('cos', b)
    q0 = num(Fraction(1, 2)) * var('state_rho') * var('state_airspeed') * var('state_airspeed')
    q = ite(eq(q0, ZERO), num(1, 'R'), q0)
    S, c, bb = var('refs_area'), var('refs_chord'), var('refs_span')
    # body -> wind axes (rotation by alpha about y, then by beta about the wind z axis)
    D = cb * ca * F[0] - sb * F[1] + cb * sa * F[2]
    C = sb * ca * F[0] + cb * F[1] + sb * sa * F[2]
    L = -sa * F[0] + ca * F[2]
    return {
        'Cx': F[0] / (q * S), 'Cy': F[1] / (q * S), 'Cz': F[2] / (q * S),
        'ftot_D': D, 'ftot_C': C, 'ftot_L': L,
        'CL': L / (q * S), 'CD': D / (q * S), 'CC': C / (q * S),
        'Cl': M[0] / (q * S * bb), 'Cm': M[1] / (q * S * c), 'Cn': M[2] / (q * S * bb),
    }


def coeffs_contract(ex, st, args):
    F = [st.fields[('results', 'ftot_' + c)] for c in 'xyz']
    M = [st.fields[('results', 'mtot_' + c)] for c in 'xyz']
    for k, v in coeff_spec(F, M).items():
        st.fields[('results', k)] = v
    return None


def coeffs(prog):
    n = var('num_pan', 'I')
    r = KernelRun(prog, 'vlm_coeffs', [Obj('lattice'), Obj('state'), Obj('refs'), Obj('results')], n)
    F = [var('old_ftot_' + c) for c in 'xyz']
    M = [var('old_mtot_' + c) for c in 'xyz']
    for k, v in coeff_spec(F, M).items():
        r.oblige('results.%s' % k, (), eq(r.field('results', k), v))
    r.frame(set(), {('results', k) for k in COEFF_F})
    # lemmas over the contract: the wind-axes loads are a rotation of the body-axes loads
    sp = coeff_spec(F, M)
    r.oblige('lemma: drag, side force, lift and body forces have the same magnitude', (),
             eq(dot([sp['ftot_D'], sp['ftot_C'], sp['ftot_L']], [sp['ftot_D'], sp['ftot_C'], sp['ftot_L']]), dot(F, F)))
    r.oblige('lemma: drag is the component along the freestream', (), eq(sp['ftot_D'], dot(F, freestream())))
    r.oblige('lemma: lift is normal to the freestream', (), eq(dot([-fn('sin', var('state_alpha') * PI / num(180)), ZERO, fn('cos', var('state_alpha') * PI / num(180))], freestream()), ZERO))
    return r


def results_spec(r, i):
    """per-panel specification of vlm_results: induced velocity, force, moment"""
    n = r.n
    mid = v3(r, 'lattice.BoundLegMidpoint', i)
    m = fresh('m', 'I')
    w = horseshoe_velocity(r, mid, m)
    iw = [Sum(m, ZERO, n, x * r.pre_rd('results.gamma', m)) for x in w]
    V = lambda q: vec(lambda c: r.pre_rd('lattice.V', num(12) * i + num(3 * q + c)))
    leg = vsub(V(2), V(1))
    cg, rp = vec(lambda c: r.pre_rd('refs.CG', num(c))), vec(lambda c: r.pre_rd('refs.RP', num(c)))
    vel = vadd(vsub(iw, cross(omega(), vsub(mid, cg))), scale(var('state_airspeed'), freestream()))
    f = scale(var('state_rho') * r.pre_rd('results.gamma', i), cross(vel, leg))
    mom = cross(vsub(mid, rp), f)
    q = num(Fraction(1, 2)) * var('state_rho') * var('state_airspeed') * var('state_airspeed')
    cp = dot(f, v3(r, 'lattice.N', i)) / (q * r.pre_rd('lattice.A', i))
    return iw, f, mom, cp


def results(prog, inline=False):
    n = var('num_pan', 'I')
    r = KernelRun(prog, 'vlm_results', [Obj('lattice'), Obj('state'), Obj('refs'), Obj('results'), n], n,
                  contracts={} if inline else {'vlm_coeffs': coeffs_contract})
    i = fresh('i', 'I')
    f = rng(i, n)
    iw, F, M, cp = results_spec(r, i)
    for c, x in zip('xyz', range(3)):
        r.oblige('iw_%s[i] = sum_j of horseshoe velocities * gamma_j' % c, f, eq(r.rd('results.iw_' + c, i, f), iw[x]))
        r.oblige('fpan_%s[i] = rho * gamma_i * (V x L)' % c, f, eq(r.rd('results.fpan_' + c, i, f), F[x]))
    r.oblige('iw_mag[i] = |iw_i|', f, eq(r.rd('results.iw_mag', i, f), norm(iw)))
    r.oblige('fpan_mag[i] = |f_i|', f, eq(r.rd('results.fpan_mag', i, f), norm(F)))
    r.oblige('cp[i] = f_i . n_i / (q A_i)', f, eq(r.rd('results.cp', i, f), cp))
    FT, MT = [], []
    for c, x in zip('xyz', range(3)):
        FT.append(Sum(i, ZERO, n, F[x]))
        MT.append(Sum(i, ZERO, n, M[x]))
        r.oblige('ftot_%s = sum_i f_i' % c, (), eq(r.field('results', 'ftot_' + c), FT[x]))
        r.oblige('mtot_%s = sum_i (m_i - RP) x f_i' % c, (), eq(r.field('results', 'mtot_' + c), MT[x]))
    for k, v in coeff_spec(FT, MT).items():
        r.oblige('coefficient %s from the totals' % k, (), eq(r.field('results', k), v))
    r.frame({'results.' + a for a in RES_ARR if a != 'gamma'}, {('results', k) for k in RES_SCA})
    return r


DBL_MAX = num(float(1.7976931348623157e308))
INFO_F = ['area_min', 'area_max', 'area_avg', 'aspect_min', 'aspect_max', 'aspect_avg']


def pan_inv(i):
    return le(ONE, fn('pan', i, sort='I'))


def pan(i):
    return fn('pan', canon(lift(i)), sort='I')


def lattice(prog):
    ELEM_INV['pan'] = pan_inv
    nseg = var('num_seg', 'I')
    m = fresh('m', 'I')
    ps, pc = (lambda s: pan(num(2) * s)), (lambda s: pan(num(2) * s + num(1)))
    start = lambda s: Sum(m, ZERO, s, ps(m) * pc(m))
    n = start(nseg)

    def prep(ex, st):
        for f in SIZES:
            ex.regions['lattice.' + f].kind = 'local'      # uninitialised: every read must be preceded by a write
        ex.region('pts', num(12) * nseg)
        ex.region('sym', nseg, 'I', kind='zero')
        ex.region('pan', num(2) * nseg, 'I')
        st.fields[('info', 'num_seg')] = nseg
        st.fields[('info', 'num_pan')] = n
        for f in ('num_wng', 'num_ctr', 'num_str'):
            st.fields[('info', f)] = var('info_' + f, 'I')
    r = KernelRun(prog, 'vlm_lattice', [Obj('lattice'), Obj('info'), Obj('state'), Ptr('pts', ZERO), Ptr('sym', ZERO), Ptr('pan', ZERO)], n,
                  pre=(le(ONE, nseg),), prepare=prep)
    s, i, j = fresh('s', 'I'), fresh('i', 'I'), fresh('j', 'I')
    f = rng(s, nseg) + rng(j, ps(s)) + rng(i, pc(s))
    p = start(s) + j * pc(s) + i
    corner = lambda q: vec(lambda c: r.pre_rd('pts', num(12) * s + num(3 * q + c)))
    A, B, C, D = [corner(q) for q in range(4)]

    def bilinear(u, v):
        return [(num(1) - u) * (num(1) - v) * a + u * (num(1) - v) * b + u * v * c + (num(1) - u) * v * d
                for a, b, c, d in zip(A, B, C, D)]
    su, cv = (lambda k: div(j + num(k), ps(s))), (lambda k: div(i + num(k), pc(s)))
    cor = [bilinear(su(0), cv(0)), bilinear(su(1), cv(0)), bilinear(su(1), cv(1)), bilinear(su(0), cv(1))]
    got = [[r.rd('lattice.P', num(12) * p + num(3 * q + c), f) for c in range(3)] for q in range(4)]
    for q, nm in enumerate(('inner leading', 'outer leading', 'outer trailing', 'inner trailing')):
        for c in range(3):
            r.oblige('L01 P[%s, %s] is the bilinear image of its grid point' % (nm, 'xyz'[c]), f, eq(got[q][c], cor[q][c]))
    # neighbours share corners, outermost corners are the region corners: lemmas over the contract
    for c in range(3):
        r.oblige('L01 lemma: chordwise neighbour shares the edge (%s)' % 'xyz'[c], f, and_(
            eq(subst(cor[0][c], {i: i + num(1)}), cor[3][c]), eq(subst(cor[1][c], {i: i + num(1)}), cor[2][c])))
        r.oblige('L01 lemma: spanwise neighbour shares the edge (%s)' % 'xyz'[c], f, and_(
            eq(subst(cor[0][c], {j: j + num(1)}), cor[1][c]), eq(subst(cor[3][c], {j: j + num(1)}), cor[2][c])))
        r.oblige('L01 lemma: outermost corners are the region corners (%s)' % 'xyz'[c], f, and_(
            eq(subst(cor[0][c], {i: ZERO, j: ZERO}), A[c]), eq(subst(cor[1][c], {i: ZERO, j: ps(s) - num(1)}), B[c]),
            eq(subst(cor[2][c], {i: pc(s) - num(1), j: ps(s) - num(1)}), C[c]), eq(subst(cor[3][c], {i: pc(s) - num(1), j: ZERO}), D[c])))
    # slots: the map (region, j, i) -> slot is onto [0, num_pan) (by induction on the region)
    off = fresh('off', 'I')
    g = rng(s, nseg) + (le(start(s), off), lt(off, start(s + num(1))))
    o = off - start(s)
    jj, ii = idiv(o, pc(s)), imod(o, pc(s))
    r.oblige('L01 lemma: every slot of a region belongs to one of its panels', g, and_(
        le(ZERO, jj), lt(jj, ps(s)), le(ZERO, ii), lt(ii, pc(s)), eq(jj * pc(s) + ii, o)))
    r.oblige('L01 lemma: the regions partition the slots', rng(s, nseg), and_(
        eq(start(ZERO), ZERO), eq(start(s + num(1)), start(s) + ps(s) * pc(s))))
    # ---- L02
    fr = freestream()
    V = [[r.rd('lattice.V', num(12) * p + num(3 * q + c), f) for c in range(3)] for q in range(4)]
    P_, Q_, R_, S_ = cor
    qc1 = [num(Fraction(3, 4)) * a + num(Fraction(1, 4)) * b for a, b in zip(P_, S_)]
    qc2 = [num(Fraction(3, 4)) * a + num(Fraction(1, 4)) * b for a, b in zip(Q_, R_)]
    for c in range(3):
        r.oblige('L02 V2 is the quarter-chord point of the inner edge (%s)' % 'xyz'[c], f, eq(V[1][c], qc1[c]))
        r.oblige('L02 V3 is the quarter-chord point of the outer edge (%s)' % 'xyz'[c], f, eq(V[2][c], qc2[c]))
    # trailing legs: exactly along the free stream, by the same positive length of at least 1000 m
    lam1 = dot(vsub(V[0], V[1]), fr)
    lam4 = dot(vsub(V[3], V[2]), fr)
    for c in range(3):
        r.oblige('L02 V1 - V2 is along the free stream (%s)' % 'xyz'[c], f, eq(V[0][c] - V[1][c], lam1 * fr[c]))
        r.oblige('L02 V4 - V3 is along the free stream (%s)' % 'xyz'[c], f, eq(V[3][c] - V[2][c], lam4 * fr[c]))
    r.oblige('L02 trailing legs are long', f, and_(le(num(1000), canon(lam1)), le(num(1000), canon(lam4))))
    col = [num(Fraction(1, 8)) * (a + b) + num(Fraction(3, 8)) * (x + y) for a, b, x, y in zip(P_, Q_, R_, S_)]
    v1 = vsub(col, [num(Fraction(1, 2)) * (a + b) for a, b in zip(P_, Q_)])
    v2 = vsub(col, [num(Fraction(3, 4)) * a + num(Fraction(1, 4)) * b for a, b in zip(R_, Q_)])
    nn = cross(v1, v2)
    ln = norm(nn)
    for c in range(3):
        r.oblige('L02 collocation point at 3/4 chord, mid span (%s)' % 'xyz'[c], f, eq(r.rd('lattice.C', num(3) * p + num(c), f), col[c]))
        r.oblige('L02 bound leg midpoint (%s)' % 'xyz'[c], f, eq(r.rd('lattice.BoundLegMidpoint', num(3) * p + num(c), f), num(Fraction(1, 2)) * (qc1[c] + qc2[c])))
        r.oblige('L02 unit normal through the collocation point (%s)' % 'xyz'[c], f, eq(r.rd('lattice.N', num(3) * p + num(c), f), nn[c] / ln))
    nv = [var('n_%d' % c) for c in range(3)]
    l = var('len_n')
    w1, w2 = [var('u_%d' % c) for c in range(3)], [var('w_%d' % c) for c in range(3)]
    cr = cross(w1, w2)
    r.oblige('L02 lemma: the normal has unit length and is orthogonal to both mean lines', (lt(ZERO, l), eq(l * l, dot(cr, cr))), and_(
        eq(dot(cr, w1) / l, ZERO), eq(dot(cr, w2) / l, ZERO), eq(dot(cr, cr), l * l)))
    sp = [num(Fraction(1, 2)) * (b - a + x - y) for a, b, x, y in zip(P_, Q_, R_, S_)]
    ch = [num(Fraction(1, 2)) * (y - a + x - b) for a, b, x, y in zip(P_, Q_, R_, S_)]
    area = norm(sp) * norm(ch)
    asp = norm(sp) / norm(ch)
    r.oblige('L02 panel area = mean span * mean chord', f, eq(r.rd('lattice.A', p, f), area))
    B3 = [(s, ZERO, nseg), (i, ZERO, pc(s)), (j, ZERO, ps(s))]

    def total(x):
        return Sum(s, ZERO, nseg, Sum(i, ZERO, pc(s), Sum(j, ZERO, ps(s), x)))
    for nm, x in (('area', area), ('aspect', asp)):
        r.oblige('L02 info.%s_max is the maximum over all panels' % nm, (), eq(r.field('info', nm + '_max'), MSet('max', neg(DBL_MAX), B3, x)))
        r.oblige('L02 info.%s_min is the minimum over all panels' % nm, (), eq(r.field('info', nm + '_min'), MSet('min', DBL_MAX, B3, x)))
        r.oblige('L02 info.%s_avg is the mean over all panels' % nm, (), eq(r.field('info', nm + '_avg') , total(x) / n))
    r.frame({'lattice.' + a for a in SIZES}, {('info', k) for k in INFO_F})
    r.parts = dict(start=start, ps=ps, pc=pc, s=s, i=i, j=j, cor=cor)
    return r


def g_downwash(): return downwash(CProgram())
def g_boundary(): return boundary(CProgram())
def g_coeffs(): return coeffs(CProgram())
def g_results(): return results(CProgram())
def g_lattice(): return lattice(CProgram())

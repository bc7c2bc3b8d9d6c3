"""Hash-consed term language of the verification condition generator.

Numeric terms are mathematical integers / reals.  `nf` brings every numeric term
into a canonical Laurent polynomial over atoms (variables, function
applications, square roots, sums over unbounded ranges, ...); two terms with the
same normal form are equal wherever the divisions in them are defined.
"""
from fractions import Fraction
from itertools import permutations
import math

sys_limit = __import__('sys')
sys_limit.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_nf', '_depth')

    def __repr__(self):
        return show(self)

    # convenience operators (numeric)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __bool__(self): raise TypeError('symbolic term used as Python bool: %r' % (self,))


_tab = {}
_byid = []


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else ('c', type(a).__name__, a) for a in args), sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, tuple(args), sort
        t.id = len(_byid)
        t._fv = None
        t._nf = None
        t._depth = None
        _byid.append(t)
        _tab[key] = t
    return t


def byid(i):
    return _byid[i]


# --------------------------------------------------------------------------
# constructors
# --------------------------------------------------------------------------
TRUE = mk('bool', (True,), 'B')
FALSE = mk('bool', (False,), 'B')
PI = mk('var', ('PI',), 'R')


def boolc(b):
    return TRUE if b else FALSE


def num(x, sort=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return mk('num', (Fraction(int(x)),), 'I')
    if isinstance(x, int):
        return mk('num', (Fraction(x),), sort or 'I')
    if isinstance(x, Fraction):
        return mk('num', (x,), sort or ('I' if x.denominator == 1 else 'R'))
    if isinstance(x, float):
        if x == math.pi:
            return PI
        if math.isinf(x) or math.isnan(x):
            return mk('var', ('NAN' if math.isnan(x) else ('INF' if x > 0 else 'NEGINF'),), 'R')
        return mk('num', (Fraction(repr(x)),), 'R')
    raise TypeError(x)


def strc(s):
    return mk('str', (s,), 'S')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, str):
        return strc(x)
    return num(x)


_fresh = [0]


def var(name, sort='R'):
    return mk('var', (name,), sort)


def fresh(hint='v', sort='R'):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (hint, _fresh[0]),), sort)


_pfresh = [0]


def pfresh(hint='v', sort='R'):
    """variables of one execution path: numbered from 1 on each path, so that paths can be
    replayed; never equal to a variable made by fresh()"""
    _pfresh[0] += 1
    return mk('var', ('%s~%d' % (hint, _pfresh[0]),), sort)


def is_num(t):
    return isinstance(t, T) and t.op == 'num'


def numval(t):
    return t.args[0]


def _sort2(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


ZERO = num(0)
ONE = num(1)


def add(a, b):
    if is_num(a) and is_num(b):
        return num(numval(a) + numval(b), _sort2(a, b))
    if is_num(a) and numval(a) == 0:
        return b
    if is_num(b) and numval(b) == 0:
        return a
    return mk('+', (a, b), _sort2(a, b))


def neg(a):
    if is_num(a):
        return num(-numval(a), a.sort)
    return mul(num(-1), a)


def sub(a, b):
    if a is b:
        return num(0, _sort2(a, b))
    return add(a, neg(b))


def mul(a, b):
    if is_num(a) and is_num(b):
        return num(numval(a) * numval(b), _sort2(a, b))
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if numval(x) == 0:
                return num(0, _sort2(a, b))
            if numval(x) == 1 and (x.sort == 'I' or y.sort == 'R'):
                return y
    return mk('*', (a, b), _sort2(a, b))


def div(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) / numval(b), 'R')
    if is_num(b) and numval(b) == 1:
        return a if a.sort == 'R' else mul(num(1, 'R'), a) if False else mk('/', (a, b), 'R')
    return mk('/', (a, b), 'R')


def powi(a, n):
    if n == 0:
        return num(1, a.sort)
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def fn(name, *args, sort='R'):
    return mk('fn', (name,) + tuple(lift(a) for a in args), sort)


def idiv(a, b):   # floor division of integers
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) // numval(b))
    return mk('fn', ('idiv', a, b), 'I')


def imod(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) % numval(b))
    return mk('fn', ('imod', a, b), 'I')


def sqrt(a):
    return mk('fn', ('sqrt', lift(a)), 'R')


def ceil(a):
    if a.sort == 'I':
        return a
    if is_num(a):
        return num(math.ceil(numval(a)))
    return mk('fn', ('ceil', a), 'I')


def floor(a):
    if a.sort == 'I':
        return a
    if is_num(a):
        return num(math.floor(numval(a)))
    return mk('fn', ('floor', a), 'I')


def toreal(a):
    return mk('/', (a, ONE), 'R') if a.sort == 'I' and not is_num(a) else (num(numval(a), 'R') if is_num(a) else a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    s = a.sort if a.sort == b.sort else 'R'
    return mk('ite', (c, a, b), s)


def lt(a, b):
    if is_num(a) and is_num(b):
        return boolc(numval(a) < numval(b))
    if a is b:
        return FALSE
    return mk('<', (a, b), 'B')


def le(a, b):
    if is_num(a) and is_num(b):
        return boolc(numval(a) <= numval(b))
    if a is b:
        return TRUE
    return mk('<=', (a, b), 'B')


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        return boolc(numval(a) == numval(b))
    if a.op == 'str' and b.op == 'str':
        return boolc(a.args[0] == b.args[0])
    if a.sort == 'B' and b.sort == 'B':
        if a.op == 'bool':
            return b if a.args[0] else not_(b)
        if b.op == 'bool':
            return a if b.args[0] else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.id > b.id:
        a, b = b, a
    return mk('==', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a.op == 'bool':
        return boolc(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            out += [y for y in x.args if y not in out]
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            out += [y for y in x.args if y not in out]
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def forall(bvs, body):
    bvs = [b for b in bvs]
    if body is TRUE:
        return TRUE
    return mk('forall', (tuple(b.id for b in bvs), body), 'B')


def Sum(bv, lo, hi, body):
    return mk('sum', (bv, lift(lo), lift(hi), lift(body)), lift(body).sort)


def MSet(kind, init, binders, body):
    """max/min ('max','min') of init and body over the binder ranges"""
    flat = []
    for b, lo, hi in binders:
        flat += [b, lift(lo), lift(hi)]
    return mk('mset', (kind, lift(init), len(binders)) + tuple(flat) + (body,), 'R')


# --------------------------------------------------------------------------
# free variables, substitution
# --------------------------------------------------------------------------
def _bound(t):
    if t.op == 'sum':
        return frozenset([t.args[0].id])
    if t.op == 'mset':
        n = t.args[2]
        return frozenset(t.args[3 + 3 * i].id for i in range(n))
    if t.op == 'bsum':
        n = t.args[0]
        return frozenset(t.args[1 + 3 * i].id for i in range(n))
    if t.op == 'forall':
        return frozenset(t.args[0])
    return frozenset()


def children(t):
    if t.op == 'nf':
        out = []
        for mono, _ in t.args[0]:
            for aid, _ in mono:
                out.append(_byid[aid])
        return out
    return [a for a in t.args if isinstance(a, T)]


def fv(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset([t.id])
        else:
            s = frozenset()
            for c in children(t):
                s |= fv(c)
            t._fv = s - _bound(t)
    return t._fv


def subst(t, m):
    """m: dict var-term -> term (simultaneous). Bound names are globally fresh or
    canonical '$' names; capture is avoided by renaming when necessary."""
    mm = {k.id: v for k, v in m.items()}
    memo = {}
    rng = frozenset().union(*[fv(v) for v in m.values()]) if m else frozenset()

    def go(t):
        if not (fv(t) & mm.keys()):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'var':
            r = mm.get(t.id, t)
        elif t.op == 'nf':
            r = None
            for mono, c in t.args[0]:
                x = num(c, 'R' if t.sort == 'R' else None)
                for aid, e in mono:
                    a = go(_byid[aid])
                    if e > 0:
                        x = mul(x, powi(a, e))
                    else:
                        x = div(x, powi(a, -e))
                r = x if r is None else add(r, x)
            if r is None:
                r = num(0, t.sort)
        else:
            bound = _bound(t)
            if bound & rng:
                # rename bound variables
                ren = {}
                for b in bound & rng:
                    ren[_byid[b]] = fresh(_byid[b].args[0].split('!')[0], _byid[b].sort)
                t2 = _rename_bound(t, ren)
                r = go(t2)
            else:
                r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def _rename_bound(t, ren):
    if t.op == 'forall':
        ids = tuple(ren[_byid[i]].id if _byid[i] in ren else i for i in t.args[0])
        return mk('forall', (ids, subst(t.args[1], ren)), 'B')
    args = []
    for a in t.args:
        if isinstance(a, T):
            a = ren[a] if a in ren else subst(a, ren)
        args.append(a)
    return mk(t.op, args, t.sort)


def rebuild(t, args):
    op = t.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '/':
        return div(*args)
    if op == 'ite':
        return ite(*args)
    if op == '<':
        return lt(*args)
    if op == '<=':
        return le(*args)
    if op == '==':
        return eq(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'fn' and args[0] in ('idiv', 'imod', 'ceil', 'floor'):
        return {'idiv': idiv, 'imod': imod, 'ceil': ceil, 'floor': floor}[args[0]](*args[1:])
    return mk(op, args, t.sort)


def depth(t):
    """nesting depth of canonical binders"""
    if t._depth is None:
        d = max([0] + [depth(c) for c in children(t)])
        if t.op in ('bsum', 'mset'):
            d += 1
        t._depth = d
    return t._depth


# --------------------------------------------------------------------------
# polynomials:  dict mono -> Fraction ; mono = tuple of (atom id, exponent)
# --------------------------------------------------------------------------
def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): Fraction(1)}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = [400000]


def p_mul(p, q):
    if len(p) * len(q) > LIMIT[0]:
        raise TooBig()
    r = {}
    again = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return p_reduce(r)


def _reducible(aid, e):
    a = _byid[aid]
    if a.op == 'fn':
        if a.args[0] == 'sqrt':
            return e >= 2 or e < 0
        if a.args[0] == 'cos':
            return e >= 2
    if a.op == 'nf':
        return e > 0
    if a.op == 'ite01':
        return e >= 2
    return False


def p_reduce(p):
    work = p
    for _ in range(60):
        bad = [m for m in work if any(_reducible(a, e) for a, e in m)]
        if not bad:
            return work
        r = {m: c for m, c in work.items()}
        for m in bad:
            c = r.pop(m)
            for i, (aid, e) in enumerate(m):
                if _reducible(aid, e):
                    break
            rest = {m[:i] + m[i + 1:]: c}
            a = _byid[aid]
            if a.op == 'nf':
                rep = p_pow(dict(a.args[0]), e)
            elif a.args[0] == 'sqrt':
                q, s = e // 2, e % 2
                rep = p_pow(nf(a.args[1]), q)
                if s:
                    rep = p_mul_raw(rep, p_atom(a))
            else:  # cos
                q, s = e // 2, e % 2
                sin_ = p_atom(mk('fn', ('sin', a.args[1]), 'R'), 2)
                rep = p_pow(p_add(p_const(1), sin_, -1), q)
                if s:
                    rep = p_mul_raw(rep, p_atom(a))
            for m2, c2 in p_mul_raw(rest, rep).items():
                v = r.get(m2, 0) + c2
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
        work = r
    return work


def p_mul_raw(p, q):
    if len(p) * len(q) > LIMIT[0]:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_pow(p, n):
    if n < 0:
        return p_pow(p_inv(p), -n)
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, p)
    return r


def _lead(p):
    return p[max(p, key=lambda m: (len(m), m))]


def p_inv(p):
    if not p:
        return p_atom(mk('var', ('UNDEF_INV0',), 'R'))
    if len(p) == 1:
        (m, c), = p.items()
        return p_reduce({tuple((a, -e) for a, e in m): 1 / c})
    c = _lead(p)
    q = p_scale(p, 1 / c)
    # common monomial factor
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    if common:
        common = {a: e for a, e in common.items() if e > 0}
    if common:
        inv_m = tuple(sorted((a, -e) for a, e in common.items()))
        q = p_mul_raw(q, {inv_m: Fraction(1)})
        r = p_mul(p_reduce({inv_m: 1 / c}), p_atom(canon_poly(q), -1))
        return r
    return p_scale(p_atom(canon_poly(q), -1), 1 / c)


def canon_poly(p, sort='R'):
    """poly -> interned canonical term"""
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _byid[m[0][0]]
    return mk('nf', (tuple(sorted(p.items())),), sort)


def canon(t):
    """canonical form of any term"""
    if t.sort in ('R', 'I'):
        p = nf(t)
        return canon_poly(p, t.sort if t.sort == 'I' else 'R')
    if t.sort == 'B':
        return cbool(t)
    if t.op in ('var', 'str', 'bool'):
        return t
    return mk(t.op, [canon(a) if isinstance(a, T) else a for a in t.args], t.sort)


def cbool(t):
    op = t.op
    if op in ('bool', 'var'):
        return t
    if op == 'not':
        return not_(cbool(t.args[0]))
    if op == 'and':
        return and_(*sorted((cbool(a) for a in t.args), key=lambda x: x.id))
    if op == 'or':
        return or_(*sorted((cbool(a) for a in t.args), key=lambda x: x.id))
    if op in ('<', '<='):
        d = p_add(nf(t.args[1]), nf(t.args[0]), -1)
        if not d:
            return boolc(op == '<=')
        if len(d) == 1 and () in d:
            return boolc(d[()] > 0 or (op == '<=' and d[()] >= 0))
        k = abs(_lead(d))
        return mk(op, (ZERO, canon_poly(p_scale(d, 1 / k))), 'B')
    if op == '==':
        a, b = t.args
        if a.sort in ('R', 'I') and b.sort in ('R', 'I'):
            d = p_add(nf(a), nf(b), -1)
            if not d:
                return TRUE
            if len(d) == 1 and () in d:
                return FALSE
            return mk('==', (ZERO, canon_poly(p_scale(d, 1 / _lead(d)))), 'B')
        return eq(canon(a), canon(b))
    if op == 'fn':
        return mk('fn', [canon(a) if isinstance(a, T) else a for a in t.args], t.sort)
    if op == 'forall':
        return mk('forall', (t.args[0], cbool(t.args[1])), 'B')
    raise ValueError(op)


def nf(t):
    if t._nf is None:
        t._nf = _nf(t)
    return t._nf


def _neg_lead(p):
    return bool(p) and _lead(p) < 0


def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def _nf_trig(name, p):
    """addition theorem for a summand asin(q) or atan2(y, x) of the argument (|q| <= 1, (x, y) not zero)"""
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        a = _byid[m[0][0]]
        if a.op != 'fn' or a.args[0] not in ('asin', 'atan2'):
            continue
        if a.args[0] == 'asin':
            s = nf(a.args[1])
            k = nf(sqrt(sub(ONE, mul(a.args[1], a.args[1]))))
        else:
            y, x = a.args[1:]
            h = p_inv(nf(sqrt(add(mul(x, x), mul(y, y)))))
            s, k = p_mul(nf(y), h), p_mul(nf(x), h)
        rest = canon_poly({m2: c2 for m2, c2 in p.items() if m2 != m})
        sr, kr = nf(mk('fn', ('sin', rest), 'R')), nf(mk('fn', ('cos', rest), 'R'))
        sin_ = p_add(p_mul(sr, k), p_mul(kr, s), c)
        cos_ = p_add(p_mul(kr, k), p_mul(sr, s), -c)
        return sin_ if name == 'sin' else cos_ if name == 'cos' else p_mul(sin_, p_inv(cos_))
    return None


def _nf(t):
    op = t.op
    if op == 'num':
        return p_const(t.args[0])
    if op == 'var':
        return p_atom(t)
    if op == 'nf':
        return dict(t.args[0])
    if op == '+':
        # iterative flattening of left-nested sums
        return p_add(nf(t.args[0]), nf(t.args[1]))
    if op == '*':
        return p_mul(nf(t.args[0]), nf(t.args[1]))
    if op == '/':
        return p_mul(nf(t.args[0]), p_inv(nf(t.args[1])))
    if op == 'ite':
        c, a, b = cbool(t.args[0]), canon(t.args[1]), canon(t.args[2])
        if c.op == 'bool':
            return nf(a if c.args[0] else b)
        if a is b:
            return nf(a)
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        return p_atom(mk('ite', (c, a, b), t.sort))
    if op == 'fn':
        name = t.args[0]
        if name == 'sqrt':
            p = nf(t.args[1])
            if not p:
                return {}
            k = Fraction(1)
            # pull a rational square out of the content
            g = 0
            l = 1
            for c in p.values():
                g = math.gcd(g, abs(c.numerator))
                l = l * c.denominator // math.gcd(l, c.denominator)
            g0 = Fraction(g, l)
            p1 = p_scale(p, 1 / g0)
            s1, s2 = _isq(g0.numerator), _isq(g0.denominator)
            if s1 and s2:
                k, p = Fraction(s1, s2), p1
                if len(p) == 1 and () in p and p[()] == 1:
                    return p_const(k)
            else:
                # n/d = n*d/d^2 : normalise denominators
                p = p_scale(p, Fraction(g0.denominator ** 2))
                k = Fraction(1, g0.denominator)
            return p_scale(p_atom(mk('fn', ('sqrt', canon_poly(p)), 'R')), k)
        if name in ('sin', 'cos', 'tan'):
            p = nf(t.args[1])
            sgn = 1
            if not p:
                return p_const(1 if name == 'cos' else 0)
            r = _nf_trig(name, p)
            if r is not None:
                return r
            if _neg_lead(p):
                p = p_scale(p, -1)
                sgn = -1
            a = canon_poly(p)
            if name == 'tan':
                return p_mul(p_scale(p_atom(mk('fn', ('sin', a), 'R')), sgn),
                             p_inv(p_atom(mk('fn', ('cos', a), 'R'))))
            at = p_atom(mk('fn', (name, a), 'R'))
            return at if name == 'cos' else p_scale(at, sgn)
        if name == 'abs':
            p = nf(t.args[1])
            if not p:
                return {}
            if len(p) == 1 and () in p:
                return p_const(abs(p[()]))
            k = abs(_lead(p))
            if _neg_lead(p):
                p = p_scale(p, -1)
            return p_scale(p_atom(mk('fn', ('abs', canon_poly(p_scale(p, 1 / k))), t.sort)), k)
        args = [canon(a) if isinstance(a, T) else a for a in t.args]
        return p_atom(mk('fn', args, t.sort))
    if op == 'sum':
        bv, lo, hi, body = t.args
        return _nf_sum(bv, lo, hi, nf(body))
    if op == 'mset':
        return p_atom(_canon_mset(t))
    if op == 'bsum':
        if t.id in _canonical_bsums:
            return p_atom(t)
        bs, body = open_bsum(t)
        p = nf(body)
        for b, hi in reversed(bs):
            p = _nf_sum(b, ZERO, hi, p)
        return p
    raise ValueError('nf of %s' % op)


def mono_term(m, c=1):
    return canon_poly({m: Fraction(c)})


def _nf_sum(bv, lo, hi, p):
    lo_p, hi_p = nf(lo), nf(hi)
    if lo_p:
        # shift to start at 0
        body = subst(canon_poly(p), {bv: add(bv, lo)})
        p = nf(body)
        hi_p = p_add(hi_p, lo_p, -1)
    hi_c = canon_poly(hi_p, 'I')
    res = {}
    if is_num(hi_c) and numval(hi_c) <= 12:
        for v in range(int(numval(hi_c))):
            res = p_add(res, nf(subst(canon_poly(p), {bv: num(v)})))
        return res
    c0 = hi_p.get((), 0)
    if c0 and c0.denominator == 1 and abs(c0) <= 6 and not is_num(hi_c):
        # sums telescope: S(h+1) = S(h) + t(h) for every integer h (for negative upper
        # bounds this is the usual extension of the notation)
        h = canon_poly(p_add(hi_p, p_const(c0), -1), 'I')
        t = canon_poly(p)
        res = _nf_sum(bv, ZERO, h, p)
        for v in range(int(abs(c0))):
            res = p_add(res, nf(subst(t, {bv: add(h, num(v) if c0 > 0 else num(-1 - v))})), 1 if c0 > 0 else -1)
        return res
    for m, c in p.items():
        ind = tuple((a, e) for a, e in m if bv.id not in fv(_byid[a]))
        dep = tuple((a, e) for a, e in m if bv.id in fv(_byid[a]))
        if not dep:
            contrib = p_mul({ind: c}, hi_p)
        else:
            binders = [(bv, hi_c)]
            rest = []
            for a, e in dep:
                at = _byid[a]
                if at.op == 'bsum' and e == 1:
                    b2, m2 = open_bsum(at)
                    binders += b2
                    rest.append(m2)
                else:
                    rest.append(canon_poly({((a, e),): Fraction(1)}))
            body = rest[0]
            for r in rest[1:]:
                body = mul(body, r)
            # pulling factors of inner sums that became independent of all binders is
            # not needed: inner sum factors were split already
            k_, t_ = _canon_bsum(binders, body)
            contrib = p_mul({ind: c * k_}, p_atom(t_))
        res = p_add(res, contrib)
    return res


def open_bsum(t):
    """bsum -> list of (fresh binder, hi), body"""
    n = t.args[0]
    ren = {}
    out = []
    for i in range(n):
        b = t.args[1 + 3 * i]
        nb = fresh('k', 'I')
        hi = subst(t.args[1 + 3 * i + 2], ren)
        ren[b] = nb
        out.append((nb, hi))
    return out, subst(t.args[-1], ren)


def _canon_binders(binders, build):
    """choose a canonical order and names for binders; build(list of (b, hi)) with
    renaming dict gives the term; the candidate with smallest id-key wins"""
    best = None
    n = len(binders)
    ids = [b.id for b, _ in binders]
    perms = permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for perm in perms:
        ok = True
        seen = set()
        for i in perm:
            dep = fv(binders[i][1]) & set(ids)
            if not dep <= seen:
                ok = False
                break
            seen.add(ids[i])
        if not ok:
            continue
        cand = build([binders[i] for i in perm])
        if best is None or cand[1].id < best[1].id:
            best = cand
    return best


_canonical_bsums = set()


def _canon_bsum(binders, body):
    d = depth(body)
    for _, hi in binders:
        d = max(d, depth(hi))

    def build(order):
        ren = {}
        args = [len(order)]
        for i, (b, hi) in enumerate(order):
            nb = var('$%d_%d' % (d + 1, i), 'I')
            args += [nb, ZERO, canon(subst(hi, ren))]
            ren[b] = nb
        p = nf(subst(body, ren))
        k = Fraction(1)
        if len(p) == 1:
            (m, k), = p.items()
            p = {m: Fraction(1)}
        args.append(canon_poly(p, 'I' if body.sort == 'I' else 'R'))
        return k, mk('bsum', args, 'I' if body.sort == 'I' else 'R')
    k, t = _canon_binders(binders, build)
    _canonical_bsums.add(t.id)
    return k, t


def _canon_mset(t):
    kind, init, n = t.args[:3]
    binders = []
    body = t.args[-1]
    ren0 = {}
    for i in range(n):
        b, lo, hi = t.args[3 + 3 * i:6 + 3 * i]
        nb = fresh('k', 'I')
        lo = subst(lo, ren0)
        hi = subst(hi, ren0)
        ren0[b] = add(nb, lo)
        binders.append((nb, sub(hi, lo)))
    body = subst(body, ren0)
    init = canon(init)
    # flatten nested msets of the same kind
    while True:
        b = canon(body)
        if b.op == 'mset' and b.args[0] == kind and b.args[1] is init:
            nb2 = b.args[2]
            ren = {}
            for i in range(nb2):
                bb, lo, hi = b.args[3 + 3 * i:6 + 3 * i]
                f = fresh('k', 'I')
                hi = subst(hi, ren)
                ren[bb] = f
                binders.append((f, hi))
            body = subst(b.args[-1], ren)
        else:
            break
    d = max([depth(body)] + [depth(h) for _, h in binders])

    def build(order):
        ren = {}
        args = [kind, init, len(order)]
        for i, (b, hi) in enumerate(order):
            nb = var('$%d_%d' % (d + 1, i), 'I')
            args += [nb, ZERO, canon(subst(hi, ren))]
            ren[b] = nb
        args.append(canon(subst(body, ren)))
        return 1, mk('mset', args, 'R')
    return _canon_binders(binders, build)[1]


def p_clear(p):
    """multiply a polynomial by the (non-zero) denominators occurring in it"""
    for _ in range(40):
        den = {}
        for m in p:
            for a, e in m:
                if e < 0 and _byid[a].op == 'nf':
                    den[a] = max(den.get(a, 0), -e)
        if not den:
            break
        a = max(den, key=lambda a: (depth(_byid[a]), len(_byid[a].args[0])))
        k = den[a]
        r = {}
        groups = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            groups.setdefault(k + e, {})[tuple(sorted(d.items()))] = c
        base = dict(_byid[a].args[0])
        for e, q in groups.items():
            r = p_add(r, p_mul(q, p_pow(base, e)))
        p = r
    # clear negative powers of plain atoms too (harmless; gives a polynomial)
    neg_ = {}
    for m in p:
        for a, e in m:
            if e < 0:
                neg_[a] = max(neg_.get(a, 0), -e)
    if neg_:
        p = p_mul(p, {tuple(sorted(neg_.items())): Fraction(1)})
    return p


def p_is_zero(p):
    if not p:
        return True
    q = p_clear(p)
    return not q


# --------------------------------------------------------------------------
# printing / evaluation
# --------------------------------------------------------------------------
def show(t, lim=400):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + '...'


def _show(t):
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op in ('bool',):
        return str(t.args[0])
    if op == 'str':
        return repr(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'nf':
        out = []
        for m, c in t.args[0][:12]:
            s = '*'.join(_show(_byid[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
            out.append((str(c) + '*' if c != 1 or not s else '') + s)
        return '(' + ' + '.join(out) + ('' if len(t.args[0]) <= 12 else ' + ...') + ')'
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(_show(a) for a in t.args[1:] if isinstance(a, T)))
    if op == 'bsum':
        return 'SUM[%s](%s)' % (', '.join('%s<%s' % (_show(t.args[1 + 3 * i]), _show(t.args[3 + 3 * i])) for i in range(t.args[0])), _show(t.args[-1]))
    if op == 'sum':
        return 'SUM[%s<=%s<%s](%s)' % (_show(t.args[1]), _show(t.args[0]), _show(t.args[2]), _show(t.args[3]))
    if op == 'forall':
        return 'forall(%s)' % _show(t.args[1])
    if op == 'mset':
        return '%s{%s; %s}' % (t.args[0], _show(t.args[1]), _show(t.args[-1]))
    if op in ('+', '*', '/', '<', '<=', '=='):
        return '(%s %s %s)' % (_show(t.args[0]), op, _show(t.args[1]))
    return '%s(%s)' % (op, ', '.join(_show(a) for a in t.args if isinstance(a, T)))

"""Discharges obligations: normal forms for (rational) identities, z3 for linear and
non-linear arithmetic, booleans and uninterpreted functions, cvc5 as second solver."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from .terms import *
from . import terms as tm

# element invariants of arrays: name -> function(args) -> fact (instantiates the
# precondition "for all indices ..." at one index)
ELEM_INV = {}


class Result:
    def __init__(self, ok, backend, detail='', t=0.0):
        self.ok, self.backend, self.detail, self.t = ok, backend, detail, t

    def __bool__(self):
        return self.ok


class Z:
    """translation of canonical terms to z3"""

    def __init__(self, linear):
        self.linear = linear
        self.memo = {}
        self.monos = {}
        self.side = []
        self.done = set()

    def name(self, t):
        return 'a%d' % t.id

    def isint(self, t):
        return t.sort == 'I'

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is not None:
            return r
        op = a.op
        if op == 'var':
            s = a.sort
            if s == 'I':
                r = z3.Int(a.args[0])
            elif s == 'R':
                r = z3.Real(a.args[0])
                if a is PI:
                    self.side.append(r > z3.RealVal('3.14159265'))
                    self.side.append(r < z3.RealVal('3.14159266'))
            elif s == 'B':
                r = z3.Bool(a.args[0])
            elif s == 'S':
                r = z3.String(a.args[0])
            else:
                r = z3.Const(a.args[0], z3.DeclareSort(s))
        elif op == 'str':
            r = z3.StringVal(a.args[0])
        elif op == 'bool':
            r = z3.BoolVal(a.args[0])
        elif op == 'ite':
            c = self.b(a.args[0])
            x, y = self.n(a.args[1]), self.n(a.args[2])
            x, y = self._same(x, y)
            r = z3.If(c, x, y)
        elif op == 'fn':
            name = a.args[0]
            args = [self.any(x) for x in a.args[1:] if isinstance(x, T)]
            key = name + '_' + '_'.join(str(x) for x in a.args[1:] if not isinstance(x, T))
            rs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': z3.StringSort()}.get(a.sort)
            if rs is None:
                rs = z3.DeclareSort(a.sort)
            sig = '_'.join(str(x.sort()) for x in args)
            if args:
                f = z3.Function(key + '|' + sig, *([x.sort() for x in args] + [rs]))
                r = f(*args)
            else:
                r = z3.Const(key, rs)
            self.memo[a.id] = r
            if name == 'sqrt':
                p = self.n(a.args[1])
                self.side.append(r >= 0)
                if not self.linear:
                    self.side.append(z3.Implies(p >= 0, r * r == p))
                self.side.append(z3.Implies(p > 0, r > 0))
            elif name in ('sin', 'cos'):
                self.side += [r >= -1, r <= 1]
            elif name in ('asin', 'atan2'):
                # angle over PI
                q = self.mono(tuple(sorted([(PI.id, -1), (a.id, 1)])))
                if name == 'asin':
                    self.side += [2 * q >= -1, 2 * q <= 1]
                else:
                    self.side.append(z3.Implies(self.n(a.args[2]) > 0, z3.And(2 * q > -1, 2 * q < 1)))
            elif name == 'ceil':
                x = self.n(a.args[1])
                rr = z3.ToReal(r)
                x = z3.ToReal(x) if x.is_int() else x
                self.side += [rr >= x, rr - 1 < x]
            elif name == 'floor':
                x = self.n(a.args[1])
                rr = z3.ToReal(r)
                x = z3.ToReal(x) if x.is_int() else x
                self.side += [rr <= x, rr + 1 > x]
            elif name == 'abs':
                x = self.n(a.args[1])
                self.side.append(r == z3.If(x >= 0, x, -x))
            elif name == 'idiv' or name == 'imod':
                x, y = a.args[1], a.args[2]
                if is_num(y) and numval(y) > 0:
                    zx, zy = self.n(x), int(numval(y))
                    self.side.append(r == (zx / zy if name == 'idiv' else zx % zy))
                elif name == 'idiv':
                    q = a
                    # y>0 -> y*q <= x < y*q+y
                    lo = cbool(le(mul(y, q), x))
                    hi = cbool(lt(x, add(mul(y, q), y)))
                    pos = cbool(lt(ZERO, y))
                    self.side.append(z3.Implies(self.b(pos), z3.And(self.b(lo), self.b(hi))))
                else:
                    self.side.append(z3.Implies(self.b(cbool(lt(ZERO, y))), z3.And(r >= 0, r < self.n(y))))
                    self.side.append(self.b(cbool(eq(a, sub(x, mul(y, idiv(x, y)))))))
            if name in ELEM_INV:
                f = ELEM_INV[name](*a.args[1:])
                if f is not None:
                    self.side.append(self.b(cbool(f)))
        elif op in ('bsum', 'mset', 'nf'):
            free = [byid(i) for i in sorted(fv(a))]
            r = z3.Int('s%d' % a.id) if a.sort == 'I' else z3.Real('s%d' % a.id)
            if op == 'nf':
                return self.n(a)
        else:
            raise ValueError('atom ' + op)
        self.memo[a.id] = r
        return r

    def _same(self, x, y):
        if x.sort() == y.sort():
            return x, y
        if x.is_int():
            return z3.ToReal(x), y
        return x, z3.ToReal(y)

    def any(self, t):
        if t.sort in ('R', 'I'):
            return self.n(t)
        if t.sort == 'B':
            return self.b(t)
        return self.atom(t)

    def mono(self, m):
        """returns z3 term of a monomial"""
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(byid(m[0][0]))
        r = self.monos.get(m)
        if r is not None:
            return r
        allint = all(byid(a).sort == 'I' and e > 0 for a, e in m)
        if self.linear:
            nm = 'm_' + '_'.join('%d^%d' % x for x in m)
            r = z3.Int(nm) if allint else z3.Real(nm)
            # make sure atoms' side conditions are known
            for a, e in m:
                self.atom(byid(a))
        else:
            fs = []
            for a, e in m:
                z = self.atom(byid(a))
                if not allint and z.is_int():
                    z = z3.ToReal(z)
                if e < 0:
                    iv = z3.Real('inv_%d' % a)
                    if ('inv', a) not in self.done:
                        self.done.add(('inv', a))
                        self.side.append(z3.Implies(z != 0, iv * z == 1))
                    z, e = iv, -e
                for _ in range(e):
                    fs.append(z)
            r = fs[0]
            for f in fs[1:]:
                r = r * f
        self.monos[m] = r
        return r

    def n(self, t):
        r = self.memo.get(('n', t.id))
        if r is None:
            r = self.poly(nf(t), t.sort == 'I')
            self.memo[('n', t.id)] = r
        return r

    def poly(self, p, wantint=False):
        if not p:
            return z3.IntVal(0) if wantint else z3.RealVal(0)
        ints = all(c.denominator == 1 for c in p.values()) and \
            all(all(byid(a).sort == 'I' and e > 0 for a, e in m) for m in p)
        out = []
        for m, c in p.items():
            if m == ():
                out.append(z3.IntVal(int(c)) if ints else z3.RealVal(str(c)))
                continue
            z = self.mono(m)
            if ints:
                out.append(z if c == 1 else z3.IntVal(int(c)) * z)
            else:
                if z.is_int():
                    z = z3.ToReal(z)
                out.append(z if c == 1 else z3.RealVal(str(c)) * z)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def b(self, t):
        op = t.op
        if op == 'bool':
            return z3.BoolVal(t.args[0])
        if op == 'not':
            return z3.Not(self.b(t.args[0]))
        if op == 'and':
            return z3.And([self.b(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.b(a) for a in t.args])
        if op in ('<', '<=', '=='):
            if t.args[0].sort in ('R', 'I') and t.args[1].sort in ('R', 'I'):
                d = p_add(nf(t.args[1]), nf(t.args[0]), -1)
                # scale to integer coefficients
                l = 1
                for c in d.values():
                    import math
                    l = l * c.denominator // math.gcd(l, c.denominator)
                z = self.poly(p_scale(d, Fraction(l)))
                return z > 0 if op == '<' else z >= 0 if op == '<=' else z == 0
            return self.any(t.args[0]) == self.any(t.args[1])
        if op == 'var' or op == 'fn':
            return self.atom(t)
        if op == 'forall':
            bvs = [byid(i) for i in t.args[0]]
            return z3.ForAll([self.atom(b) for b in bvs], self.b(t.args[1]))
        raise ValueError('bool ' + op)


def flat(facts):
    out = []
    for f in facts:
        if f.op == 'and':
            out += flat(f.args)
        elif f is not TRUE:
            out.append(f)
    return out


def collect_atoms(t, acc=None, kinds=('bsum',)):
    acc = {} if acc is None else acc
    seen = set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op in kinds:
            acc[t.id] = t
        for c in children(t):
            go(c)
    go(t)
    return acc


class Prover:
    def __init__(self, timeout=8.0):
        self.timeout = timeout
        self.cache = {}
        self.nonneg_cache = {}
        self.stats = {}
        self.log = []

    # ------------------------------------------------------------------
    def prove(self, facts, goal, nl=True, timeout=None):
        t0 = time.time()
        try:
            r = self._prove(flat(facts), goal, nl, timeout or self.timeout, 0)
        except tm.TooBig:
            r = Result(False, 'nf', 'normal form too large')
        r.t = time.time() - t0
        self.stats.setdefault(r.backend, [0, 0.0])
        self.stats[r.backend][0] += 1
        self.stats[r.backend][1] += r.t
        return r

    def _prove(self, facts, goal, nl, timeout, lvl):
        if goal is TRUE:
            return Result(True, 'simplify')
        if FALSE in facts:
            return Result(True, 'simplify')
        if goal.op == 'and':
            back = set()
            for g in goal.args:
                r = self._prove(facts, g, nl, timeout, lvl)
                if not r:
                    return r
                back.add(r.backend)
            return Result(True, '+'.join(sorted(back)))
        if goal.op == 'forall':
            ren = {byid(i): fresh(byid(i).args[0].split('!')[0], byid(i).sort) for i in goal.args[0]}
            return self._prove(facts, subst(goal.args[1], ren), nl, timeout, lvl)
        if goal.op == 'or':
            # implication: assume the negation of simple disjuncts, prove an equality disjunct
            eqs = [a for a in goal.args if a.op in ('==', 'forall')]
            if 1 < len(eqs) <= 3:
                for e in eqs:
                    r = self._prove(facts, e, nl, timeout, lvl)
                    if r:
                        return r
            if len(eqs) == 1:
                others = [not_(a) for a in goal.args if a is not eqs[0]]
                return self._prove(flat(facts + others), eqs[0], nl, timeout, lvl)
        if goal.op == '==' and goal.args[0].sort in ('R', 'I') and goal.args[1].sort in ('R', 'I'):
            r = self.prove_eq(facts, goal.args[0], goal.args[1], nl, timeout, lvl)
            return r
        return self.smt(facts, goal, nl, timeout)

    # ------------------------------------------------------------------
    def eq_subst(self, facts):
        """variable equalities among the facts, as a substitution"""
        m = {}
        for f in facts:
            if f.op == '==':
                a, b = f.args
                for x, y in ((a, b), (b, a)):
                    if x.op == 'var' and x.id not in fv(y) and x not in m and x is not PI:
                        if y.op == 'num' or y.op == 'var' or True:
                            if any(v.op != 'num' and x.id in fv(v) for v in m.values()):
                                continue
                            if fv(y) & {k.id for k in m}:
                                y = subst(y, m)
                                if x.id in fv(y):
                                    continue
                            m[x] = y
                            break
        return m

    def prove_eq(self, facts, a, b, nl, timeout, lvl=0):
        p = p_add(nf(a), nf(b), -1)
        if p_is_zero(p):
            return Result(True, 'normal-form')
        d = canon_poly(p)
        m = self.eq_subst(facts)
        if m and (fv(d) & {k.id for k in m}):
            d2 = subst(d, m)
            facts2 = [subst(f, m) for f in facts]
            p = nf(d2)
            if p_is_zero(p):
                return Result(True, 'normal-form')
            d = canon_poly(p)
            facts = [f for f in facts2 if f is not TRUE]
        # case split on ite conditions
        if lvl < 12:
            ites = collect_atoms(d, kinds=('ite',))
            cand = [t for t in ites.values()
                    if not any(byid(i).args[0].startswith('$') for i in fv(t.args[0]))]
            if cand:
                t = min(cand, key=lambda t: (len(collect_atoms(t.args[0], kinds=('ite',))), t.id))
                c = t.args[0]
                back = set(['normal-form'])
                for val in (True, False):
                    f = c if val else not_(c)
                    fs = flat(facts + [f])
                    if self.smt(fs, FALSE, False, 2.0).ok:
                        continue
                    d2 = assume(d, c, val)
                    r = self.prove_eq(fs, d2, ZERO, nl, timeout, lvl + 1)
                    if not r:
                        r.detail = r.detail or ('case %s = %s' % (show(c), val))
                        return r
                    back.add(r.backend)
                return Result(True, 'case-split+' + '+'.join(sorted(back)))
        # sums over the same range whose terms are pointwise equal
        sums = [s for s in collect_atoms(d).values() if s.args[0] == 1 and not any(byid(i).args[0].startswith('$') for i in fv(s))]
        if lvl < 14 and 1 < len(sums) <= 8:
            m = {}
            for i, s1 in enumerate(sums):
                for s2 in sums[:i]:
                    if s1 not in m and s2 not in m and s1.args[2] is s2.args[2] and s1.args[3] is s2.args[3]:
                        b = fresh('s', 'I')
                        fs = flat(facts + [le(s1.args[2], b), lt(b, s1.args[3])])
                        if self.prove_eq(fs, subst(s1.args[4], {s1.args[1]: b}), subst(s2.args[4], {s2.args[1]: b}), nl, timeout, lvl + 1).ok:
                            m[s1] = s2
            if m:
                r = self.prove_eq(facts, replace(d, m), ZERO, nl, timeout, lvl + 1)
                if r:
                    r.backend = 'sum-congruence+' + r.backend
                return r
        # inverse-of-zero / abs / remaining: SMT
        if len(p) > 4000:
            return Result(False, 'normal-form', 'not an identity (large residue)')
        pc = p_clear(p)
        r = self.smt(facts, eq(canon_poly(pc), ZERO), nl, timeout)
        if not r.ok:
            r.detail = (r.detail or '') + ' residue ' + show(d)
        return r

    # ------------------------------------------------------------------
    def nonneg_body(self, b, body, hi, facts):
        key = (body.id, b.id)
        if key in self.nonneg_cache:
            return self.nonneg_cache[key]
        self.nonneg_cache[key] = False
        r = self.smt([le(ZERO, b), lt(b, hi)], le(ZERO, body), True, 3.0, hints=True)
        self.nonneg_cache[key] = bool(r.ok)
        return bool(r.ok)

    def sum_hints(self, terms):
        acc = {}
        for t in terms:
            collect_atoms(t, acc)
        sums = [s for s in acc.values() if s.args[0] == 1]
        out = []
        byb = {}
        for s in sums:
            byb.setdefault((s.args[1].id, s.args[4].id), []).append(s)
        for (bid, bodyid), ss in byb.items():
            b, body = byid(bid), byid(bodyid)
            nn = self.nonneg_body(b, body, fresh('N', 'I'), [])
            for s in ss:
                if nn:
                    out.append(implies(le(ZERO, s.args[3]), le(ZERO, s)))
                for s2 in ss:
                    if s is s2:
                        continue
                    h1, h2 = s.args[3], s2.args[3]
                    d = p_add(nf(h2), nf(h1), -1)
                    if len(d) == 1 and () in d and d[()] == 1:
                        out.append(implies(le(ZERO, h1), eq(s2, add(s, subst(body, {b: h1})))))
                    if nn:
                        out.append(implies(and_(le(ZERO, h1), lt(h1, h2)), le(add(s, subst(body, {b: h1})), s2)))
                        out.append(implies(and_(le(ZERO, h1), le(h1, h2)), le(s, s2)))
                # single step with known element: S(h+1) not present: nothing
            # distribute: sums of different bodies are unrelated
        return out

    def product_hints(self, facts, goal_terms):
        """products of pairs of linear facts (Handelman style), to help with i*n+j"""
        polys = []
        for f in facts:
            if f.op in ('<', '<='):
                p = p_add(nf(f.args[1]), nf(f.args[0]), -1)
                ints = all(c.denominator == 1 for c in p.values()) and \
                    all(all(byid(a).sort == 'I' and e > 0 for a, e in m) for m in p)
                if f.op == '<' and ints:
                    p = p_add(p, p_const(1), -1)
                if all(sum(e for _, e in m) <= 1 and all(e > 0 for _, e in m) for m in p) and 0 < len(p) <= 4:
                    if p not in polys:
                        polys.append(p)
        want = set()
        for t in goal_terms:
            for m in nf(t):
                if len(m) > 1 or (m and m[0][1] > 1):
                    want.add(m)
        if not want:
            return []
        out = []
        degs = 2
        for i in range(len(polys)):
            for j in range(i, len(polys)):
                q = p_mul_raw(polys[i], polys[j])
                nlm = [m for m in q if sum(e for _, e in m) > 1]
                if nlm and any(m in want for m in nlm):
                    out.append(le(ZERO, canon_poly(q)))
        return out[:400]

    # ------------------------------------------------------------------
    def smt(self, facts, goal, nl=True, timeout=5.0, hints=True):
        key = (tuple(sorted(f.id for f in facts)), goal.id, nl)
        if key in self.cache:
            return self.cache[key]
        r = self._smt(facts, goal, nl, timeout, hints)
        self.cache[key] = r
        return r

    def _num_parts(self, t, acc):
        if t.op in ('<', '<=', '==') and t.args[0].sort in ('R', 'I'):
            acc.append(canon_poly(p_add(nf(t.args[1]), nf(t.args[0]), -1)))
        elif t.op in ('and', 'or', 'not'):
            for a in t.args:
                self._num_parts(a, acc)
        return acc

    def _smt(self, facts, goal, nl, timeout, hints):
        cf = [cbool(f) for f in facts]
        cf = [f for f in cf if f is not TRUE]
        g = cbool(goal)
        if g is TRUE:
            return Result(True, 'simplify')
        if FALSE in cf:
            return Result(True, 'simplify')
        if g in cf:
            return Result(True, 'simplify')
        extra = []
        # element invariants of atoms occurring
        acc = {}
        for t in cf + [g]:
            collect_atoms(t, acc, kinds=('fn',))
        for a in acc.values():
            if a.args[0] in ELEM_INV and not any(byid(i).args[0].startswith('$') for i in fv(a)):
                f = ELEM_INV[a.args[0]](*a.args[1:])
                if f is not None:
                    extra.append(cbool(f))
        if hints:
            sh = [cbool(h) for h in self.sum_hints(cf + [g])]
            extra += [h for h in sh if h is not TRUE]
            # new function atoms may appear in the hints
            acc2 = {}
            for t in sh:
                collect_atoms(t, acc2, kinds=('fn',))
            for a in acc2.values():
                if a.id not in acc and a.args[0] in ELEM_INV and not any(byid(i).args[0].startswith('$') for i in fv(a)):
                    f = ELEM_INV[a.args[0]](*a.args[1:])
                    if f is not None:
                        extra.append(cbool(f))
            parts = []
            for t in [g] + extra + cf:
                self._num_parts(t, parts)
            extra += [cbool(h) for h in self.product_hints(cf + extra, parts)]
        simple = [e for e in extra]
        # 1. linear over monomials
        z = Z(True)
        s = z3.Solver()
        s.set('timeout', int(timeout * 500))
        zs = [z.b(f) for f in cf + simple]
        zg = z3.Not(z.b(g))
        s.add(*zs)
        s.add(zg)
        s.add(*z.side)
        r = s.check()
        if r == z3.unsat:
            return Result(True, 'z3-lin')
        model = s.model() if r == z3.sat else None
        nonlinear = bool(z.monos)
        detail = 'z3: %s' % r
        if model is not None and not nonlinear:
            res = Result(False, 'z3', 'counter-model: ' + str(model)[:600])
            res.model = model
            return res
        if nl and nonlinear:
            z = Z(False)
            s = z3.Solver()
            s.set('timeout', int(timeout * 1000))
            zs = [z.b(f) for f in cf + [e for e in extra]]
            zg = z3.Not(z.b(g))
            s.add(*zs)
            s.add(zg)
            s.add(*z.side)
            r = s.check()
            if r == z3.unsat:
                return Result(True, 'z3-nl')
            if r == z3.sat:
                res = Result(False, 'z3', 'counter-model: ' + str(s.model())[:600])
                return res
            detail = 'z3: unknown'
            r2 = cvc5_check(s, timeout)
            if r2 == 'unsat':
                return Result(True, 'cvc5')
            detail += ', cvc5: ' + r2
        elif r == z3.unknown:
            r2 = cvc5_check(s, timeout)
            if r2 == 'unsat':
                return Result(True, 'cvc5')
            detail += ', cvc5: ' + r2
        return Result(False, 'smt', detail)

    def feasible(self, facts):
        """False only if the facts are contradictory"""
        return not self.smt(flat(facts), FALSE, False, 2.0).ok


def cvc5_check(solver, timeout):
    exe = '/usr/local/bin/cvc5'
    if not os.path.exists(exe):
        import shutil
        exe = shutil.which('cvc5')
        if not exe:
            return 'absent'
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fp:
        fp.write(txt)
    try:
        out = subprocess.run([exe, '--tlimit=%d' % int(timeout * 1000), fp.name], capture_output=True, text=True, timeout=timeout + 5)
        o = out.stdout.strip().split('\n')
        return o[0] if o and o[0] else 'error'
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(fp.name)


def replace(t, m):
    """replace atoms of a canonical term"""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t.id)
        if r is None:
            if t.op == 'nf':
                r = None
                for mo, k in t.args[0]:
                    x = num(k)
                    for aid, e in mo:
                        a = go(byid(aid))
                        x = mul(x, powi(a, e)) if e > 0 else div(x, powi(a, -e))
                    r = x if r is None else add(r, x)
            else:
                r = t
            memo[t.id] = r
        return r
    return go(t)


def assume(t, c, val):
    """replace ite(c, x, y) by a branch everywhere in t (c canonical)"""
    memo = {}
    neg = cbool(not_(c))

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t is c:
            r = boolc(val)
        elif t is neg:
            r = boolc(not val)
        elif t.op == 'ite':
            cc = go(t.args[0])
            if cc.op == 'bool':
                r = go(t.args[1] if cc.args[0] else t.args[2])
            else:
                r = ite(cc, go(t.args[1]), go(t.args[2]))
        elif t.op == 'nf':
            r = None
            for m, k in t.args[0]:
                x = num(k)
                for aid, e in m:
                    a = go(byid(aid))
                    x = mul(x, powi(a, e)) if e > 0 else div(x, powi(a, -e))
                r = x if r is None else add(r, x)
        elif t.op in ('num', 'var', 'str', 'bool'):
            r = t
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t.id] = r
        return r
    return go(t)

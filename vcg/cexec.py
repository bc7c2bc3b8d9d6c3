"""Symbolic execution of C++ function bodies (clang AST) with unbounded loop rules.

Loops are handled by synthesised inductive invariants: the generic iteration k is
executed symbolically, recurrences of scalars are solved (counters, sums, running
maxima, values overwritten every iteration) and array writes become families indexed
by k, for which disjointness between iterations is an obligation.  Constant-trip loops
are unrolled completely."""
import re
from itertools import permutations
from .terms import *
from .prover import Prover, assume, flat
from .cfront import qt


class Unsupported(Exception):
    pass


class Ptr:
    def __init__(self, region, off):
        self.region, self.off = region, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.region, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.region == self.region and canon(o.off) is canon(self.off)
    __hash__ = None


class Ref:          # pointer / reference to an lvalue
    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ref) and o.lv == self.lv
    __hash__ = None


class Obj:          # struct (or pointer to struct)
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Obj) and o.name == self.name
    __hash__ = None


class Opaque:       # ghost values (PyObject*, strings, streams)
    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def __eq__(self, o):
        return isinstance(o, Opaque) and (o.kind, o.data) == (self.kind, self.data)
    __hash__ = None

    def __repr__(self):
        return 'Opaque(%s,%r)' % (self.kind, self.data)


NULL = Opaque('NULL')


class Lam:           # lambda expression: operator() and the values captured by copy
    def __init__(self, f, copies):
        self.f, self.copies = f, copies


class CList:         # local array of pointers, texts or records (elements are values or record objects)
    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, CList) and o.items == self.items

    def __hash__(self):
        return hash(self.items)


class Write:
    __slots__ = ('idx', 'val', 'guard', 'binders', 'barrier')

    def __init__(self, idx, val, guard=TRUE, binders=(), barrier=None):
        self.idx, self.val, self.guard, self.binders, self.barrier = idx, val, guard, tuple(binders), barrier

    def map(self, f):
        return Write(f(self.idx), f(self.val) if isinstance(self.val, T) else self.val, f(self.guard),
                     [(b, f(h)) for b, h in self.binders])


class Region:
    def __init__(self, name, size, sort='R', kind='ext', dims=None):
        self.name, self.size, self.sort, self.kind, self.dims = name, size, sort, kind, dims


class State:
    def __init__(self):
        self.env, self.fields, self.writes, self.pc = {}, {}, {}, ()

    def copy(self):
        s = State()
        s.env, s.fields, s.writes, s.pc = dict(self.env), dict(self.fields), dict(self.writes), self.pc
        return s


class Obligation:
    def __init__(self, name, facts, goal):
        self.name, self.facts, self.goal = name, facts, goal


class CExec:
    def __init__(self, prog, prover=None, contracts=None, ghost=None):
        self.prog = prog
        self.pr = prover or Prover()
        self.contracts = contracts or {}
        self.ghost = ghost
        self.regions = {}
        self.obls = []
        self.quiet = 0
        self.depth = 0
        self.warn = []
        self.unmodelled = set()
        self.loops = 0
        self.inlined = set()
        self.nlocal = 0
        self.visited = set()
        self.modcache = {}
        self.records = {}

    # -- obligations ---------------------------------------------------
    def oblige(self, name, st, goal):
        if self.quiet:
            return
        self.obls.append(Obligation(name, st.pc, goal))

    def decide(self, st, c):
        c = cbool(c)
        if c.op == 'bool':
            return c.args[0]
        facts = list(st.pc)
        nl = all_int(c)
        if self.pr.smt(flat(facts), c, nl, 2.0).ok:
            return True
        if self.pr.smt(flat(facts), not_(c), nl, 2.0).ok:
            return False
        return None

    # -- memory --------------------------------------------------------
    def region(self, name, size, sort='R', kind='ext', dims=None):
        self.regions[name] = Region(name, size, sort, kind, dims)
        return Ptr(name, ZERO)

    def check_bounds(self, st, r, idx, what):
        reg = self.regions[r]
        if reg.size is None or self.quiet:
            return
        key = (r, canon(idx).id, tuple(f.id for f in st.pc))
        if key in self.visited:
            return
        self.visited.add(key)
        g = cbool(and_(le(ZERO, idx), lt(idx, reg.size)))
        if g is TRUE:
            return
        self.obls.append(Obligation('bounds:%s[%s]' % (r, what), st.pc, g))

    def read(self, st, r, idx, check=True):
        reg = self.regions[r]
        idx = canon(idx)
        if check:
            self.check_bounds(st, r, idx, 'read')
        return self._read(st, reg, idx, st.writes.get(r, ()), len(st.writes.get(r, ())))

    def _read(self, st, reg, idx, ws, n):
        for i in range(n - 1, -1, -1):
            w = ws[i]
            if w.barrier is not None:
                # checked against the writes of earlier iterations once those are known
                w.barrier.pending.append((reg.name, idx, st.pc))
                continue
            if not w.binders:
                d = p_add(nf(idx), nf(w.idx), -1)
                if not d:
                    if w.guard is TRUE:
                        return w.val
                    return ite(w.guard, w.val, self._read(st, reg, idx, ws, i))
                if len(d) == 1 and () in d:
                    continue
                dec = self.decide(st, eq(idx, w.idx))
                if dec is False:
                    continue
                if dec is True and w.guard is TRUE:
                    return w.val
                return ite(and_(w.guard, eq(idx, w.idx)), w.val, self._read(st, reg, idx, ws, i))
            # family
            th = self.unify(st, w, idx)
            if th is not None:
                rng = TRUE
                for b, h in w.binders:
                    v = th[b]
                    rng = and_(rng, le(ZERO, v), lt(v, subst(h, th)))
                g = and_(rng, subst(w.guard, th))
                dec = self.decide(st, g)
                if dec is True:
                    return subst(w.val, th)
                if dec is False:
                    continue
                if self.injective_value(w):
                    return ite(g, subst(w.val, th), self._read(st, reg, idx, ws, i))
                self.oblige('read of %s hits a family only conditionally' % reg.name, st, FALSE)
                return fresh('havoc_' + reg.name, reg.sort)
            if self.disjoint(st, idx, w):
                continue
            self.oblige('read of %s: cannot relate index %s to writes' % (reg.name, show(idx, 120)), st, FALSE)
            return fresh('havoc_' + reg.name, reg.sort)
        if reg.kind == 'local':
            self.oblige('read of uninitialised local array %s' % reg.name, st, FALSE)
            return fresh('uninit_' + reg.name, reg.sort)
        if reg.kind == 'zero':
            return num(0, reg.sort)
        return fn(reg.name, idx, sort=reg.sort)

    def injective_value(self, w):
        return True

    def unify(self, st, w, idx):
        bs = [b for b, _ in w.binders]
        if not (fv(w.idx) & {b.id for b in bs}):
            return None
        cands = [byid(i) for i in sorted(fv(idx)) if byid(i).sort == 'I']
        target = nf(idx)

        def match(th):
            return p_is_zero(p_add(nf(subst(w.idx, th)), target, -1))
        if len(cands) >= len(bs):
            for perm in permutations(cands, len(bs)):
                th = dict(zip(bs, perm))
                if match(th):
                    return th
        # constants / linear solve for one binder, others taken from the candidates
        for i, b in enumerate(bs):
            others = [x for x in bs if x is not b]
            for perm in permutations(cands + [ZERO], len(others)) if others else [()]:
                th = dict(zip(others, perm))
                e = subst(w.idx, th) if th else w.idx
                p = nf(e)
                coef, rest, ok = {}, {}, True
                for m, c in p.items():
                    d = dict(m)
                    k = d.pop(b.id, 0)
                    if any(b.id in fv(byid(a)) for a in d):
                        ok = False
                        break
                    if k == 0:
                        rest[m] = c
                    elif k == 1:
                        coef[tuple(sorted(d.items()))] = c
                    else:
                        ok = False
                        break
                if not ok or not coef or len(coef) > 1 or () not in coef:
                    continue
                v = p_scale(p_add(target, rest, -1), 1 / coef[()])
                if any(c.denominator != 1 for c in v.values()):
                    continue
                th[b] = canon_poly(v, 'I')
                # the solution must not be nonsense (range must be possible)
                h = dict(w.binders)
                if self.decide(st, and_(*[and_(le(ZERO, th[x]), lt(th[x], subst(hh, th))) for x, hh in w.binders])) is not True:
                    continue
                return th
        return None

    def disjoint(self, st, idx, w, prior=None):
        """no instance of family w (restricted to earlier iterations if prior) has index idx"""
        ren = {b: fresh(b.args[0].split('!')[0], 'I') for b, _ in w.binders}
        facts = list(st.pc)
        pairs = []
        for b, h in w.binders:
            v = ren[b]
            facts += [le(ZERO, v), lt(v, subst(h, ren))]
            pairs.append((b, v))
        g = subst(w.guard, ren)
        if g is not TRUE:
            facts.append(g)
        if prior is not None:
            facts.append(lt(ren[prior.k], prior.k))
        i2 = subst(w.idx, ren)
        return self.prove_ne(facts, idx, i2, [(b, v) for b, v in pairs if b.id in fv(idx)])

    def prove_ne(self, facts, a, b, pairs):
        d = nf(sub(a, b))
        if len(d) == 1 and () in d:
            return True
        if not d:
            return not self.pr.feasible(facts)
        # modulus argument: all coefficients integer with a common factor not dividing the constant
        import math
        c0 = d.get((), 0)
        g = 0
        for m, c in d.items():
            if m != ():
                if c.denominator != 1 or not all(byid(x).sort == 'I' and e > 0 for x, e in m):
                    g = 1
                    break
                g = math.gcd(g, int(c))
        if g > 1 and c0.denominator == 1 if isinstance(c0, Fraction) else (g > 1):
            if int(c0) % g != 0:
                return True
            if g > 1:
                a, b = canon_poly(p_scale(d, Fraction(1, g)), 'I'), ZERO
        goal = ne(a, b)
        if self.pr.smt(flat(facts), goal, True, 3.0).ok:
            return True
        # trichotomy over the pairs of corresponding binders
        for x, y in pairs:
            ok = True
            for f in (lt(x, y), lt(y, x), eq(x, y)):
                fs = facts + [f]
                if not self.pr.feasible(fs):
                    continue
                rest = [p for p in pairs if p[0] is not x]
                if f.op == '==':
                    m = {y: x}
                    if self.prove_ne([subst(q, m) for q in fs if q is not f], subst(a, m), subst(b, m), rest):
                        continue
                    ok = False
                    break
                if self.pr.smt(flat(fs), lt(a, b), True, 3.0).ok or self.pr.smt(flat(fs), lt(b, a), True, 3.0).ok:
                    continue
                if rest and self.prove_ne(fs, a, b, rest):
                    continue
                ok = False
                break
            if ok:
                return True
        return False

    def write(self, st, r, idx, val):
        idx = canon(idx)
        self.check_bounds(st, r, idx, 'write')
        reg = self.regions[r]
        st.writes[r] = st.writes.get(r, ()) + (Write(idx, val),)

    # -- lvalues -------------------------------------------------------
    def load(self, st, lv):
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1])
            if v is None:
                return self.global_const(lv)
            if isinstance(v, Ref) and v.lv[0] != 'ptr' and getattr(v, 'alias', False):
                return self.load(st, v.lv)
            return v
        if k == 'field':
            key = (lv[1], lv[2])
            if key not in st.fields:
                if self.ghost is not None:
                    v = self.ghost.field(self, st, lv[1], lv[2])
                    if v is not None:
                        return v
                self.oblige('read of uninitialised field %s.%s' % key, st, FALSE)
                st.fields[key] = fresh('uninit_%s_%s' % key)
            return st.fields[key]
        if k == 'cell':
            return self.read(st, lv[1], lv[2])
        if k in ('elem', 'obj'):
            return lv[1]
        if k == 'cond':
            a, b = self.load(st, lv[2]), self.load(st, lv[3])
            if isinstance(a, T) and isinstance(b, T):
                return ite(lv[1], a, b)
        raise Unsupported('load ' + str(k))

    def store(self, st, lv, v):
        k = lv[0]
        if k == 'var':
            old = st.env.get(lv[1])
            if isinstance(old, Ref) and getattr(old, 'alias', False):
                return self.store(st, old.lv, v)
            st.env[lv[1]] = v
        elif k == 'field':
            st.fields[(lv[1], lv[2])] = v
        elif k == 'cell':
            self.write(st, lv[1], lv[2], v)
        else:
            raise Unsupported('store ' + str(k))

    def global_const(self, lv):
        d = lv[2]
        name = d.get('name')
        o = self.prog.constant(name)
        if o is None:
            raise Unsupported('unknown variable %s' % name)
        init = [c for c in o['inner'] if 'Comment' not in c['kind']][0]
        return self.ev(State(), init)

    def lval(self, st, n):
        k = n['kind']
        if k in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CStyleCastExpr'):
            return self.lval(st, n['inner'][0])
        if k == 'DeclRefExpr':
            return ('var', n['referencedDecl']['id'], n['referencedDecl'])
        if k == 'MemberExpr':
            o = self.ev(st, n['inner'][0])
            if isinstance(o, Ref):
                o = self.load(st, o.lv)
            if isinstance(o, Opaque):
                return ('ghost', o, n['name'])
            if isinstance(o, CList) and n.get('isArrow'):
                o = self._elem(o, ZERO)
            if not isinstance(o, Obj):
                raise Unsupported('member of %r' % (o,))
            return ('field', o.name, n['name'])
        if k == 'ArraySubscriptExpr':
            base = self.ev(st, n['inner'][0])
            i = self.ev(st, n['inner'][1])
            if isinstance(base, CList):
                return ('elem', self._elem(base, i))
            if isinstance(base, Ptr):
                dims = base.dims if hasattr(base, 'dims') else None
                return ('cell', base.region, canon(add(base.off, mul(i, base.stride if hasattr(base, 'stride') else ONE))))
            raise Unsupported('subscript of %r' % (base,))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(st, n['inner'][0])
            if isinstance(p, Ptr):
                return ('cell', p.region, p.off)
            if isinstance(p, Ref):
                return p.lv
            if isinstance(p, Obj):
                return ('obj', p)
            raise Unsupported('deref %r' % (p,))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') or k in ('CompoundAssignOperator',) or (k == 'BinaryOperator' and n['opcode'] == '='):
            self.ev(st, n)
            return self.lval(st, n['inner'][0])
        if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'InitListExpr', 'CXXBindTemporaryExpr', 'CXXTemporaryObjectExpr'):
            v = self.ev(st, n)
            if isinstance(v, Ref):
                return v.lv
            if isinstance(v, (T, Obj)):
                return ('elem', v)
        if k == 'ConditionalOperator':
            c = self.truth(self.ev(st, n['inner'][0]))
            d = self.decide(st, c)
            if d is not None:
                return self.lval(st, n['inner'][1 if d else 2])
            return ('cond', c, self.lval(st, n['inner'][1]), self.lval(st, n['inner'][2]))
        raise Unsupported('lvalue ' + k)

    # -- expressions ---------------------------------------------------
    def ev(self, st, n):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(st, n)

    def ev_ParenExpr(self, st, n): return self.ev(st, n['inner'][0])
    ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_ConstantExpr = ev_CXXBindTemporaryExpr = ev_ParenExpr

    def ev_IntegerLiteral(self, st, n): return num(int(n['value']))

    def ev_FloatingLiteral(self, st, n):
        return num(float(n['value']))

    def ev_CXXBoolLiteralExpr(self, st, n): return boolc(n['value'])

    def ev_StringLiteral(self, st, n):
        import ast
        return Opaque('str', ast.literal_eval(n['value']) if n['value'].startswith('"') else n['value'])

    def ev_CXXNullPtrLiteralExpr(self, st, n): return NULL
    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        sub_ = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lval(st, sub_)
            if lv[0] == 'ghost':
                return self.ghost.member(self, st, lv[1], lv[2])
            if lv[0] == 'obj':
                return lv[1]
            return self.load(st, lv)
        if ck == 'ArrayToPointerDecay':
            if sub_['kind'] == 'StringLiteral':
                return self.ev(st, sub_)
            return self.array(st, sub_)
        if ck in ('FunctionToPointerDecay',):
            return self.ev(st, sub_)
        if ck in ('NullToPointer',):
            return NULL
        v = self.ev(st, sub_)
        if ck == 'FloatingToIntegral' and isinstance(v, T) and v.sort == 'R':
            return floor(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean') and isinstance(v, T):
            return v if v.sort == 'B' else ne(v, ZERO)
        if ck == 'PointerToBoolean':
            return FALSE if v == NULL else TRUE
        if ck == 'IntegralCast' and isinstance(v, T) and v.sort == 'B':
            return ite(v, ONE, ZERO)
        if ck == 'IntegralToFloating' and isinstance(v, T) and v.sort == 'B':
            return ite(v, ONE, ZERO)
        return v

    def ev_CStyleCastExpr(self, st, n):
        return self.ev_ImplicitCastExpr(st, n)
    ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_CStyleCastExpr

    def _elem(self, base, i):
        i = canon(i) if isinstance(i, T) else i
        if not isinstance(i, T) or i.op != 'num' or not 0 <= int(i.args[0]) < len(base.items):
            raise Unsupported('element of an array of pointers')
        return base.items[int(i.args[0])]

    def record(self, t):
        """names and types of the fields of a record type"""
        if '(unnamed' in t or '(anonymous' in t:
            t = ''              # the one declared last
        t = re.sub(r'\b(const|struct|class)\b', '', t).replace('*', '').replace('&', '').strip()
        if t not in self.records:
            d = self.prog.record(t)
            if d is None:
                raise Unsupported('record %s' % t)
            self.records[t] = d
        return self.records[t]

    def aggregate(self, st, n):
        """value of a braced initialiser"""
        while n['kind'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr') and len(n.get('inner', [])) == 1 and n['inner'][0]['kind'] in ('InitListExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXConstructExpr'):
            n = n['inner'][0]
        if n['kind'] != 'InitListExpr':
            return self.ev(st, n)
        t = qt(n)
        inner = n.get('inner', [])
        if t.endswith(']'):
            return CList([self.aggregate(st, c) for c in inner])
        if t in ('double', 'float', 'int', 'long', 'bool') or t.endswith('*'):
            return self.ev(st, inner[0])
        fields = self.record(t)
        if len(inner) == 1 and self.is_record(qt(inner[0])) and len(fields) and not self.is_record(fields[0][1]):
            return self.ev(st, inner[0])
        o = self.new_record()
        for i, (f, ft, dflt) in enumerate(fields):
            if i < len(inner) and inner[i]['kind'] != 'CXXDefaultInitExpr':
                st.fields[(o.name, f)] = self.aggregate(st, inner[i])
            elif dflt is not None:
                st.fields[(o.name, f)] = self.ev(st, dflt)
            else:
                st.fields[(o.name, f)] = NULL if ft.endswith('*') else ZERO
        return o

    KNOWN = ('latticestruct', 'infostruct', 'statestruct', 'refstruct', 'resultstruct')

    def is_record(self, t):
        t = re.sub(r'\b(const|struct|class)\b', '', t).strip().rstrip('&').strip()
        if not re.match(r'^[A-Za-z_]\w*$', t) or t in self.KNOWN or t in ('double', 'float', 'int', 'long', 'bool', 'char', 'void', 'size_t', 'auto', 'PyObject', 'PyArrayObject'):
            return False
        try:
            self.record(t)
            return True
        except Unsupported:
            return False

    def new_record(self):
        self.nlocal += 1
        return Obj('rec#%d' % self.nlocal)

    def copy_record(self, st, o):
        r = self.new_record()
        for (a, f), v in list(st.fields.items()):
            if a == o.name:
                st.fields[(r.name, f)] = self.copy_record(st, v) if isinstance(v, Obj) and v.name.startswith('rec#') else v
        return r

    def array(self, st, n):
        """array lvalue -> pointer to its first element"""
        if n['kind'] in ('ParenExpr',):
            return self.array(st, n['inner'][0])
        if n['kind'] == 'DeclRefExpr':
            v = st.env.get(n['referencedDecl']['id'])
            if v is None:
                lv = ('var', n['referencedDecl']['id'], n['referencedDecl'])
                v = self.global_const(lv)
            return self._decay(v)
        if n['kind'] == 'ArraySubscriptExpr':   # row of a 2-d array
            base = self.ev(st, n['inner'][0])
            i = self.ev(st, n['inner'][1])
            p = Ptr(base.region, canon(add(base.off, mul(i, getattr(base, 'stride', ONE)))))
            dims = getattr(base, 'dims', ())
            return self._mkptr(p.region, p.off, dims[1:])
        if n['kind'] == 'MemberExpr':
            return self.load(st, self.lval(st, n))
        raise Unsupported('array ' + n['kind'])

    def _mkptr(self, region, off, dims):
        p = Ptr(region, off)
        if dims and len(dims) > 1:
            s = 1
            for d in dims[1:]:
                s *= d
            p.stride = num(s)
            p.dims = dims
        return p

    def _decay(self, v):
        if isinstance(v, Ptr):
            dims = getattr(v, 'adims', None)
            return self._mkptr(v.region, v.off, dims)
        return v

    def ev_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return Opaque('func', d['name'])
        if d['kind'] == 'EnumConstantDecl':
            if self.ghost is not None:
                return self.ghost.enum(d['name'])
            raise Unsupported('enum')
        return self.load(st, ('var', d['id'], d))

    def ev_MemberExpr(self, st, n):
        lv = self.lval(st, n)
        if lv[0] == 'ghost':
            return self.ghost.member(self, st, lv[1], lv[2])
        return self.load(st, lv)

    def ev_ArraySubscriptExpr(self, st, n):
        return self.load(st, self.lval(st, n))

    def ev_UnaryOperator(self, st, n):
        op = n['opcode']
        s = n['inner'][0]
        if op in ('++', '--'):
            lv = self.lval(st, s)
            old = self.load(st, lv)
            if isinstance(old, Ptr):
                new = self._mkptr(old.region, canon(add(old.off, num(1 if op == '++' else -1))), None)
            else:
                new = add(old, num(1 if op == '++' else -1))
            self.store(st, lv, new)
            return old if n.get('isPostfix') else new
        if op == '&':
            lv = self.lval(st, s)
            if lv[0] == 'cell':
                return Ptr(lv[1], lv[2])
            if lv[0] == 'ghost':
                return Opaque('addr', lv[1], lv[2])
            if lv[0] == 'var':
                v = st.env.get(lv[1])
                if isinstance(v, Obj):
                    return v
                if isinstance(v, Ref) and getattr(v, 'alias', False):
                    return Ref(v.lv)
                if v is None and lv[2]['kind'] == 'VarDecl' and lv[1] not in st.env:
                    return Opaque('global', lv[2].get('name'))
            if lv[0] == 'obj':
                return lv[1]
            return Ref(lv)
        if op == '*':
            lv = self.lval(st, n)
            return lv[1] if lv[0] == 'obj' else self.load(st, lv)
        v = self.ev(st, s)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(self.truth(v))
        raise Unsupported('unary ' + op)

    def truth(self, v):
        if isinstance(v, T):
            return v if v.sort == 'B' else ne(v, ZERO)
        if v == NULL:
            return FALSE
        return TRUE

    def ev_ConditionalOperator(self, st, n):
        c = self.truth(self.ev(st, n['inner'][0]))
        d = self.decide(st, c)
        if d is not None:
            return self.ev(st, n['inner'][1 if d else 2])
        a = self.ev(st, n['inner'][1])
        b = self.ev(st, n['inner'][2])
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if a == b:
            return a
        raise Unsupported('conditional on non-scalars')

    def ev_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.ev(st, b)
            lv = self.lval(st, a)
            self.store(st, lv, v)
            return v
        if op == ',':
            self.ev(st, a)
            return self.ev(st, b)
        if op in ('&&', '||'):
            x = self.truth(self.ev(st, a))
            if (op == '&&' and x is FALSE) or (op == '||' and x is TRUE):
                return x
            s2 = st
            y = self.truth(self.ev(st, b))
            return and_(x, y) if op == '&&' else or_(x, y)
        x, y = self.ev(st, a), self.ev(st, b)
        return self.binop(st, op, x, y, n)

    def binop(self, st, op, x, y, n):
        if isinstance(x, Ptr) and isinstance(y, T) and op in ('+', '-'):
            return Ptr(x.region, canon(add(x.off, mul(y, getattr(x, 'stride', ONE))) if op == '+' else sub(x.off, y)))
        if isinstance(y, Ptr) and isinstance(x, T) and op == '+':
            return Ptr(y.region, canon(add(y.off, x)))
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == 'B' and op not in ('==', '!='):
                x = ite(x, ONE, ZERO)
            if y.sort == 'B' and op not in ('==', '!='):
                y = ite(y, ONE, ZERO)
            if x.sort == 'B' and y.sort != 'B':
                x = ite(x, ONE, ZERO)
            if y.sort == 'B' and x.sort != 'B':
                y = ite(y, ONE, ZERO)
            if op == '+':
                return add(x, y)
            if op == '-':
                return sub(x, y)
            if op == '*':
                return mul(x, y)
            if op == '/':
                t = qt(n) if n is not None else 'double'
                if 'double' not in t and 'float' not in t:
                    return idiv(x, y)
                return div(x, y)
            if op == '%':
                return imod(x, y)
            if op == '<<' and y.op == 'num':
                return mul(x, num(2 ** int(y.args[0])))
            if op == '<':
                return lt(x, y)
            if op == '<=':
                return le(x, y)
            if op == '>':
                return gt(x, y)
            if op == '>=':
                return ge(x, y)
            if op == '==':
                return eq(x, y)
            if op == '!=':
                return ne(x, y)
        if op in ('==', '!='):
            e = boolc(x == y)
            return e if op == '==' else not_(e)
        raise Unsupported('binary %s on %r, %r' % (op, x, y))

    def ev_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        v = self.ev(st, n['inner'][1])
        lv = self.lval(st, n['inner'][0])
        old = self.load(st, lv)
        fake = {'type': {'qualType': n.get('computeResultType', n.get('type', {})).get('qualType', 'double')}}
        new = self.binop(st, op, old, v, fake)
        if isinstance(new, T) and isinstance(old, T) and old.sort == 'I' and new.sort == 'R':
            new = floor(new)
        self.store(st, lv, new)
        return new

    def ev_CXXOperatorCallExpr(self, st, n):
        # stream output has no effect on the state we reason about
        name = self._callee_name(n['inner'][0])
        if name in ('operator<<',):
            return Opaque('stream')
        if name == 'operator()':
            lam = self.ev(st, n['inner'][1])
            if isinstance(lam, Lam):
                return self.call_lambda(st, lam, n['inner'][2:])
        if name == 'operator=':
            v = self.ev(st, n['inner'][2])
            lv = self.lval(st, n['inner'][1])
            if isinstance(v, Obj) and v.name.startswith('rec#'):
                old = self.load(st, lv)
                if isinstance(old, Obj) and old.name.startswith('rec#'):
                    for (a, f), x in list(st.fields.items()):
                        if a == v.name:
                            st.fields[(old.name, f)] = self.copy_record(st, x) if isinstance(x, Obj) else x
                    return old
        elif name:
            f = self.prog.function(name)
            ps_ = [p for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl'] if f else []
            if f and len(ps_) == len(n['inner']) - 1 and self.prog.overloads(name) == 1:
                return self.inline(st, f, n['inner'][1:])
        raise Unsupported('operator call %s' % name)

    def ev_CXXMemberCallExpr(self, st, n):
        raise Unsupported('member call')

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        t = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType') or (qt(n['inner'][0]) if n.get('inner') else '')
        return num(self.sizeof(t))

    def sizeof(self, t):
        t = t.replace('const ', '').strip()
        m = re.match(r'^(.*?)\s*\[(\d+)\](.*)$', t)
        if m:
            return int(m.group(2)) * self.sizeof(m.group(1) + m.group(3))
        if t.endswith('*'):
            return 8
        if t in ('int', 'float', 'unsigned int'):
            return 4
        if t in ('char', 'bool', 'unsigned char', 'signed char'):
            return 1
        if t in ('double', 'long', 'unsigned long', 'size_t', 'long long', 'unsigned long long'):
            return 8
        off = 0
        for f, ft, _ in self.record(t):
            k = self.sizeof(ft)
            off = -(-off // min(k, 8)) * min(k, 8) + k
        return -(-off // 8) * 8 if off > 4 else off

    def ev_InitListExpr(self, st, n):
        t = qt(n)
        if not t.endswith(']') and (self.is_record(t) or t in ('double', 'float', 'int', 'long', 'bool') and n.get('inner')):
            return self.aggregate(st, n)
        return [self.ev(st, c) for c in n.get('inner', [])]

    def ev_ImplicitValueInitExpr(self, st, n):
        return ZERO

    def ev_CXXConstructExpr(self, st, n):
        inner = n.get('inner', [])
        if len(inner) == 1:
            v = self.ev(st, inner[0])
            if isinstance(v, Obj) and v.name.startswith('rec#'):
                return self.copy_record(st, v)
            return v
        raise Unsupported('constructor')
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_LambdaExpr(self, st, n):
        rec = n['inner'][0]
        ops = [c for c in rec.get('inner', []) if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()']
        if rec['kind'] != 'CXXRecordDecl' or len(ops) != 1:
            raise Unsupported('generic lambda')
        caps = [c for c in rec['inner'] if c['kind'] == 'FieldDecl']
        copies = {}
        for fd, c in zip(caps, n['inner'][1:]):
            if qt(fd).rstrip().endswith('&'):
                continue
            x = c
            while x['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr') and x.get('inner'):
                x = x['inner'][0]
            v = self.ev(st, c)
            if x['kind'] == 'DeclRefExpr':
                copies[x['referencedDecl']['id']] = v
            elif x['kind'] != 'CXXThisExpr':
                raise Unsupported('capture')
        return Lam(ops[0], copies)

    def call_lambda(self, st, lam, args_n):
        over = {i: st.env.get(i) for i in lam.copies}
        params = [p for p in lam.f.get('inner', []) if p['kind'] == 'ParmVarDecl']
        self.depth += 1
        vals = self.arguments(st, params, args_n)
        st.env.update(lam.copies)
        try:
            return self.run_body(st, lam.f, params, vals)
        finally:
            for i, v in over.items():
                if v is None:
                    st.env.pop(i, None)
                else:
                    st.env[i] = v

    def _callee_name(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl'].get('name')
        return None

    def ev_CallExpr(self, st, n):
        name = self._callee_name(n['inner'][0])
        args_n = n['inner'][1:]
        if self.ghost is not None:
            r = self.ghost.call(self, st, name, args_n, n)
            if r is not None:
                return r
        if name in MATH and all('double' in qt(a) or 'float' in qt(a) or 'int' in qt(a) or 'long' in qt(a) for a in args_n):
            return MATH[name](*[self.ev(st, a) for a in args_n])
        if name in ('max', 'fmax', 'min', 'fmin'):
            a, b = [self.ev(st, x) for x in args_n]
            if isinstance(a, T) and isinstance(b, T):
                return ite(lt(a, b), b, a) if 'max' in name else ite(lt(b, a), b, a)
        if name in self.contracts:
            args = [self.ev(st, a) for a in args_n]
            return self.contracts[name](self, st, args)
        f = self.prog.function(name) if name else None
        if f is None:
            raise Unsupported('call of unknown function %s' % name)
        return self.inline(st, f, args_n)

    def inline(self, st, f, args_n):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('call depth')
        params = [p for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl']
        vals = self.arguments(st, params, args_n)
        self.inlined.add(f['name'])
        return self.run_body(st, f, params, vals)

    def arguments(self, st, params, args_n):
        vals = []
        for p, a in zip(params, args_n):
            t = qt(p)
            if a['kind'] == 'CXXDefaultArgExpr':
                d = [c for c in p.get('inner', []) if 'Comment' not in c['kind'] and 'Attr' not in c['kind']]
                if not d:
                    raise Unsupported('default argument')
                vals.append(self.ev(st, d[0]))
                continue
            if t.rstrip().endswith('&') and 'struct' not in t:
                try:
                    lv = self.lval(st, a)
                    if lv[0] == 'var' and isinstance(st.env.get(lv[1]), Obj):
                        vals.append(st.env[lv[1]])
                        continue
                    if lv[0] == 'var' and st.env.get(lv[1]) is None:
                        raise Unsupported('global by reference')
                    r = Ref(lv)
                    if lv[0] == 'var' and isinstance(st.env.get(lv[1]), Ref) and getattr(st.env[lv[1]], 'alias', False):
                        r = Ref(st.env[lv[1]].lv)
                    if lv[0] == 'var' and isinstance(st.env.get(lv[1]), Ptr) and getattr(st.env[lv[1]], 'adims', None):
                        vals.append(st.env[lv[1]])
                        continue
                    if lv[0] == 'obj':
                        vals.append(lv[1])
                        continue
                    r.alias = True
                    vals.append(r)
                    continue
                except Unsupported:
                    pass
            vals.append(self.ev(st, a))
        return vals

    def run_body(self, st, f, params, vals):
        saved = dict(st.env)
        for p, v in zip(params, vals):
            st.env[p['id']] = v
        body = [c for c in f['inner'] if c['kind'] == 'CompoundStmt'][0]
        outs = self.block(st.copy(), body)
        res = []
        for s, o in outs:
            if o is None:
                res.append((s, None))
            elif o[0] == 'return':
                res.append((s, o[1]))
            else:
                raise Unsupported('outcome ' + str(o[0]))
        self.depth -= 1
        s, v = self.merge_returns(st, res)
        # variables declared outside may have been changed through references
        st.env = {k: s.env[k] if k in s.env else x for k, x in saved.items()}
        st.fields, st.writes, st.pc = s.fields, s.writes, s.pc
        return v

    def merge_returns(self, st0, res):
        if len(res) == 1:
            return res[0]
        base = len(st0.pc)
        s, v = res[-1]
        for s2, v2 in reversed(res[:-1]):
            c = and_(*s2.pc[base:])
            s = self.merge(s2, s, c, st0.pc)
            if v is None and v2 is None:
                v = None
            elif isinstance(v, T) and isinstance(v2, T):
                v = ite(c, v2, v)
            elif v == v2:
                pass
            elif isinstance(v, Obj) and isinstance(v2, Obj) and v.name.startswith('rec#') and v2.name.startswith('rec#'):
                v = self.merge_records(s, s2, c, v2, v)
            else:
                raise Unsupported('merge of return values')
        return s, v

    def merge_records(self, s, s2, c, a, b):
        o = self.new_record()
        for (n_, f), x in list(s2.fields.items()):
            if n_ == a.name:
                y = s.fields.get((b.name, f))
                if not isinstance(x, T) or not isinstance(y, T):
                    raise Unsupported('merge of records')
                s.fields[(o.name, f)] = ite(c, x, y)
        return o

    def merge(self, a, b, c, pc):
        r = State()
        r.pc = pc
        for attr in ('env', 'fields'):
            x, y, z = getattr(a, attr), getattr(b, attr), getattr(r, attr)
            for k in x:
                if k in y:
                    if x[k] is y[k]:
                        z[k] = x[k]
                    elif isinstance(x[k], T) and isinstance(y[k], T):
                        z[k] = ite(c, x[k], y[k])
                    elif isinstance(x[k], type(y[k])) and x[k] == y[k]:
                        z[k] = x[k]
                    elif isinstance(x[k], Ptr) and isinstance(y[k], Ptr) and x[k].region == y[k].region:
                        z[k] = Ptr(x[k].region, ite(c, x[k].off, y[k].off))
                    else:
                        z[k] = Opaque('undefined-merge')
            if attr == 'fields':
                for src, other in ((x, y), (y, x)):
                    for k in src:
                        if k not in other and str(k[0]).startswith('rec#'):
                            z[k] = src[k]       # records made on one side only
        for k in set(a.writes) | set(b.writes):
            x, y = a.writes.get(k, ()), b.writes.get(k, ())
            n = 0
            while n < len(x) and n < len(y) and x[n] is y[n]:
                n += 1
            out = list(x[:n])
            xs, ys = list(x[n:]), list(y[n:])
            # pair up writes of the same cell
            while xs and ys and not xs[0].binders and not ys[0].binders and xs[0].idx is ys[0].idx and xs[0].guard is TRUE and ys[0].guard is TRUE \
                    and isinstance(xs[0].val, T) and isinstance(ys[0].val, T):
                out.append(Write(xs[0].idx, ite(c, xs[0].val, ys[0].val)))
                xs.pop(0)
                ys.pop(0)
            for w in xs:
                out.append(Write(w.idx, w.val, and_(c, w.guard), w.binders, w.barrier))
            for w in ys:
                out.append(Write(w.idx, w.val, and_(not_(c), w.guard), w.binders, w.barrier))
            r.writes[k] = tuple(out)
        return r

    # -- statements ----------------------------------------------------
    def block(self, st, n):
        outs = [(st, None)]
        for c in n.get('inner', []):
            nxt = []
            live = [s for s, o in outs if o is None]
            nxt = [(s, o) for s, o in outs if o is not None]
            for s in live:
                nxt += self.stmt(s, c)
            outs = nxt
        return outs

    def stmt(self, st, n):
        k = n['kind']
        if k == 'CompoundStmt':
            return self.block(st, n)
        if k == 'DeclStmt':
            for d in n['inner']:
                if d['kind'] == 'VarDecl':
                    self.decl(st, d)
                elif d['kind'] == 'CXXRecordDecl':
                    self.records[d.get('name', '')] = fields_of(d)
            return [(st, None)]
        if k == 'IfStmt':
            return self.if_(st, n)
        if k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            return self.loop(st, init, cond, inc, body)
        if k == 'CXXForRangeStmt':
            return self.for_range(st, n)
        if k == 'WhileStmt':
            return self.loop(st, {}, n['inner'][0], {}, n['inner'][1])
        if k == 'ReturnStmt':
            v = self.ev(st, n['inner'][0]) if n.get('inner') else None
            return [(st, ('return', v))]
        if k == 'BreakStmt':
            return [(st, ('break',))]
        if k == 'ContinueStmt':
            return [(st, ('continue',))]
        if k == 'NullStmt':
            return [(st, None)]
        if k == 'DoStmt' and self._false_const(n['inner'][1]):
            return self.stmt(st, n['inner'][0])    # do { ... } while (0) macros
        self.ev(st, n)
        return [(st, None)]

    def _false_const(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        return n['kind'] == 'IntegerLiteral' and n['value'] == '0' or n['kind'] == 'CXXBoolLiteralExpr' and not n['value']

    def decl(self, st, d):
        t = qt(d)
        m = re.match(r'^(?:const )?([\w: ]+?)((?:\[\d+\])+)$', t)
        if m and not re.match(r'^(const |unsigned |signed )*(double|float|int|long|size_t|bool|short|char|long int|long long)\b', t):
            m = None
        init = [c for c in d.get('inner', []) if 'Comment' not in c['kind'] and 'Attr' not in c['kind']]
        if m:
            dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]
            size = 1
            for x in dims:
                size *= x
            self.nlocal += 1
            name = 'loc%d_%s' % (self.nlocal, d['name'])
            self.regions[name] = Region(name, num(size), 'I' if 'int' in m.group(1) or 'long' in m.group(1) else 'R', 'local', dims)
            p = Ptr(name, ZERO)
            p.adims = dims
            st.env[d['id']] = p
            if init:
                vals = self.ev(st, init[0])

                def put(vals, off, dims):
                    step = 1
                    for x in dims[1:]:
                        step *= x
                    for i in range(dims[0]):
                        v = vals[i] if i < len(vals) else None
                        if len(dims) > 1:
                            put(v or [], off + i * step, dims[1:])
                        else:
                            st.writes[name] = st.writes.get(name, ()) + (Write(num(off + i), v if v is not None else num(0)),)
                put(vals if isinstance(vals, list) else [], 0, dims)
            return
        if t.rstrip().endswith('&') and init:
            try:
                lv = self.lval(st, init[0])
                if lv[0] == 'obj':
                    st.env[d['id']] = lv[1]
                    return
                if lv[0] == 'var' and isinstance(st.env.get(lv[1]), Obj):
                    st.env[d['id']] = st.env[lv[1]]
                    return
                if lv[0] in ('cell', 'field') or (lv[0] == 'var' and lv[1] in st.env):
                    r = Ref(lv)
                    if lv[0] == 'field' and isinstance(st.fields.get((lv[1], lv[2])), (Obj, Ptr)):
                        st.env[d['id']] = st.fields[(lv[1], lv[2])]
                        return
                    r.alias = True
                    st.env[d['id']] = r
                    return
            except Unsupported:
                pass
        if init and init[0]['kind'] == 'CXXConstructExpr' and not init[0].get('inner'):
            init = []
        if init:
            if t.endswith(']') or init[0]['kind'] == 'InitListExpr':
                st.env[d['id']] = self.aggregate(st, init[0])
                return
            v = self.ev(st, init[0])
            if isinstance(v, T) and v.sort == 'B' and 'bool' not in t:
                v = ite(v, ONE, ZERO)
            if isinstance(v, list):
                o = Obj('local_%s_%s' % (d['name'], d['id']))
                st.env[d['id']] = o
                raise Unsupported('aggregate initialiser')
            st.env[d['id']] = v
        elif t in ('double', 'float', 'int', 'long', 'bool', 'unsigned int', 'size_t', 'unsigned long'):
            st.env[d['id']] = fresh('undef_' + d['name'], 'R' if t in ('double', 'float') else 'I')
        elif self.is_record(t):
            o = st.env[d['id']] = self.new_record()
            for f, ft, dflt in self.record(t):
                if dflt is not None:
                    st.fields[(o.name, f)] = self.ev(st, dflt)
                elif self.is_record(ft) or '[' in ft:
                    raise Unsupported('record with aggregate fields')
        elif 'struct' in t or re.match(r'^\w+$', t):
            if '*' in t:
                st.env[d['id']] = NULL
            else:
                st.env[d['id']] = Obj('%s' % d['name'])
        else:
            st.env[d['id']] = NULL

    def if_(self, st, n):
        inner = list(n['inner'])
        for flag in ('hasInit', 'hasVar'):
            if n.get(flag):
                (st, _), = self.stmt(st, inner.pop(0))
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        c = self.truth(self.ev(st, cond))
        d = self.decide(st, c)
        if d is True:
            return self.stmt(st, then)
        if d is False:
            return self.stmt(st, els) if els else [(st, None)]
        pc = st.pc
        a, b = st.copy(), st.copy()
        a.pc = pc + (c,)
        b.pc = pc + (not_(c),)
        oa = self.stmt(a, then)
        ob = self.stmt(b, els) if els else [(b, None)]
        na = [s for s, o in oa if o is None]
        nb = [s for s, o in ob if o is None]
        rest = [(s, o) for s, o in oa + ob if o is not None]
        if len(na) == 1 and len(nb) == 1:
            pc2 = pc
            return rest + [(self.merge(na[0], nb[0], c, pc2), None)] if not rest else rest + [(x, None) for x in na + nb]
        return rest + [(x, None) for x in na + nb]

    # -- loops ---------------------------------------------------------
    def loop(self, st, init, cond, inc, body):
        self.loops += 1
        if init and init.get('kind'):
            (st, _), = self.stmt(st, init)
        # constant trip count: unroll
        probe = st.copy()
        self.quiet += 1
        try:
            c0 = self.truth(self.ev(probe, cond))
        finally:
            self.quiet -= 1
        if self._constantish(c0):
            r = self.unroll(st, cond, inc, body)
            if r is not None:
                return r
        return self.symbolic_loop(st, cond, inc, body)

    def _constantish(self, c):
        c = cbool(c)
        if c.op == 'bool':
            return True

        def only_ite(t):
            if t.op in ('num', 'bool', 'ite'):
                return True
            if t.op in ('nf', '<', '<=', '==', 'not', 'and', 'or'):
                return all(only_ite(x) for x in children(t))
            return False
        return only_ite(c)

    def unroll(self, st, cond, inc, body, cap=64):
        live, done = [st.copy()], []
        mark, vis = len(self.obls), set(self.visited)
        for _ in range(cap):
            nxt = []
            for s in live:
                c = self.truth(self.ev(s, cond))
                d = self.decide(s, c)
                if d is False:
                    done.append((s, None))
                    continue
                if d is None:
                    del self.obls[mark:]
                    self.visited = vis
                    return None
                for s2, o in self.stmt(s, body):
                    if o == ('break',):
                        done.append((s2, None))
                    elif o in (None, ('continue',)):
                        if inc and inc.get('kind'):
                            self.ev(s2, inc)
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            live = nxt
            if not live:
                return done
            if len(live) + len(done) > 64:
                break
        del self.obls[mark:]
        self.visited = vis
        return None

    def for_range(self, st, n):
        """for (x : local array)"""
        inner = [c for c in n['inner'] if c.get('kind')]
        body, var_ = inner[-1], inner[-2]['inner'][0]
        rng = inner[0]['inner'][0]
        src = [c for c in rng['inner'] if 'Comment' not in c['kind']][0]
        v = self.aggregate(st, src) if src['kind'] != 'DeclRefExpr' else self.load(st, ('var', src['referencedDecl']['id'], src['referencedDecl']))
        ref = qt(var_).rstrip().endswith('&')
        if isinstance(v, Ref):
            v = self.load(st, v.lv)
        if isinstance(v, CList):
            items = list(v.items)
        elif isinstance(v, Ptr) and len(getattr(v, 'adims', ()) or ()) == 1:
            items = [('cell', v.region, canon(add(v.off, num(i)))) for i in range(v.adims[0])]
        else:
            raise Unsupported('range of a for loop')
        live, done = [st.copy()], []
        for x in items:
            nxt = []
            for s in live:
                if isinstance(x, tuple):
                    if ref:
                        r = Ref(x)
                        r.alias = True
                        s.env[var_['id']] = r
                    else:
                        s.env[var_['id']] = self.load(s, x)
                else:
                    s.env[var_['id']] = x
                for s2, o in self.stmt(s, body):
                    if o == ('break',):
                        done.append((s2, None))
                    elif o in (None, ('continue',)):
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            live = nxt
        return done + [(s, None) for s in live]

    def assigned(self, n, acc):
        """variable ids assigned somewhere below n"""
        k = n.get('kind')
        if (k == 'BinaryOperator' and n['opcode'] == '=') or k == 'CompoundAssignOperator' or \
                (k == 'UnaryOperator' and n['opcode'] in ('++', '--')):
            t = n['inner'][0]
            while t['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                t = t['inner'][0]
            if t['kind'] == 'DeclRefExpr':
                acc.add(t['referencedDecl']['id'])
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self.assigned(c, acc)
        return acc

    def symbolic_loop(self, st, cond, inc, body):
        nid = body.get('id') or cond.get('id')
        name = 'k@%s' % nid
        used = {byid(i).args[0] for f in st.pc for i in fv(f)}
        while name in used:
            name += "'"
        k = var(name, 'I')
        acc = set(self.modcache.get(nid, ()))
        for x in (cond, inc, body):
            if x:
                self.assigned(x, acc)
        mods = {('var', i): None for i in acc if not isinstance(i, tuple) and i in st.env}
        mods.update({i: None for i in acc if isinstance(i, tuple) and not (i[0] == 'field' and str(i[1]).startswith('rec#') and i[1:] not in st.fields)})
        for rnd in range(8):
            mark = (len(self.obls), set(self.visited), len(self.warn))
            res = self.generic(st, k, cond, inc, body, mods)
            if res['out'] is not None:
                self.modcache[nid] = {l[1] if l[0] == 'var' else l for l in mods if l[0] != 'cell'}
                return res['out']
            del self.obls[mark[0]:]
            del self.warn[mark[2]:]
            self.visited = mark[1]
            mods = dict(mods)
            mods.update(res['mods'])
        raise Unsupported('loop analysis does not stabilise')

    def get_loc(self, st, loc):
        if loc[0] == 'var':
            v = st.env[loc[1]]
            if isinstance(v, Ref) and getattr(v, 'alias', False):
                return self.load(st, v.lv)
            return v
        if loc[0] == 'field':
            return st.fields.get((loc[1], loc[2]))
        if loc[0] == 'cell':
            return self.read(st, loc[1], byid(loc[2]), check=False)

    def set_loc(self, st, loc, v):
        if loc[0] == 'var':
            st.env[loc[1]] = v
        elif loc[0] == 'field':
            st.fields[(loc[1], loc[2])] = v
        else:
            st.writes[loc[1]] = st.writes.get(loc[1], ()) + (Write(byid(loc[2]), v),)

    def changes(self, st, k, start, post, mods, base, varying=frozenset()):
        """locations changed by the body that do not depend on k, and array writes that do"""
        newmods, newf = dict(mods), {}
        for i in post.env:
            if i in st.env and not same_val(post.env[i], start.env.get(i)):
                newmods.setdefault(('var', i), None)
        for key, v in post.fields.items():
            if str(key[0]).startswith('rec#') and key not in start.fields and not any(k_[0] == key[0] for k_ in start.fields):
                continue      # record local to the body
            if not same_val(v, start.fields.get(key)):
                newmods.setdefault(('field',) + key, None)
        for r, ws in post.writes.items():
            if self.regions[r].kind == 'local' and r.startswith('loc') and r not in start.writes and r not in st.writes:
                continue      # array local to the body
            for w in ws[base.get(r, 0):]:
                dep = fv(w.idx) - {b.id for b, _ in w.binders}
                if not w.binders and k.id not in dep and not (dep & varying):
                    newmods.setdefault(('cell', r, canon(w.idx).id), None)
                elif ('cell', r, w.idx.id) not in mods:
                    newf.setdefault(r, []).append(w)
        return newmods, newf

    def loop_start(self, st, k, mods, values):
        s = st.copy()
        barrier = Barrier(k)
        for r in self.regions:
            s.writes[r] = s.writes.get(r, ()) + (Write(None, None, barrier=barrier),)
        for loc in mods:
            self.set_loc(s, loc, values[loc])
        return s, barrier, {r: len(w) for r, w in s.writes.items()}

    def generic(self, st, k, cond, inc, body, mods):
        """loop rule: one symbolic pass over the generic iteration k"""
        quiet0 = self.quiet
        init = {loc: self.get_loc(st, loc) for loc in mods}
        initv = {loc: (v.off if isinstance(v, Ptr) else v) for loc, v in init.items()}
        pre = {}
        for n_, (loc, v) in enumerate(init.items()):
            nm = 'pre@%s@%s' % (k.args[0], '.'.join(str(x) for x in loc))
            if isinstance(v, Ptr):
                pre[loc] = var(nm, 'I')
            elif isinstance(v, T):
                pre[loc] = var(nm, v.sort if v.sort in ('I', 'B') else 'R')
            elif v is None:
                pre[loc] = var(nm, 'R')
            else:
                raise Unsupported('loop modifies non-scalar %r' % (loc,))

        def wrap(loc, t):
            return Ptr(init[loc].region, canon(t)) if isinstance(init[loc], Ptr) else t
        # pass A: recurrences over opaque pre-values
        self.quiet += 1
        try:
            s, _, base = self.loop_start(st, k, mods, {loc: wrap(loc, pre[loc]) for loc in mods})
            s.pc = st.pc + (le(ZERO, k),)
            start = s.copy()
            c = self.truth(self.ev(s, cond))
            post = self.body_once(s, body, inc)
            newmods, _ = self.changes(st, k, start, post, mods, base, frozenset(p.id for p in pre.values()))
            if set(newmods) != set(mods):
                return dict(mods=newmods, out=None)
            postv = {}
            for loc in mods:
                v = self.get_loc(post, loc)
                postv[loc] = v.off if isinstance(v, Ptr) else v
        finally:
            self.quiet = quiet0
        closed, kinds = self.solve(k, pre, postv, initv)
        n, extra = self.trip(st, k, c, pre, closed)
        if any(isinstance(v, T) and has_ite(v) for v in postv.values()):
            # reads guarded by the range of an earlier loop
            closed, kinds = self.solve(k, pre, postv, initv, tuple(st.pc) + (le(ZERO, k), lt(k, n)))
        # pass B: generic iteration with the solved values
        s, barrier, base = self.loop_start(st, k, mods, {loc: wrap(loc, closed[loc]) for loc in mods})
        s.pc = st.pc + (le(ZERO, k), lt(k, n))
        start = s.copy()
        self.ev(s, cond)
        post = self.body_once(s, body, inc)
        newmods, newf = self.changes(st, k, start, post, mods, base)
        if set(newmods) != set(mods):
            return dict(mods=newmods, out=None)
        # ---- obligations of the loop rule
        for loc in mods:
            v = self.get_loc(post, loc)
            v = v.off if isinstance(v, Ptr) else v
            kind = kinds[loc]
            if kind[0] == 'sum':
                self.oblige('loop invariant (accumulator)', self._at(post, start.pc), eq(sub(v, closed[loc]), kind[1]))
            elif kind[0] == 'over':
                if v.sort != 'B':
                    self.oblige('loop invariant (overwritten)', self._at(post, start.pc), eq(v, kind[1]))
                elif v is not kind[1]:
                    self.oblige('loop invariant (overwritten)', self._at(post, start.pc), eq(v, kind[1]))
            elif kind[0] == 'havoc':
                self.warn.append('loop-carried value of %s not characterised' % (loc,))
        if not self.quiet:
            seen = set()
            for r, idx, pc in barrier.pending:
                for w in newf.get(r, ()):
                    key = (r, idx.id, w.idx.id, w.guard.id, tuple(f.id for f in pc))
                    if key in seen:
                        continue
                    seen.add(key)
                    fam = Write(w.idx, None, w.guard, [(k, n)] + list(w.binders))
                    q = State()
                    q.pc = pc
                    if not self.disjoint(q, idx, fam, prior=barrier):
                        self.oblige('loop-carried array dependence on %s' % r, q, FALSE)
            for r, ws in newf.items():
                # writes with the same index up to a constant are treated together
                clusters = {}
                for w in ws:
                    p = dict(nf(w.idx))
                    c = p.pop((), 0)
                    bid = tuple((b.id, h.id) for b, h in w.binders)
                    clusters.setdefault((canon_poly(p, 'I').id, w.guard.id, bid), []).append((c, w))
                keys = list(clusters)
                for a in keys:
                    for b in keys:
                        ca, cb = clusters[a], clusters[b]
                        if len(ca) * len(cb) > 1 and self.iter_disjoint(start, k, n, ca[0][1], cb[0][1], r, (ca, cb)):
                            continue
                        for _, x in ca:
                            for _, y in cb:
                                self.iter_disjoint(start, k, n, x, y, r)
        # ---- exit state
        out = st.copy()
        for r, ws in newf.items():
            out.writes[r] = out.writes.get(r, ()) + tuple(
                Write(w.idx, w.val, w.guard, [(k, n)] + list(w.binders)) for w in ws)
        npos = self.decide(st, lt(ZERO, n))
        for loc in mods:
            kind = kinds[loc]
            if kind[0] == 'over':
                last = subst(kind[1], {k: sub(n, ONE)})
                v = last if npos else ite(lt(ZERO, n), last, initv[loc]) if initv[loc] is not None else last
            elif kind[0] == 'havoc':
                v = fresh('havoc', 'R')
            else:
                v = subst(closed[loc], {k: n})
            self.set_loc(out, loc, wrap(loc, v))
        return dict(out=[(out, None)])

    def _at(self, st, pc):
        s = State()
        s.pc = pc
        return s

    def body_once(self, s, body, inc):
        outs = self.stmt(s, body)
        live = []
        for x, o in outs:
            if o is None or o == ('continue',):
                live.append(x)
            else:
                raise Unsupported('%s inside an unbounded loop' % o[0])
        if len(live) > 1:
            base = s.pc
            m, _ = self.merge_returns(s, [(x, None) for x in live])
        else:
            m = live[0]
        if inc and inc.get('kind'):
            self.ev(m, inc)
        return m

    def unguard(self, e, facts):
        seen = {}

        def dec(t):
            if t.op == 'ite' and t.id not in seen:
                c = t.args[0]
                seen[t.id] = None
                if all_int(c) and c.sort == 'B':
                    if self.pr.smt(flat(list(facts)), c, True, 2.0).ok:
                        seen[t.id] = t.args[1]
                    elif self.pr.smt(flat(list(facts)), not_(c), True, 2.0).ok:
                        seen[t.id] = t.args[2]
            for x in children(t):
                if x.id not in done:
                    done.add(x.id)
                    dec(x)
        done = set()
        dec(e)
        m = {i: x for i, x in seen.items() if x is not None}
        for _ in range(4):
            if not m:
                break
            e2 = replace_terms(e, m)
            if e2 is e:
                break
            e = e2
        return e

    def solve(self, k, pre, post, init, facts=None):
        closed, kinds = {}, {}
        todo = list(pre)
        inv = {pre[l]: l for l in pre}
        for _ in range(len(todo) + 2):
            prog = False
            for loc in list(todo):
                p, e0 = pre[loc], post[loc]
                m = {pre[l]: closed[l] for l in closed}
                # values of other locations after their update in this iteration
                e = replace_terms(e0, {post[l].id: subst(closed[l], {k: add(k, ONE)}) for l in closed
                                       if kinds[l][0] in ('sum', 'lin') and l != loc and isinstance(post[l], T) and post[l].op not in ('num', 'var')})
                e = subst(e, m) if m else e
                if facts and has_ite(e):
                    e = self.unguard(e, facts)
                unsolved = {pre[l].id for l in todo}
                if e.sort == 'B':
                    if e is p:
                        closed[loc], kinds[loc] = init[loc], ('same',)
                    elif not (fv(e) & unsolved):
                        closed[loc], kinds[loc] = self._over(k, init[loc], e), ('over', e)
                    else:
                        continue
                    todo.remove(loc)
                    prog = True
                    continue
                d = canon_poly(p_add(nf(e), nf(p), -1), 'I' if e.sort == 'I' else 'R')
                if is_num(d) and numval(d) == 0:
                    closed[loc], kinds[loc] = init[loc], ('same',)
                elif not (fv(d) & unsolved):
                    if init[loc] is None:
                        continue
                    if k.id in fv(d):
                        b = fresh('m', 'I')
                        closed[loc] = add(init[loc], Sum(b, ZERO, k, subst(d, {k: b})))
                        kinds[loc] = ('sum', d)
                    else:
                        closed[loc] = add(init[loc], mul(k, d))
                        kinds[loc] = ('sum', d)
                elif not (fv(e) & unsolved):
                    closed[loc], kinds[loc] = self._over(k, init[loc], e), ('over', e)
                else:
                    mm = match_minmax(e, p, unsolved)
                    if mm is None:
                        continue
                    kind, binders, t = mm
                    b = fresh('m', 'I')
                    closed[loc] = MSet(kind, init[loc], [(b, ZERO, k)] + [(x, lo, subst(h, {k: b})) for x, lo, h in binders], subst(t, {k: b}))
                    kinds[loc] = ('mset', t)
                todo.remove(loc)
                prog = True
            if not prog:
                break
        for loc in todo:
            closed[loc] = fn('havoc!%d' % pre[loc].id, k, sort=pre[loc].sort)
            kinds[loc] = ('havoc',)
        return closed, kinds

    def _over(self, k, init, e):
        if init is None:
            return subst(e, {k: sub(k, ONE)})
        return ite(eq(k, ZERO), init, subst(e, {k: sub(k, ONE)}))

    def trip(self, st, k, c, pre, closed):
        m = {p: closed[l] for l, p in pre.items()}
        c = subst(c, m)
        if c.op == 'not' and c.args[0].op == '==':
            a, b = c.args[0].args
            ka, kb = k.id in fv(a), k.id in fv(b)
            if kb and not ka:
                a, b = b, a
            c2 = lt(a, b)
        else:
            c2 = c
        if c2.op not in ('<', '<='):
            raise Unsupported('loop condition %s' % show(c))
        # 0 < d(k) with d = d0 - step*k
        d = p_add(nf(c2.args[1]), nf(c2.args[0]), -1)
        if c2.op == '<=':
            d = p_add(d, p_const(1))     # integers
        coef, rest = {}, {}
        for mo, co in d.items():
            dd = dict(mo)
            e = dd.pop(k.id, 0)
            if any(k.id in fv(byid(a)) for a in dd):
                raise Unsupported('loop condition not linear')
            if e == 0:
                rest[mo] = co
            elif e == 1:
                coef[tuple(sorted(dd.items()))] = co
            else:
                raise Unsupported('loop condition not linear')
        if len(coef) != 1 or coef.get((), 0) >= 0:
            raise Unsupported('loop condition %s does not bound the loop' % show(c))
        step = -coef[()]
        r = canon_poly(rest, 'I')
        if c.op == 'not':
            self.oblige('termination: loop with != reaches its bound', st, le(ZERO, r))
        if step != 1:
            r = ceil(div(r, num(step)))
        pos = self.decide(st, le(ZERO, r))
        n = r if pos else ite(le(ZERO, r), r, ZERO)
        return n, []

    def iter_disjoint(self, start, k, n, w1, w2, region, cluster=None):
        """writes w1 in iteration k and w2 in an earlier iteration k2 never meet"""
        k2 = fresh('k', 'I')
        ren1 = {b: fresh(b.args[0].split('!')[0], 'I') for b, _ in w1.binders}
        ren2 = {b: fresh(b.args[0].split('!')[0], 'I') for b, _ in w2.binders}
        ren2[k] = k2
        facts = list(start.pc) + [le(ZERO, k2), lt(k2, k)]
        pairs = []
        for b, h in w1.binders:
            facts += [le(ZERO, ren1[b]), lt(ren1[b], subst(h, ren1))]
        for b, h in w2.binders:
            facts += [le(ZERO, ren2[b]), lt(ren2[b], subst(h, ren2))]
        for (b1, _), (b2, _) in zip(w1.binders, w2.binders):
            pairs.append((ren1[b1], ren2[b2]))
        for w, r in ((w1, ren1), (w2, ren2)):
            g = subst(w.guard, r)
            if g is not TRUE:
                facts.append(g)
        a, b = subst(w1.idx, ren1), subst(w2.idx, ren2)
        if cluster is not None:
            d1 = [c - cluster[0][0][0] for c, _ in cluster[0]]
            d2 = [c - cluster[1][0][0] for c, _ in cluster[1]]
            delta = fresh('delta', 'I')
            facts += [le(num(min(d1) - max(d2)), delta), le(delta, num(max(d1) - min(d2)))]
            a = add(a, delta)
            if not self.prove_ne(facts, a, b, pairs):
                return False
            for _ in range(len(d1) * len(d2)):
                self.oblige('disjoint writes to %s in different iterations' % region, start, TRUE)
            return True
        ok = self.prove_ne(facts, a, b, pairs)
        self.oblige('disjoint writes to %s in different iterations' % region, start, TRUE if ok else FALSE)


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.op == 'ite':
            return True
        for y in children(x):
            if y.id not in seen:
                seen.add(y.id)
                todo.append(y)
    return False


def fields_of(d):
    out = []
    for x in d.get('inner', []):
        if x['kind'] == 'FieldDecl':
            i = [c for c in x.get('inner', []) if 'Comment' not in c['kind'] and 'Attr' not in c['kind']]
            out.append((x['name'], qt(x), i[0] if i and x.get('hasInClassInitializer') else None))
    return out


class Barrier:
    def __init__(self, k):
        self.k = k
        self.pending = []


def all_int(t):
    if t.op in ('<', '<=', '=='):
        return all(byid(a).sort == 'I' for x in t.args if x.sort in ('R', 'I') for m in nf(x) for a, _ in m)
    if t.op in ('and', 'or', 'not'):
        return all(all_int(a) for a in t.args)
    return False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        return a.sort in 'RI' and b.sort in 'RI' and canon(a) is canon(b)
    if a is None or b is None:
        return False
    return isinstance(a, type(b)) and a == b


def replace_terms(t, m):
    if not m:
        return t
    memo = {}

    def go(t):
        if t.id in m:
            return m[t.id]
        r = memo.get(t.id)
        if r is None:
            if t.op in ('var', 'num', 'str', 'bool'):
                r = t
            elif t.op == 'nf':
                r = t
            else:
                args = [go(a) if isinstance(a, T) else a for a in t.args]
                r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
            memo[t.id] = r
        return r
    return go(t)


def match_minmax(e, p, unsolved):
    """e == max(p, t) / min(p, t) with t independent of p"""
    if e.op == 'mset' and e.args[1] is p:
        n = e.args[2]
        binders = [tuple(e.args[3 + 3 * i:6 + 3 * i]) for i in range(n)]
        if not (fv(e.args[-1]) & unsolved):
            return e.args[0], binders, e.args[-1]
        return None
    if e.op != 'ite':
        return None
    c, a, b = e.args
    neg_ = False
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if c.op not in ('<', '<='):
        return None
    x, y = c.args
    x, y, a, b = canon(x), canon(y), canon(a), canon(b)
    for (u, v, hi, lo) in ((x, y, a, b),):
        # u < v : value a else b
        if a is v and b is u:
            kind = 'max'
        elif a is u and b is v:
            kind = 'min'
        else:
            return None
        t = u if v is p else v if u is p else None
        if t is None or (fv(t) & unsolved):
            return None
        return kind, [], t
    return None


MATH = {
    'sqrt': sqrt, 'sin': lambda a: fn('sin', a), 'cos': lambda a: fn('cos', a), 'tan': lambda a: fn('tan', a),
    'fabs': lambda a: fn('abs', a), 'abs': lambda a: fn('abs', a, sort=a.sort),
    'pow': lambda a, b: powi(a, int(numval(b))) if is_num(b) and numval(b).denominator == 1 and abs(numval(b)) < 8 else
    (sqrt(a) if is_num(b) and numval(b) * 2 == 1 else fn('pow', a, b)),
    'hypot': lambda a, b: sqrt(add(mul(a, a), mul(b, b))),
    'atan2': lambda a, b: fn('atan2', a, b), 'asin': lambda a: fn('asin', a), 'exp': lambda a: fn('exp', a),
}

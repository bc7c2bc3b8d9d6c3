"""Verification condition generator for Python.

The functions of /repo are executed by CPython itself (their own byte code) on symbolic
values; every feasible path is explored, loops over sequences of unknown length are cut at
loop contracts, calls may be replaced by contracts of the callee.  The only source change is
that comprehensions are turned into calls (`_vc_comp`), so that they can be applied to
sequences of unknown length; nothing is dropped.
"""
import ast
import builtins
import ctypes
import dis
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import re
import string
import sys
import types
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, num, lift, nf, fv, byid
from .prover import Prover, flat

PKG = 'pytornado'


class PathEnd(BaseException):
    """the current path is finished"""


class VCError(Exception):
    """the program leaves the supported subset"""


class Obl:
    __slots__ = ('name', 'facts', 'goal')

    def __init__(self, name, facts, goal):
        self.name, self.facts, self.goal = name, facts, goal


CUR = [None]


def vc():
    return CUR[0]


class VC:
    def __init__(self, fname, functions=(), max_paths=4000):
        self.fname = fname
        self.functions = list(functions)
        self.obls = []
        self._seen = set()
        self.warn = []
        self.inlined = set()
        self.max_paths = max_paths
        self.npaths = 0
        self.pr = Prover(timeout=3.0)

    # ------------------------------------------------------------ exploration
    def run(self, title, fn):
        """explores every path of fn()"""
        prev = CUR[0]
        CUR[0] = self
        self.summ = {}
        prefix = []
        done = 0
        try:
            while True:
                self.prefix, self.trace, self.facts = prefix, [], []
                self.probing = 0
                self.invariants = set()
                self.title = title
                self.notes = []
                LENS.clear()
                COUNTS.clear()
                self.local = None
                self.mute = False
                tm._pfresh[0] = 0
                done += 1
                self.npaths += 1
                if done > self.max_paths:
                    raise VCError('%s: too many paths' % title)
                try:
                    fn()
                except PathEnd:
                    pass
                # next path
                tr = self.trace
                while tr and not tr[-1][1]:
                    tr.pop()
                if not tr:
                    break
                v, alts = tr[-1]
                tr[-1] = (alts[0], alts[1:])
                prefix = list(tr)
        finally:
            CUR[0] = prev
        return self

    def _pick(self, values):
        """values: feasible alternatives in order"""
        i = len(self.trace)
        if i < len(self.prefix):
            v, alts = self.prefix[i]
        else:
            vs = values()
            v, alts = vs[0], list(vs[1:])
        self.trace.append((v, alts))
        return v

    def key(self):
        return tuple(repr(v) for v, _ in self.trace)

    def choose(self, *values):
        if self.local is not None:
            raise VCError('case distinction inside a quantified expression')
        return self._pick(lambda: list(values))

    local = None

    def merged(self, f):
        """value of f(), whose paths are joined (used under quantifiers, where a case distinction of the whole path would be wrong)"""
        outer, base, out, prefix = self.local, len(self.facts), [], []
        try:
            while True:
                self.local = [prefix, []]
                del self.facts[base:]
                x = f()
                if not isinstance(x, (bool, np.bool_, S, SB) + NUMERIC):
                    raise VCError('quantified expression')
                tr = self.local[1]
                out.append((tm.and_(*[t if d else tm.not_(t) for d, _, t in tr]), term(x)))
                while tr and not tr[-1][1]:
                    tr.pop()
                if not tr:
                    break
                _, alts, t = tr[-1]
                prefix = tr[:-1] + [(alts[0], alts[1:], t)]
        finally:
            self.local = outer
            del self.facts[base:]
        r = out[-1][1]
        for c, t in reversed(out[:-1]):
            if t.sort == 'B':
                r = tm.or_(tm.and_(c, t), tm.and_(tm.not_(c), r))
            else:
                r = tm.ite(c, t, r)
        return r

    def decide(self, t):
        t = lift(t)
        if t is TRUE or t is FALSE:
            return t is TRUE
        c = tm.cbool(t)
        if c is TRUE or c is FALSE:
            return c is TRUE

        def values():
            fs = flat(self.facts)
            out = []
            if not self.pr.smt(fs + [t], FALSE, False, 1.0).ok:
                out.append(True)
            if not self.pr.smt(fs + [tm.not_(t)], FALSE, False, 1.0).ok:
                out.append(False)
            if not out:
                raise PathEnd()
            return out
        if self.local is not None:
            prefix, trace = self.local
            if len(trace) < len(prefix):
                d = prefix[len(trace)]
            else:
                vs = values()
                d = (vs[0], vs[1:], t)
            trace.append(d)
            self.facts.append(t if d[0] else tm.not_(t))
            return d[0]
        i = len(self.trace)
        if i < len(self.prefix):
            v, alts = self.prefix[i]
        else:
            vs = values()
            v, alts = vs[0], vs[1:]
        self.trace.append((v, alts))
        self.facts.append(t if v else tm.not_(t))
        return v

    def assume(self, t, invariant=False):
        """invariant: holds for every element of the sequence the loop runs over (no condition of the path)"""
        t = term(t)
        if t is FALSE:
            raise PathEnd()
        if t is not TRUE:
            self.facts.append(t)
            if invariant:
                self.invariants.add(t.id)

    def conditions(self, base):
        return [f for f in self.facts[base:] if f.id not in self.invariants]

    def end(self):
        raise PathEnd()

    # ------------------------------------------------------------ obligations
    def prove(self, name, goal):
        if self.probing or self.mute:
            return
        goal = term(goal)
        k = (name, tuple(f.id for f in self.facts), goal.id)
        if k in self._seen:
            return
        self._seen.add(k)
        n = '%s: %s' % (self.title, name)
        self.obls.append(Obl(n, list(self.facts), goal))

    def check(self, name, ok):
        """obligation decided by evaluation (structure of the heap, identity of objects)"""
        if isinstance(ok, (S, SB)):
            return self.prove(name, ok)
        self.prove(name, TRUE if ok else FALSE)

    def eq(self, name, a, b):
        """structural equality of values, as obligations"""
        self.check(name, same(a, b))

    # ------------------------------------------------------------ fresh values
    def real(self, hint='x'):
        return S(tm.pfresh(hint, 'R'))

    def int(self, hint='n', lo=None):
        s = S(tm.pfresh(hint, 'I'))
        if lo is not None:
            self.assume(s >= lo)
        return s

    def bool(self, hint='b'):
        return SB(tm.pfresh(hint, 'B'))

    def vec(self, hint='v', n=3):
        return obj_array([self.real('%s%d' % (hint, i)) for i in range(n)])

    def str(self, hint='s'):
        return Str([Atom(tm.pfresh(hint, 'S').args[0])])


def term(x):
    if isinstance(x, (S, SB)):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, np.generic):
        return lift(x.item())
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return term(x.item())
    raise VCError('not a term: %r' % (type(x),))


def obj_array(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


NUMERIC = (int, float, Fraction, np.integer, np.floating)


def _nonneg(t):
    """syntactically not negative (for real numbers)"""
    if tm.is_num(t):
        return tm.numval(t) >= 0
    if t.op == '*':
        return len(t.args) == 2 and t.args[0] is t.args[1] or all(_nonneg(a) for a in t.args)
    if t.op == '+':
        return all(_nonneg(a) for a in t.args)
    return t.op == 'sqrt'


class SB:
    """symbolic truth value"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return vc().decide(self.t)

    def __and__(self, o):
        return SB(tm.and_(self.t, term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SB(tm.or_(self.t, term(o)))
    __ror__ = __or__

    def __invert__(self):
        return SB(tm.not_(self.t))

    def __eq__(self, o):
        if o is None:
            return False
        return SB(tm.eq(self.t, term(o)))

    def __ne__(self, o):
        if o is None:
            return True
        return SB(tm.ne(self.t, term(o)))

    def __hash__(self):
        return hash(('SB', self.t.id))

    def __repr__(self):
        return 'SB(%r)' % (self.t,)

    def __format__(self, f):
        return 'sym'


def sb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SB(t)


class S:
    """symbolic number"""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind=None):
        self.t = t if isinstance(t, T) else lift(t)
        self.kind = kind

    @property
    def __class__(self):
        return self.kind or (int if self.t.sort == 'I' else float)

    def _o(self, o):
        if isinstance(o, S):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return num(int(o))
        if isinstance(o, NUMERIC):
            return num(o.item() if isinstance(o, np.generic) else o)
        return None

    def _r(op, swap=False):
        def f(self, o):
            t = self._o(o)
            if t is None:
                return NotImplemented
            a, b = (t, self.t) if swap else (self.t, t)
            return S(op(a, b))
        return f
    __add__, __radd__ = _r(tm.add), _r(tm.add, True)
    __sub__, __rsub__ = _r(tm.sub), _r(tm.sub, True)
    _mul, _rmul = _r(tm.mul), _r(tm.mul, True)

    def __mul__(self, o):
        if builtins.type(o) is builtins.list and builtins.len(o) == 1:
            return SymSeq('repeat', self, lambda k: o[0])
        return self._mul(o)

    def __rmul__(self, o):
        if builtins.type(o) is builtins.list and builtins.len(o) == 1:
            return SymSeq('repeat', self, lambda k: o[0])
        return self._rmul(o)

    def __truediv__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else S(tm.div(tm.toreal(self.t), t))

    def __rtruediv__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else S(tm.div(tm.toreal(t), self.t))

    def __floordiv__(self, o):
        t = self._o(o)
        return S(tm.idiv(self.t, t)) if self.t.sort == t.sort == 'I' else S(tm.floor(tm.div(self.t, t)))

    def __mod__(self, o):
        t = self._o(o)
        if self.t.sort == t.sort == 'I':
            return S(tm.imod(self.t, t))
        raise VCError('modulo of reals')

    def __neg__(self):
        return S(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        if _nonneg(self.t):
            return self
        return S(tm.ite(tm.le(ZERO, self.t), self.t, tm.neg(self.t)))

    def __pow__(self, o):
        if isinstance(o, (int, float)) and float(o) == int(o):
            return S(tm.powi(self.t, int(o)))
        if o == 0.5:
            return self.sqrt()
        raise VCError('power')

    def _c(op):
        def f(self, o):
            t = self._o(o)
            if t is None:
                return NotImplemented
            return sb(tm.cbool(op(self.t, t))) if tm.is_num(self.t) and tm.is_num(t) else sb(op(self.t, t))
        return f
    __lt__, __le__, __gt__, __ge__ = _c(tm.lt), _c(tm.le), _c(tm.gt), _c(tm.ge)

    def __eq__(self, o):
        t = self._o(o)
        if t is None:
            return False
        return sb(tm.eq(self.t, t))

    def __ne__(self, o):
        t = self._o(o)
        if t is None:
            return True
        return sb(tm.ne(self.t, t))

    def __hash__(self):
        return hash(('S', self.t.id))

    def __bool__(self):
        return vc().decide(tm.ne(self.t, ZERO))

    def __float__(self):
        if tm.is_num(self.t):
            return float(tm.numval(self.t))
        raise TypeError('symbolic number converted to float')

    def __index__(self):
        if tm.is_num(self.t):
            return int(tm.numval(self.t))
        raise TypeError('symbolic number used as index')

    def __round__(self, n=None):
        raise VCError('round')

    def is_integer(self):
        return sb(tm.eq(self.t, tm.floor(self.t)))

    # called by numpy for object arrays
    def sqrt(self):
        return S(tm.sqrt(self.t))

    def sin(self):
        return S(tm.fn('sin', self.t))

    def cos(self):
        return S(tm.fn('cos', self.t))

    def deg2rad(self):
        return S(tm.div(tm.mul(self.t, tm.PI), num(180)))
    radians = deg2rad

    def rad2deg(self):
        return S(tm.div(tm.mul(self.t, num(180)), tm.PI))
    degrees = rad2deg

    def conjugate(self):
        return self

    def item(self):
        return self

    def __ceil__(self):
        return S(tm.ceil(self.t))

    def __floor__(self):
        return S(tm.floor(self.t))

    def __trunc__(self):
        if self.t.sort == 'I':
            return self
        return S(tm.ite(tm.le(ZERO, self.t), tm.floor(self.t), tm.ceil(self.t)))

    def __repr__(self):
        return 'S(%r)' % (self.t,)

    def __format__(self, f):
        return 'sym'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def U(name, *args, sort='R'):
    """uninterpreted function application"""
    return S(tm.fn(name, *[term(a) for a in args], sort=sort))


# ---------------------------------------------------------------- strings
class Atom:
    def __init__(self, name, neq=()):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Atom) and o.name == self.name

    def __hash__(self):
        return hash(('Atom', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Str:
    """symbolic string: concatenation of literals and unknown non-empty strings"""

    def __init__(self, parts):
        ps = []
        for p in [q for p in parts for q in (p.parts if type(p) is Str else (p,))]:
            if isinstance(p, str):
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] += p
                    continue
            ps.append(p)
        self.parts = tuple(ps)

    @property
    def __class__(self):
        return str

    def t(self):
        """term"""
        if all(isinstance(p, str) for p in self.parts):
            return tm.strc(''.join(self.parts))
        if len(self.parts) == 1:
            return tm.var(self.parts[0].name, 'S')
        r = None
        for p in self.parts:
            x = tm.strc(p) if isinstance(p, str) else tm.var(p.name, 'S')
            r = x if r is None else tm.fn('concat', r, x, sort='S')
        return r

    def _parts(o):
        if type(o) is Str:
            return o.parts
        return (o,) if o else ()

    def __eq__(self, o):
        if type(o) is not Str and not isinstance(o, str):
            return False
        a, b = list(self.parts), list(Str._parts(o))
        # common prefix / suffix
        while a and b:
            x, y = a[0], b[0]
            if x == y:
                a.pop(0), b.pop(0)
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a[0], b[0] = x[n:], y[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
            else:
                break
        while a and b:
            x, y = a[-1], b[-1]
            if x == y:
                a.pop(), b.pop()
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                a[-1], b[-1] = x[:-n], y[:-n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
            else:
                break
        if not a and not b:
            return True
        if not a or not b:
            return False     # atoms are non-empty
        l, r = Str(a).t(), Str(b).t()
        if repr(l) > repr(r):
            l, r = r, l
        return sb(tm.fn('streq', l, r, sort='B'))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else ~r

    def __hash__(self):
        return hash(self.parts)

    def __bool__(self):
        return bool(self.parts)

    def __add__(self, o):
        if type(o) is Str or isinstance(o, str):
            return Str(self.parts + tuple(Str._parts(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return Str((o,) + self.parts)
        return NotImplemented

    def startswith(self, p):
        if not self.parts:
            return ''.startswith(p)
        x = self.parts[0]
        if isinstance(x, str) and (len(x) >= len(p) or not p.startswith(x)):
            return x.startswith(p)
        return sb(tm.fn('startswith', Str(self.parts).t(), tm.strc(p), sort='B'))

    def endswith(self, p):
        if not self.parts:
            return ''.endswith(p)
        x = self.parts[-1]
        if isinstance(x, str) and (len(x) >= len(p) or not p.endswith(x)):
            return x.endswith(p)
        return sb(tm.fn('endswith', Str(self.parts).t(), tm.strc(p), sort='B'))

    def __contains__(self, p):
        if any(isinstance(x, str) and p in x for x in self.parts):
            return True
        return bool(sb(tm.fn('strcontains', self.t(), tm.strc(p), sort='B')))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None:
            lo, hi = i.start, i.stop
            ps = list(self.parts)
            if lo in (None, 0) and isinstance(hi, int) and hi < 0 and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
                return Str(ps[:-1] + [ps[-1][:hi]])
            if hi is None and isinstance(lo, int) and lo > 0 and ps and isinstance(ps[0], str) and len(ps[0]) >= lo:
                return Str([ps[0][lo:]] + ps[1:])
        return Str([Atom(tm.fn('strindex', self.t(), repr(i), sort='S').__repr__())])

    def removesuffix(self, p):
        if self.endswith(p):
            x = self.parts[-1] if self.parts else ''
            if isinstance(x, str) and x.endswith(p):
                return Str(self.parts[:-1] + (x[:len(x) - len(p)],))
            return Str([Atom('removesuffix(%r,%s)' % (self.t(), p))])
        return self

    def removeprefix(self, p):
        if self.startswith(p):
            x = self.parts[0] if self.parts else ''
            if isinstance(x, str) and x.startswith(p):
                return Str((x[len(p):],) + self.parts[1:])
            return Str([Atom('removeprefix(%r,%s)' % (self.t(), p))])
        return self

    def replace(self, a, b, *n):
        if all(isinstance(p, str) for p in self.parts):
            return ''.join(self.parts).replace(a, b, *n)
        return Str([Atom('replace(%r,%s,%s)' % (self.t(), a, b))])

    def rsplit(self, sep, n=-1):
        """pieces after the last literal separator; unknown pieces are taken to contain no separator only behind it"""
        for i in builtins.range(builtins.len(self.parts) - 1, -1, -1):
            x = self.parts[i]
            if not isinstance(x, str):
                break
            if sep in x:
                a, b = x.rsplit(sep, 1)
                last = ''.join((b,) + self.parts[i + 1:])
                head = Str(self.parts[:i] + (a,))
                if n == 1:
                    return [head, last]
                if n == -1:
                    return _Split(last)
                break
        raise VCError('split of an unknown text')

    def split(self, sep, n=-1):
        if n != -1:
            raise VCError('split of an unknown text')
        return self.rsplit(sep)

    def rpartition(self, sep):
        a, b = self.rsplit(sep, 1)
        return a, sep, b

    def __getattr__(self, nm):
        if nm in ('upper', 'lower', 'strip', 'rstrip', 'lstrip'):
            return lambda *a: Str([Atom('%s(%r%s)' % (nm, self.t(), ',' + repr(a) if a else ''))])
        raise AttributeError(nm)

    def __format__(self, f):
        return 'sym'

    def __repr__(self):
        return 'Str' + repr(self.parts)

    def __str__(self):
        return 'sym'


class _Split:
    """pieces of a split text of which only the last is known"""

    def __init__(self, last):
        self.last = last

    def __getitem__(self, i):
        if i == -1:
            return self.last
        raise VCError('piece of an unknown text')

    def pop(self, i=-1):
        return self[i]


# ---------------------------------------------------------------- equality of values
def same(a, b):
    """True / False / symbolic: structural equality"""
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
            return False
        if np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a, dtype=object).ravel().tolist(), np.asarray(b, dtype=object).ravel().tolist()
        return _all([same(x, y) for x, y in zip(a, b)])
    if type(a) in (S, SB) or type(b) in (S, SB):
        if isinstance(a, (S, SB, bool) + NUMERIC) and isinstance(b, (S, SB, bool) + NUMERIC):
            return SB(tm.eq(term(a), term(b)))
        r = a == b
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if list(map(repr, a.keys())) != list(map(repr, b.keys())):
            return False
        return _all([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return _all([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
        return bool(num(a if not isinstance(a, np.generic) else a.item()) is num(b if not isinstance(b, np.generic) else b.item()) or a == b)
    r = a == b
    return r if isinstance(r, (bool, SB)) else bool(r)


def _all(xs):
    ts = []
    for x in xs:
        if type(x) is SB:
            ts.append(x.t)
        elif not x:
            return False
    return SB(tm.and_(*ts)) if ts else True


# ---------------------------------------------------------------- heap snapshots
def _ident(v):
    if type(v) in (S, SB):
        return ('t', v.t.id)
    if type(v) is Str:
        return ('str', v.parts)
    if isinstance(v, (int, float, str, bool, type(None), bytes)):
        return ('c', type(v).__name__, v)
    if isinstance(v, np.generic):
        return ('c', 'np', v.item())
    return ('o', id(v))


MEMO = ('_keys', '_vals', '_memo')     # what a symbolic collection has been asked for


def snapshot(roots, skip=()):
    seen, keep = {}, []

    def go(path, v):
        if isinstance(v, (types.FunctionType, types.ModuleType, type, types.MethodType)) or type(v) in (S, SB, Str):
            return
        if v is None or isinstance(v, (int, float, str, bool, bytes)) or id(v) in seen or v in skip_ids(v, skip):
            return
        if issubclass(type(v), (LoopSpec, VC, CutIter, types.GeneratorType)) or type(v) is SymSeq:
            return
        if issubclass(type(v), dict):
            seen[id(v)] = (path, v, [(_ident(k), _ident(x)) for k, x in dict.items(v)])
            for k, x in list(dict.items(v)):
                go('%s[%r]' % (path, k), x)
            if hasattr(v, '__dict__'):
                seen[id(v.__dict__)] = (path + '.__dict__', v.__dict__, [(_ident(k), _ident(x)) for k, x in v.__dict__.items()])
        elif issubclass(type(v), (list, tuple)):
            seen[id(v)] = (path, v, _shape(v))
            for i, x in enumerate(_raw(v)):
                go('%s[%d]' % (path, i), x)
        elif issubclass(type(v), np.ndarray):
            seen[id(v)] = (path, v, [v.shape] + [_ident(x) for x in v.ravel().tolist()])
        elif issubclass(type(v), set):
            seen[id(v)] = (path, v, sorted(repr(_ident(x)) for x in v))
        elif hasattr(v, '__dict__'):
            seen[id(v)] = (path, v, _shape(v))
            for k, x in list(vars(v).items()):
                if k in getattr(type(v), '_memo_fields', ()):
                    for i, y in enumerate(list(x)):
                        for z in (y if type(y) is tuple else (y,)):
                            go('%s[%s]' % (path, i), z)
                elif (k == 'made' or k in MEMO) and type(x) is dict:
                    for i, y in list(x.items()):        # elements brought up so far (not: which ones)
                        go('%s[%s]' % (path, i), y)
                else:
                    go('%s.%s' % (path, k), x)
    for nm, r in roots.items():
        go(nm, r)
    return seen


def skip_ids(v, skip):
    return skip if any(v is s for s in skip) else ()


def _raw(v):
    return list(list.__iter__(v) if issubclass(type(v), list) else tuple.__iter__(v))


def _shape(v):
    if issubclass(type(v), dict):
        return [(_ident(k), _ident(x)) for k, x in dict.items(v)]
    if issubclass(type(v), (list, tuple)):
        return [_ident(x) for x in _raw(v)]
    if issubclass(type(v), np.ndarray):
        return [v.shape] + [_ident(x) for x in v.ravel().tolist()]
    if issubclass(type(v), set):
        return sorted(repr(_ident(x)) for x in v)
    return [(k, _ident(x)) for k, x in vars(v).items() if k not in MEMO and k not in getattr(type(v), '_memo_fields', ())]


def diff(snap):
    """paths of objects whose contents changed: [(path, key, old, new)]"""
    out = []
    for path, v, old in snap.values():
        new = _shape(v)
        if new == old:
            continue
        if old and isinstance(old[0], tuple) and len(old[0]) == 2 and not issubclass(type(v), (list, tuple, np.ndarray)):
            do, dn = dict(old), dict(new)
            for k in list(do) + [k for k in dn if k not in do]:
                if do.get(k) != dn.get(k):
                    kk = k[-1] if isinstance(k, tuple) else k
                    out.append(('%s.%s' % (path, kk), v, kk))
            if not any(p[1] is v for p in out):
                out.append((path, v, 'order'))
        elif isinstance(v, dict) or hasattr(v, '__dict__') and not isinstance(v, (list, np.ndarray, set)):
            for k, _ in new:
                kk = k[-1] if isinstance(k, tuple) else k
                out.append(('%s.%s' % (path, kk), v, kk))
        else:
            out.append((path, v, None))
    return out


# ---------------------------------------------------------------- sequences of unknown length
class Poison:
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise VCError('value not determined by the loop contract is used: %s' % object.__getattribute__(self, 'why'))
    __getattr__ = __add__ = __radd__ = __sub__ = __mul__ = __bool__ = __iter__ = __getitem__ = __call__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = _bad
    __hash__ = object.__hash__


class SymSeq:
    """sequence of n elements elem(0) .. elem(n-1); n may be symbolic"""

    def __init__(self, name, n, elem, spec=None, raw=None):
        self.name, self.n, self.elem, self.spec = name, n, elem, spec
        self.raw = raw or (lambda e: e)      # the part of an element that the contract of the loop speaks about

    def __iter__(self):
        return CutIter(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = i.start or 0, i.stop
            if type(a) is S or type(b) is S or a < 0 or i.step not in (None, 1) or self.n is None or not (b is None or b < 0):
                raise VCError('slice of a symbolic sequence')
            n = term(self.n - a + (b or 0))
            return SymSeq(self.name, S(tm.ite(tm.le(ZERO, n), n, ZERO)), lambda k: self.elem(a + k), self.spec)
        if isinstance(i, int) and not isinstance(i, S) and i < 0:
            i = self.n + i
        return self.memo(i if type(i) is S else S(num(int(i))))

    def memo(self, i):
        """element i, the same object whenever it is asked for"""
        if not hasattr(self, '_memo'):
            self._memo = {}
        t = term(i)
        if t not in self._memo:
            self._memo[t] = self.elem(i)
        return self._memo[t]

    def __len__(self):
        if isinstance(self.n, int) and type(self.n) is not S:
            return self.n
        raise VCError('len of symbolic sequence')

    def __bool__(self):
        return bool(self.n > 0) if type(self.n) is S else self.n > 0

    def map(self, f, name=None):
        return SymSeq(name or self.name, self.n, lambda k: f(self.elem(k)), self.spec)


class LoopSpec:
    """contract of a loop over a SymSeq; override what is needed"""
    roots = None          # name -> object whose change by the body must be allowed
    allow = ()            # path patterns (substrings) that the body may change
    accumulate = True     # numeric locals that are sums are recognised automatically
    probe = False         # explore the body once more beforehand and call probe_begin / probe_end

    def allows(self, change):
        """is the change (path, object, key) permitted to the body?"""
        return any(a in change[0] for a in self.allow)

    def probe_begin(self, k, elem, loc):
        pass

    def probe_end(self, k, elem, loc, facts, key):
        """effects of one body path of the generic iteration k under `facts`; key identifies the loop"""

    def init(self, k, loc):
        """obligations at loop entry"""

    def state(self, k, loc):
        """bring heap into the state after k iterations; returns locals to set"""
        return {}

    def begin(self, k, elem, loc):
        """called with the element at start of the generic iteration"""

    def body(self, k, elem, loc, changed):
        """obligations at the end of the generic iteration k"""

    def exit(self, n, loc):
        """called on the exit path after `state(n)`"""


class CutIter:
    started = 0

    def __init__(self, seq):
        self.seq = seq
        self.mode = None
        self.spec = seq.spec or LoopSpec()

    def __iter__(self):
        return self

    def _frame(self):
        f = sys._getframe(2)
        while f.f_code.co_filename == __file__:
            f = f.f_back
        return f

    def __next__(self):
        v = vc()
        f = self._frame()
        sp = self.spec
        seq = self.seq
        if self.mode is None:
            CutIter.started += 1
            self.frame = f
            names, self.leaves = stored_names(f)
            loc = dict(f.f_locals)
            self.names = [n for n in names if n in loc]
            self.entry = loc
            self.base = len(v.facts)
            skey = ('loop', seq.name, v.key())
            sp.skey = skey
            sp.names = self.names
            sp.seq = seq
            self.pre = tm._pfresh[0]
            sp.init(S(ZERO), loc)
            endless = seq.n is None          # while loop: left through its condition
            probe = sp.probe or bool(self._scalars(loc) or self._lists(loc)) or self._collects()
            self.mode = v.choose(*((('probe',) if probe else ()) + ('generic',) + (() if endless else ('exit',))))
            self.skey = skey
            n = None if endless else seq.n if type(seq.n) is S else S(num(seq.n))
            if self.mode == 'probe':
                v.probing += 1
                v.summ.setdefault(skey, [])
                k = S(tm.pfresh('k', 'I'))
                self.k = k
                v.assume(k >= 0)
                if n is not None:
                    v.assume(k < n)
                self.base = len(v.facts)
                self.hat = {}
                new = {}
                for x in self._scalars(loc):
                    y = loc[x]
                    if isinstance(y, bool) or type(y) is SB:
                        s = SB(tm.pfresh('hat_' + x, 'B'))
                    else:
                        s = S(tm.pfresh('hat_' + x, 'I' if isinstance(y, int) or (type(y) is S and y.t.sort == 'I') else 'R'))
                    self.hat[x] = s
                    new[x] = s
                new.update(self._lists(loc))
                st = sp.state(k, loc)
                new.update(st)
                self._set(f, new, loc)
                e = seq.elem(k)
                self.elem = seq.raw(e)
                if sp.probe:
                    sp.probe_begin(k, self.elem, loc)
                self.before = {x: list(y) for x, y in self._lists(loc).items()}
                return e
            recs = v.summ.get(skey, [])
            acc = self._sums(recs, loc)
            self.acc_lists = lists = self._appended(recs, loc)
            if self.mode == 'generic':
                k = S(tm.pfresh('k', 'I'))
                self.k = k
                v.assume(k >= 0)
                if n is not None:
                    v.assume(k < n)
                self.acc = acc
                new = {x: self._accval(acc[x], loc[x], k) for x in acc}
                self.grown = {x: _unknown_list(x) if lists[x] is None else AList(k, lists[x]) for x in lists}
                new.update(self.grown)
                new.update(sp.state(k, loc))
                self.given = new
                self._set(f, new, loc)
                e = seq.elem(k)
                self.elem = seq.raw(e)
                # locals that the contract of the loop describes come last: what only they refer to is left to the contract
                self.snap = snapshot(dict(elem=e, item=self.elem, **(sp.roots or {}), **{'local %s' % x: y for x, y in f.f_locals.items() if x not in new},
                                          **{'contract %s' % x: y for x, y in new.items() if x not in lists}))
                sp.begin(k, self.elem, loc)
                return e
            k = n
            v.assume(k >= 0)
            new = {x: self._accval(acc[x], loc[x], k) for x in acc}
            new.update({x: _unknown_list(x) if lists[x] is None else AList(k, lists[x]) for x in lists})
            new.update(sp.state(k, loc))
            self._set(f, new, loc)
            if self._collects():
                self._completed(recs, k)
            sp.exit(k, dict(f.f_locals))
            raise StopIteration
        loc = dict(self.frame.f_locals)
        if self.mode == 'probe':
            v.probing -= 1
            if sp.probe:
                sp.probe_end(self.k, self.elem, loc, v.conditions(self.base), self.skey)
            grown = {x: (self.entry[x][len(y):] if loc.get(x) is self.entry[x] and len(self.entry[x]) >= len(y) and all(p is q for p, q in zip(self.entry[x], y)) else None) for x, y in self.before.items()}
            v.summ[self.skey].append((self.k.t, v.conditions(self.base), {x: (self.hat[x].t, _scalterm(loc.get(x))) for x in self.hat}, grown))
            v.end()
        if self.mode == 'generic':
            for x, t in self.acc.items():
                if t is not None and self.given[x] is not None and not isinstance(self.given[x], Poison):
                    v.prove('loop over %s: accumulated value' % self.seq.name, same(loc[x], self._accval(t, self.entry[x], self.k + 1)))
            for x, fn_ in self.acc_lists.items():
                g = self.grown[x]
                if fn_ is None or self.given[x] is not g:
                    continue
                v.check('loop over %s: one entry is added to the list' % self.seq.name, loc[x] is g and len(g.tail) == 1)
                if loc[x] is g and len(g.tail) == 1:
                    v.check('loop over %s: accumulated list' % self.seq.name, same(g.tail[0], fn_(self.k)))
            ch = diff(self.snap)
            bad = [c for c in ch if not c[0].startswith('contract ') and not sp.allows(c)]
            v.check('loop over %s: frame (unexpected change of %s)' % (self.seq.name, ', '.join(sorted(c[0] for c in bad))) if bad
                    else 'loop over %s: frame' % self.seq.name, not bad)
            if hasattr(self.seq, 'stable'):
                v.check('loop over %s: the bound is not changed by the body' % self.seq.name, self.seq.stable())
            sp.body(self.k, self.elem, loc, ch)
            v.end()
        raise VCError('loop state')

    def _scalars(self, loc):
        if not self.spec.accumulate:
            return []
        return [x for x in self.names if _scalterm(loc[x]) is not None]

    def _lists(self, loc):
        """local lists that nothing else refers to"""
        if not self.spec.accumulate:
            return {}
        return {x: loc[x] for x in list(loc) if type(loc[x]) is list and not loc[x] and _only_local(loc[x], loc)}

    def _collects(self):
        return self.leaves and type(self.spec).exit is LoopSpec.exit and type(self.spec).state is LoopSpec.state

    def _old(self, t, more=()):
        """no variable of a single iteration occurs"""
        for i in fv(t):
            nm = tm.byid(i).args[0]
            if i not in more and '~' in nm and int(nm.rsplit('~', 1)[1]) > self.pre:
                return False
        return True

    def _completed(self, recs, n):
        """every iteration of a loop that ran to its end has been completed"""
        if not recs:
            return
        bv = tm.pfresh('q', 'I')
        alts = []
        for k, facts, _, _ in recs:
            alts.append(tm.and_(*[tm.subst(c, {k: bv}) for c in flat(facts) if self._old(c, {k.id})]))
        c = tm.or_(*alts)
        if c is not TRUE:
            vc().assume(tm.forall([bv], tm.implies(tm.and_(tm.le(ZERO, bv), tm.lt(bv, n.t)), c)))

    def _appended(self, recs, loc):
        """lists extended by exactly one entry in every iteration: name -> entry as a function of the iteration (None: not determined)"""
        out = {}
        for x in self._lists(loc):
            gs = [r[3].get(x) for r in recs]
            if all(g is not None and not g for g in gs):
                continue            # untouched
            out[x] = None
            if not all(g is not None and len(g) == 1 for g in gs):
                continue
            kk = recs[0][0]
            try:
                vals = [(tm.and_(*[tm.subst(c, {r[0]: kk}) for c in flat(r[1])]), _deepsub(r[3][x][0], {r[0]: kk})) for r in recs]
            except VCError:
                continue
            val = vals[-1][1]
            ok = True
            for c, t in reversed(vals[:-1]):
                r = same(t, val)
                if r is True or type(r) is SB and r.t is TRUE:
                    continue
                if _scalterm(t) is None or _scalterm(val) is None or not self._old(c, {kk.id}):
                    ok = False
                    break
                val = S(tm.ite(c, _scalterm(t), _scalterm(val)))
            if not ok or not all(self._old(t, {kk.id}) for t in _terms(val)):
                continue
            out[x] = lambda i, val=val, kk=kk: _deepsub(val, {kk: term(i)})
        return out

    def _sums(self, recs, loc):
        out = {}
        for x in self._scalars(loc):
            out[x] = None
            if not recs:
                continue
            hats = set()
            for r in recs:
                hats |= {h.id for h, _ in r[2].values()}
            kk = recs[0][0]
            isb = isinstance(loc[x], bool) or type(loc[x]) is SB
            ends = [(tm.and_(*[tm.subst(c, {r[0]: kk}) for c in flat(r[1])]), r[2][x][0], None if r[2][x][1] is None else tm.subst(r[2][x][1], {r[0]: kk})) for r in recs]
            if any(e is None for _, _, e in ends):
                continue
            if any((e.sort == 'B') != isb for _, _, e in ends):
                continue
            kind = 'sum'
            if not any(fv(e) & hats for _, _, e in ends):
                kind, tt = 'last', [(c, e) for c, _, e in ends]      # overwritten in every iteration
            elif isb:
                continue
            else:
                tt = [(c, tm.canon(tm.sub(e, h))) for c, h, e in ends]
                if any(fv(t) & hats for _, t in tt):
                    continue
            if not all(self._old(t, {kk.id}) for _, t in tt):
                continue
            r = tt[-1][1]
            if not all(t is r for _, t in tt):
                if any(fv(c) & hats for c, t in tt[:-1]) or not all(self._old(c, {kk.id}) for c, t in tt[:-1]):
                    continue
                for c, t in reversed(tt[:-1]):
                    r = tm.ite(c, t, r)
            out[x] = (kk, r, kind)
        return out

    def _accval(self, a, x0, k):
        isb = isinstance(x0, bool) or type(x0) is SB
        if a is None:
            return vc().bool('flag') if isb else Poison('loop-carried local')
        kk, t, kind = a
        if kind == 'last':
            r = tm.ite(tm.le(term(k), ZERO), term(x0), tm.subst(t, {kk: tm.sub(term(k), tm.num(1))}))
            return SB(r) if isb else S(r)
        bv = tm.var('$acc', 'I')
        if not (fv(t) & {kk.id}):
            return S(tm.add(term(x0), tm.mul(term(k), t)))
        return S(tm.add(term(x0), tm.Sum(bv, ZERO, term(k), tm.subst(t, {kk: bv}))))

    def _set(self, f, new, loc):
        """havoc the locals assigned by the body"""
        d = f.f_locals
        for x in self.names:
            if x in new:
                d[x] = new[x]
            elif isinstance(loc[x], bool) or type(loc[x]) is SB:
                d[x] = vc().bool(x)
            else:
                d[x] = Poison('local %r of %s after a loop over %s' % (x, f.f_code.co_name, self.seq.name))
        for x in new:
            if x not in self.names:
                d[x] = new[x]
        ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))


def _scalterm(v):
    if isinstance(v, bool) or type(v) is SB:
        return term(v)
    return _numterm(v)


def _only_local(x, loc):
    import gc
    n = 0
    for r in gc.get_referrers(x):
        if r is loc or isinstance(r, (types.FrameType, types.CellType)):
            continue
        if isinstance(r, dict) and '__builtins__' not in r and len(r) <= len(loc) + 1 and all(k not in r or r[k] is loc[k] for k in loc):
            continue            # f_locals
        n += 1
    return n == 0


def _terms(v):
    if type(v) in (S, SB):
        return [v.t]
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return [t for x in v for t in _terms(x)]
    if isinstance(v, np.ndarray):
        return [t for x in v.ravel().tolist() for t in _terms(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in _terms(x)]
    return []


def _deepsub(v, m):
    if type(v) is S:
        return S(tm.subst(v.t, m))
    if type(v) is SB:
        return SB(tm.subst(v.t, m))
    if v is None or isinstance(v, (bool, int, float, str, bytes, np.generic)):
        return v
    if type(v) in (list, tuple):
        return type(v)(_deepsub(x, m) for x in v)
    if type(v) is dict:
        return {k: _deepsub(x, m) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        o.ravel()[:] = [_deepsub(x, m) for x in v.ravel().tolist()]
        return o
    raise VCError('entry of a list is not a function of the iteration')


def _unknown_list(x):
    return Poison('contents of the list %r after a loop' % x)


def _numterm(v):
    if type(v) is S:
        return v.t
    if isinstance(v, bool) or type(v) is SB:
        return None
    if isinstance(v, NUMERIC):
        return term(v)
    return None


def stored_names(frame):
    """locals assigned in the body of the loop the frame is executing"""
    ins = list(dis.get_instructions(frame.f_code))
    idx = next((i for i, x in enumerate(ins) if x.offset == frame.f_lasti), None)
    if idx is None:
        return [], False
    # find FOR_ITER at or before
    j = idx
    while j >= 0 and ins[j].opname != 'FOR_ITER':
        j -= 1
        if idx - j > 3:
            return [], False
    end = ins[j].argval
    live = _reach_head(ins, j, end, frame.f_code)
    out = []
    for p in range(j + 1, len(ins)):
        x = ins[p]
        if x.offset >= end:
            break
        if live is not None and p not in live:
            continue            # the loop is left after this store: no later iteration and no exhausted loop sees it
        if x.opname in ('STORE_FAST', 'STORE_DEREF', 'STORE_FAST_MAYBE_NULL'):
            if x.argval not in out:
                out.append(x.argval)
        elif x.opname in ('STORE_FAST_STORE_FAST', 'STORE_FAST_LOAD_FAST'):
            for n in (x.argval if isinstance(x.argval, tuple) else (x.argval,)):
                if n not in out:
                    out.append(n)
    return out, live is not None and any(p not in live for p in range(j + 1, len(ins)) if ins[p].offset < end)


def _reach_head(ins, j, end, code):
    """positions of the instructions of the loop body from which the loop head is reached again (None: not determined)"""
    lo, hi = ins[j].offset, end
    for e in getattr(dis.Bytecode(code), 'exception_entries', ()):
        if e.start < hi and e.end > lo:
            return None
    at = {x.offset: p for p, x in enumerate(ins)}
    body = [p for p in range(j + 1, len(ins)) if ins[p].offset < end]
    pred = {}
    for p in body:
        x = ins[p]
        succ = []
        if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
            t = x.argval
            while t not in at and t > 0:
                t -= 2
            if t not in at:
                return None
            succ.append(at[t])
        if not (x.opname.startswith(('RETURN', 'RAISE', 'RERAISE')) or x.opname in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT', 'JUMP_ABSOLUTE')):
            succ.append(p + 1)
        for q in succ:
            pred.setdefault(q, []).append(p)
    head = set(range(max(0, j - 2), j + 1))
    live, todo = set(), [p for h in head for p in pred.get(h, ())]
    while todo:
        p = todo.pop()
        if p in live:
            continue
        live.add(p)
        todo += pred.get(p, ())
    return live


class SymArr:
    """one-dimensional float/bool array of unknown length, elements given by a function of the index"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise VCError('slice of an array of unknown length')
        if type(i) is not S:
            i = S(num(int(i)))
            if tm.numval(i.t) < 0:
                i = self.n + i
        return self.f(i)

    def __vclen__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __vcarray__(self):
        return SymArr(self.n, self.f)
    copy = __vcarray__

    def __iter__(self):
        return iter(SymSeq('array', self.n, self.f))

    def __vclist__(self):
        return GList(self.n, self.f)
    tolist = __vclist__

    def astype(self, *a, **k):
        return self.__vcarray__()

    def _bin(op, swap=False):
        def g(self, o):
            if isinstance(o, SymArr):
                h = o.f
            elif isinstance(o, (S, SB, bool) + NUMERIC):
                h = lambda i: o
            else:
                return NotImplemented
            return SymArr(self.n, (lambda i: op(h(i), self.f(i))) if swap else (lambda i: op(self.f(i), h(i))))
        return g
    import operator as _op
    __add__, __radd__ = _bin(_op.add), _bin(_op.add, True)
    __sub__, __rsub__ = _bin(_op.sub), _bin(_op.sub, True)
    __mul__, __rmul__ = _bin(_op.mul), _bin(_op.mul, True)
    __truediv__, __rtruediv__ = _bin(_op.truediv), _bin(_op.truediv, True)
    __lt__, __le__, __gt__, __ge__ = _bin(_op.lt), _bin(_op.le), _bin(_op.gt), _bin(_op.ge)
    __and__ = _bin(lambda a, b: _b(a) & _b(b))
    __or__ = _bin(lambda a, b: _b(a) | _b(b))
    __eq__, __ne__ = _bin(_op.eq), _bin(_op.ne)
    __hash__ = object.__hash__

    def __invert__(self):
        return SymArr(self.n, lambda i: ~_b(self.f(i)))

    def __neg__(self):
        return SymArr(self.n, lambda i: -self.f(i))

    def __abs__(self):
        return SymArr(self.n, lambda i: abs(self.f(i)))

    def __vccomp__(self, kind, f, cond):
        return GList(self.n, self.f).__vccomp__(kind, f, cond)

    def __vcany__(self):
        return quant(self.n, self.f, True)

    def __vcall__(self):
        return quant(self.n, self.f, False)

    def any(self):
        return self.__vcany__()

    def all(self):
        return self.__vcall__()

    def __bool__(self):
        raise ValueError('truth value of an array')


def _b(x):
    return SB(TRUE if x else FALSE) if isinstance(x, bool) and type(x) is not SB else x


def quant(n, f, exists):
    """exists i < n: f(i) (or: forall), as a decision of the path"""
    v = vc()
    n = term(n)
    r = v.choose(True, False)
    if r == exists:
        i = v.int('i')
        v.assume(i >= 0)
        v.assume(tm.lt(i.t, n))
        x = term(f(i))
        v.assume(x if exists else tm.not_(x))
    else:
        bv = tm.pfresh('q', 'I')
        x = v.merged(lambda: f(S(bv)))
        x = tm.not_(x) if exists else x
        v.assume(tm.forall([bv], tm.implies(tm.and_(tm.le(ZERO, bv), tm.lt(bv, n)), x)))
    return r


class Filtered:
    """the entries of a sequence of unknown length for which cond holds: whether there are any, and the first one"""

    def __init__(self, seq, f, cond):
        self.seq, self.f, self.cond, self.known, self.started = seq, f, cond, None, False

    def _decide(self):
        if self.known is None:
            v, n = vc(), term(self.seq.n)
            self.known = v.choose(True, False)
            if self.known:
                self.j = v.int('first', 0)
                v.assume(tm.lt(self.j.t, n))
                v.assume(v.merged(lambda: self.cond(self.seq.elem(self.j))))
        return self.known

    def without(self, k):
        """fact about element k: before the first match, or anywhere if there is none, cond does not hold"""
        v = vc()
        x = v.merged(lambda: self.cond(self.seq.elem(k)))
        v.assume(tm.implies(tm.and_(tm.le(ZERO, term(k)), tm.lt(term(k), self.j.t if self.known else term(self.seq.n))), tm.not_(x)))

    @property
    def __class__(self):
        return list

    def __bool__(self):
        return self._decide()

    def __vclen__(self):
        if not self._decide():
            return 0
        if not hasattr(self, 'm'):
            self.m = vc().int('matches', 1)
        return self.m

    def __getitem__(self, i):
        if type(i) is S or i != 0:
            raise VCError('entry of a filtered sequence')
        if not self._decide():
            raise IndexError('list index out of range')
        return self.f(self.seq.memo(self.j))

    def __iter__(self):
        return self

    def __next__(self):
        if self.started:
            raise VCError('filtered sequence beyond its first entry')
        if not self._decide():
            raise StopIteration
        self.started = True
        return self[0]


class GList:
    """list of numbers of unknown length"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    @property
    def __class__(self):
        return list

    def __vclen__(self):
        return self.n

    def __len__(self):
        raise VCError('len of a list of unknown length')

    def __getitem__(self, i):
        return self.f(i if type(i) is S else S(num(int(i))))

    def __iter__(self):
        return iter(SymSeq('list', self.n, self.f))

    def __vcarray__(self):
        return SymArr(self.n, self.f)

    def __vclist__(self):
        return GList(self.n, self.f)

    def __vccomp__(self, kind, f, cond):
        if cond is not None or kind not in ('list', 'gen'):
            raise VCError('comprehension')
        return GList(self.n, lambda i: f(self.f(i)))

    def __vcall__(self):
        return self._q(False)

    def __vcany__(self):
        return self._q(True)

    def _q(self, ex):
        i = vc().int('e')
        x = vc().merged(lambda: self.f(i))
        if x is TRUE or x is FALSE:
            x = x is TRUE
            if x != ex:
                return not ex
            return (self.n > 0) if ex else bool(self.n == 0)
        return quant(self.n, self.f, ex)

    def __mul__(self, k):
        raise VCError('list repetition')


class AList(GList):
    """list filled by a loop: n entries f(0) .. f(n-1), then the entries added since"""

    def __init__(self, n, f):
        GList.__init__(self, n, f)
        self.tail = []

    def append(self, x):
        self.tail.append(x)

    def extend(self, xs):
        self.tail.extend(xs)

    def __iadd__(self, xs):
        self.tail.extend(xs)
        return self

    def __vclen__(self):
        return self.n + len(self.tail)

    def _plain(self):
        if self.tail:
            raise VCError('list that is being filled')

    def __getitem__(self, i):
        if type(i) is not S and not isinstance(i, slice) and i < 0:
            if -i <= len(self.tail):
                return self.tail[i]
            return self.f(self.n + (i + len(self.tail)))
        self._plain()
        return GList.__getitem__(self, i)

    def __setitem__(self, i, x):
        raise VCError('entry of a list that was filled by a loop is replaced')

    def __bool__(self):
        return True if self.tail else bool(self.n > 0)

    def __iter__(self):
        self._plain()
        return GList.__iter__(self)

    def __vcarray__(self):
        self._plain()
        return GList.__vcarray__(self)

    def __vclist__(self):
        self._plain()
        return GList.__vclist__(self)

    def __vccomp__(self, kind, f, cond):
        self._plain()
        return GList.__vccomp__(self, kind, f, cond)

    def _q(self, ex):
        self._plain()
        return GList._q(self, ex)


class SymMap:
    """mapping of unknown size: key(k), value(k) for k < n; lookup by key through `at`.
    canon: form of the elements that the contract of a loop speaks about ('items' / 'values'), whatever the loop runs over"""
    canon = None

    def __init__(self, name, n, key, value, at=None, has=None, spec=None, canon=None):
        self.name, self.n, self.key, self.value, self.at, self.has, self.spec = name, n, key, value, at, has, spec
        if canon is not None:
            self.canon = canon

    def _key(self, k):
        if not hasattr(self, '_keys'):
            self._keys, self._vals = {}, {}
        t = term(k)
        if t not in self._keys:
            self._keys[t] = self.key(k)
        return self._keys[t]

    def _val(self, k):
        self._key(k)
        t = term(k)
        if t not in self._vals:
            self._vals[t] = self.value(k)
        return self._vals[t]

    def _view(self, f):
        forms = {'items': lambda k: (self._key(k), self._val(k)), 'values': self._val, 'keys': self._key}
        last = [None]

        def elem(k):
            last[0] = k
            return forms[f](k)
        same_form = self.canon in (None, f)
        return SymSeq(self.name, self.n, elem, self.spec, None if same_form else lambda e: forms[self.canon](last[0]))

    def items(self):
        return self._view('items')

    def values(self):
        return self._view('values')

    def keys(self):
        return self._view('keys')

    def __iter__(self):
        return iter(self.keys())

    def __getitem__(self, k):
        if self.at is not None:
            return self.at(k)
        for t, x in getattr(self, '_keys', {}).items():
            if x is k or type(x) is Str and type(k) is Str and x.parts == k.parts:
                return self._val(S(t))
        raise VCError('lookup in %s' % self.name)

    def __contains__(self, k):
        if self.has is None:
            for x in getattr(self, '_keys', {}).values():
                if x is k or type(x) is Str and type(k) is Str and x.parts == k.parts:
                    return True
            raise VCError('membership in %s' % self.name)
        return bool(self.has(k))

    def __bool__(self):
        return bool(self.n > 0)

    def get(self, k, d=None):
        return self[k] if k in self else d


# ---------------------------------------------------------------- builtins and libraries on symbolic values
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls.real)

    def __call__(cls, *a):
        return cls.conv(*a)

    def __eq__(cls, o):
        return o is cls.real or o is cls

    def __hash__(cls):
        return hash(cls.real)


def _float(x=0.0):
    if type(x) is S:
        return S(tm.toreal(x.t)) if x.t.sort == 'I' else x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _float(x.ravel()[0])
    return builtins.float(x)


def _int(x=0, *a):
    if type(x) is S:
        return x if x.t.sort == 'I' else x.__trunc__()
    return builtins.int(x, *a)


class vfloat(metaclass=_NumMeta):
    real = float
    conv = staticmethod(_float)


def _str(*a, **k):
    if builtins.len(a) == 1 and not k:
        if type(a[0]) is Str:
            return a[0]
        f = getattr(type(a[0]), '__vcstr__', None)
        if f is not None:
            return f(a[0])
    return builtins.str(*a, **k)


class _TextMeta(_NumMeta):
    def __getattr__(cls, nm):
        return getattr(str, nm)


class vstr(metaclass=_TextMeta):
    real, conv = str, staticmethod(_str)


class vint(metaclass=_NumMeta):
    real = int
    conv = staticmethod(_int)


def vlen(x):
    if isinstance(x, (SymSeq, SymMap)) or hasattr(x, '__vclen__'):
        n = x.n if isinstance(x, (SymSeq, SymMap)) else x.__vclen__()
        if CUR[0] is not None and type(n) is S and not isinstance(x, GList) and type(x) is not SymArr:
            q = symseq(x)
            if q is not None and q.spec is not None:
                LENS[n.t.id] = q
        return n
    return builtins.len(x)


def symseq(x):
    """x as a symbolic sequence, None if it is not one"""
    if isinstance(x, SymMap):
        return x.keys()
    if isinstance(x, SymSeq):
        return x
    if type(x) is CutIter:
        return x.seq if x.mode is None else None
    if type(x).__module__.startswith(('contracts', 'vcg')) and hasattr(type(x), '__iter__'):
        it = iter(x)
        if type(it) is CutIter:
            return it.seq
    return None


def _cut_guard(x, what):
    """elements of x; refuses if they come from a cut loop (an element then stands for any one)"""
    n0 = CutIter.started
    for e in x:
        if CutIter.started != n0:
            raise VCError('%s over a symbolic sequence' % what)
        yield e


def venumerate(x, start=0):
    q = symseq(x)
    if q is not None:
        return SymSeq(q.name, q.n, lambda k: (k + start if type(start) is S or start else k, q.elem(k)), q.spec, lambda e: q.raw(e[1]))
    return builtins.enumerate(_cut_guard(x, 'enumerate'), start)


def vzip(*xs, **k):
    qs = [symseq(x) for x in xs]
    if not xs or all(q is None for q in qs):
        return builtins.zip(*[_cut_guard(x, 'zip') for x in xs], **k)
    if any(q is None for q in qs):
        raise VCError('zip of symbolic and other sequences')
    n = qs[0].n
    for q in qs[1:]:
        vc().check('zip: sequences of equal length', same(q.n, n))
    sp = [i for i, q in enumerate(qs) if q.spec is not None]
    j = sp[0] if sp else 0
    return SymSeq('zip', n, lambda i: tuple(q.elem(i) for q in qs), qs[j].spec, lambda e: qs[j].raw(e[j]))


def vreversed(x):
    q = symseq(x)
    if q is not None:
        raise VCError('reversed symbolic sequence')
    return builtins.reversed(x)


def _guarded(name):
    f = getattr(builtins, name)

    def g(*a, **k):
        return f(*[_cut_guard(x, name) if hasattr(type(x), '__next__') else _refuse(x, name) for x in a], **k)
    return g


def _refuse(x, what):
    if symseq(x) is not None:
        raise VCError('%s of a symbolic sequence' % what)
    return x


RANGE_SPECS = {}


class VRange(SymSeq):
    def __init__(self, a, b):
        n = b - a
        SymSeq.__init__(self, 'range', S(tm.ite(tm.le(ZERO, term(n)), term(n), ZERO)), lambda k: a + k)
        self.start, self.stop, self.step = a, b, 1

    @property
    def spec(self):
        if term(self.start) is ZERO:
            q = LENS.get(term(self.stop).id)
            if q is not None:
                self.raw = q.memo
                return q.spec
        q = COUNTS.get(count_key(self.stop - self.start)) if COUNTS else None
        return RANGE_SPECS.get('range') if q is None else q

    @spec.setter
    def spec(self, v):
        pass


def count_key(x):
    return frozenset(nf(term(x)).items())


COUNTS = {}     # count_key of a count of a count -> contract of loops that run that many times
LENS = {}       # lengths asked for so far: range(len(x)) is a loop over the positions of x


class WRange:
    """the values i runs through in `while i < E: ...; i += 1` (off: incremented first)"""

    def __init__(self, i0, bound, off):
        self.i0, self.bound, self.off = i0, bound, off

    def __iter__(self):
        e = self.bound()
        if type(e) is S or type(self.i0) is S:
            if term(e).sort != 'I' or term(self.i0).sort != 'I':
                raise VCError('while loop over numbers that are not integers')
            self.e = e
            q = VRange(self.i0 + self.off, e + self.off)
            q.stable = lambda: same(self.bound(), e)
            return iter(q)
        return self._concrete()

    def _concrete(self):
        i = self.i0
        self.last = i
        while i < self.bound():
            i += 1
            self.last = i
            yield i if self.off else i - 1

    def end(self):
        if hasattr(self, 'last'):
            return self.last
        return S(tm.ite(tm.lt(term(self.i0), term(self.e)), term(self.e), term(self.i0)))


def vrange(*a):
    if any(type(x) is S for x in a):
        if len(a) == 1:
            return VRange(0, a[0])
        if len(a) == 2:
            return VRange(a[0], a[1])
        raise VCError('range with step')
    return builtins.range(*a)


def vall(x):
    if hasattr(x, '__vcall__'):
        return x.__vcall__()
    return builtins.all(x)


def vany(x):
    if hasattr(x, '__vcany__'):
        return x.__vcany__()
    return builtins.any(x)


def vsum(x, start=0):
    if isinstance(x, SymSeq):
        bv = S(tm.var('$sum', 'I'))
        return S(tm.add(term(start), tm.Sum(bv.t, ZERO, term(x.n), term(x.elem(bv)))))
    return builtins.sum(x, start)


def _list(x=()):
    if isinstance(x, (SymSeq,)):
        return x
    if hasattr(x, '__vclist__'):
        return x.__vclist__()
    return builtins.list(x)


class vlist(metaclass=_NumMeta):
    real = list
    conv = staticmethod(_list)


def vsqrt(x):
    return x.sqrt() if type(x) is S else math.sqrt(x)


def _m1(name, real):
    def f(x):
        return S(tm.fn(name, x.t)) if type(x) is S else real(x)
    return f


def _m2(name, real):
    def f(x, y):
        if type(x) is S or type(y) is S:
            return S(tm.fn(name, term(x), term(y)))
        return real(x, y)
    return f


def vceil(x):
    return S(tm.ceil(x.t)) if type(x) is S else math.ceil(x)


def vabs(x):
    return builtins.abs(x)


MATH = {math.sqrt: vsqrt, math.ceil: vceil, math.sin: _m1('sin', math.sin), math.cos: _m1('cos', math.cos), math.tan: _m1('tan', math.tan),
        math.asin: _m1('asin', math.asin), math.atan2: _m2('atan2', math.atan2),
        math.radians: lambda x: x.deg2rad() if type(x) is S else math.radians(x),
        math.degrees: lambda x: x.rad2deg() if type(x) is S else math.degrees(x)}


def has_sym(x):
    if type(x) in (S, SB):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class NP:
    """numpy with object arrays for symbolic numbers"""

    def __init__(self):
        self.hooks = {}

    def __getattr__(self, nm):
        h = self.__dict__.get('hooks', {})
        return h[nm] if nm in h else getattr(np, nm)

    def array(self, x, dtype=None, order=None, copy=True, **k):
        if hasattr(x, '__vcarray__'):
            return x.__vcarray__()
        if dtype in (vfloat, vint):
            dtype = dtype.real
        if has_sym(x):
            a = np.array(x, dtype=object)
            if dtype is float:
                o = np.empty(a.shape, dtype=object)
                for i in np.ndindex(a.shape):
                    o[i] = _float(a[i])
                a = o
            return a
        if dtype is float:
            return np.array(np.array(x, dtype=float), dtype=object) if self.objects else np.array(x, dtype=float)
        return np.array(x, dtype=dtype) if dtype is not None else np.array(x)
    objects = False

    def asarray(self, x, dtype=None, **k):
        return self.array(x, dtype=dtype)

    @property
    def linalg(self):
        return _Linalg(self)

    def zeros(self, shape, dtype=None, order='C'):
        return self._fill(shape, 0.0 if dtype in (None, vfloat, float) else 0, dtype)

    def ones(self, shape, dtype=None, order='C'):
        return self._fill(shape, 1.0 if dtype in (None, vfloat, float) else 1, dtype)

    def _fill(self, shape, val, dtype):
        sh = shape if isinstance(shape, tuple) else (shape,)
        if any(type(s) is S for s in sh):
            if 'alloc' in self.hooks:
                return self.hooks['alloc'](sh, val, dtype)
            raise VCError('array of symbolic shape')
        a = np.empty(shape, dtype=object)
        a.fill(val)
        return a

    def linspace(self, a, b, n=50, **k):
        if type(n) is S or type(a) is S or type(b) is S:
            return SymSeq('linspace', n, lambda k: a + k * (b - a) / (n - 1), RANGE_SPECS.get('linspace'))
        return np.linspace(a, b, n, **k)

    def all(self, x, **k):
        return vall(x)

    def any(self, x, **k):
        return vany(x)

    def abs(self, x):
        return abs(x) if isinstance(x, (SymArr, S)) else np.abs(x)
    absolute = fabs = abs

    def logical_or(self, a, b):
        return a | b if isinstance(a, SymArr) or isinstance(b, SymArr) else np.logical_or(a, b)

    def logical_and(self, a, b):
        return a & b if isinstance(a, SymArr) or isinstance(b, SymArr) else np.logical_and(a, b)

    def logical_not(self, a):
        return ~a if isinstance(a, SymArr) else np.logical_not(a)


class _Linalg:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, nm):
        return self.p.hooks.get('linalg.' + nm) or getattr(np.linalg, nm)


def _vc_comp(kind, it, f, cond):
    if hasattr(it, '__vccomp__'):
        return it.__vccomp__(kind, f, cond)
    if isinstance(it, SymMap):
        it = it.keys()
    if isinstance(it, SymSeq) and cond is None and kind in ('list', 'gen'):
        return SymSeq(it.name, it.n, lambda k: f(it.elem(k)), it.spec)
    if isinstance(it, SymSeq) and it.spec is not None and kind in ('list', 'dict'):
        from vcg import comp
        return (comp.list_loop if kind == 'list' else comp.dict_loop)(it, f, cond)
    if isinstance(it, SymSeq):
        raise VCError('filtered comprehension over a sequence of unknown length')
    g = (f(x) for x in it if cond is None or cond(x))
    if kind == 'gen':
        return g
    if kind == 'list':
        return builtins.list(g)
    if kind == 'set':
        return builtins.set(g)
    return builtins.dict(g)


def _vc_fstr(*parts):
    """formatted string literal; unknown texts and numbers stay unknown"""
    out = []
    for p in parts:
        if isinstance(p, tuple) and type(p) is tuple:
            x, conv, spec = p
            if type(x) is Str and conv in (-1, 115) and spec in ('', 's'):
                out.append(x)
                continue
            if type(x) in (S, SB, Str):
                if type(x) is S and x.t.sort == 'I' and spec.endswith('d'):
                    spec = spec[:-1]
                t = sorted(builtins.map(builtins.repr, nf(x.t).items())) if type(x) is S else x.t() if type(x) is Str else x.t
                out.append(Str([Atom('format(%r,%s,%s)' % (t, conv, spec))]))
                continue
            x = {115: builtins.str, 114: builtins.repr, 97: builtins.ascii}.get(conv, lambda y: y)(x)
            out.append(builtins.format(x, spec))
        else:
            out.append(p)
    if any(type(x) is Str for x in out):
        return Str([q for x in out for q in (x.parts if type(x) is Str else (x,))])
    return ''.join(out)


def _vc_format(x, a, k):
    """x.format(*a, **k)"""
    if not (isinstance(x, str) and any(type(y) in (S, SB, Str) for y in list(a) + list(k.values()))):
        return x.format(*a, **k)
    if type(x) is Str:
        raise VCError('unknown format text')
    parts, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(x):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            field, n = str(n), n + 1
        if '{' in (spec or '') or not (field.isdigit() or field.isidentifier()):
            raise VCError('format field ' + field)
        parts.append((a[int(field)] if field.isdigit() else k[field], ord(conv) if conv else -1, spec or ''))
    return _vc_fstr(*parts)


def _vc_mod(x, y):
    """x % y"""
    ys = y if type(y) is tuple else (y,)
    if not (type(x) is str and any(type(q) in (S, SB, Str) for q in ys)):
        return x % y
    parts, i = [], 0
    ys = list(ys)
    for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)([sdr%])', x):
        parts.append(x[i:m.start()])
        i = m.end()
        if m.group(2) == '%':
            parts.append('%')
        else:
            q = ys.pop(0)
            parts.append((q, 114 if m.group(2) == 'r' else 115 if m.group(2) == 's' and type(q) is Str else -1, m.group(1)))
    if ys or '%' in x[i:]:
        raise VCError('text formatting with %')
    return _vc_fstr(*(parts + [x[i:]]))


WHILE_SPEC = [None]


def _vc_while(site):
    """`while C: B` runs as `for _ in _vc_while(site): if not C: break; B`"""
    sp = WHILE_SPEC[0]
    sp = sp(site) if callable(sp) and not isinstance(sp, LoopSpec) else sp
    if sp is None or CUR[0] is None:
        return iter(builtins.int, 1)
    return CutIter(SymSeq('while (%s)' % site, None, lambda k: k, sp))


class _Comp(ast.NodeTransformer):
    nwhile = 0

    def _counted(self, n):
        """`while i < E` with one `i += 1` as first or last statement of the body, as a loop over a range (E is checked not to change)"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r, op = r, l, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not (isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE))):
            return None
        i = l.id
        if any(isinstance(x, ast.NamedExpr) or isinstance(x, ast.Name) and x.id == i for x in ast.walk(r)):
            return None
        inc = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == i and not isinstance(x.ctx, ast.Load)]

        def step(b):
            return isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == i and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and type(b.value.value) is int and b.value.value == 1
        if len(inc) != 1 or any(isinstance(x, (ast.Global, ast.Nonlocal)) for b in n.body for x in ast.walk(b)):
            return None

        def cont(b):
            if isinstance(b, ast.Continue):
                return True
            if isinstance(b, (ast.For, ast.While)):
                return any(cont(x) for x in b.orelse)
            return any(cont(x) for x in ast.iter_child_nodes(b))
        if step(n.body[0]):
            off, body = 1, n.body[1:]
        elif step(n.body[-1]) and not any(cont(b) for b in n.body):
            off, body = 0, n.body[:-1]
        else:
            return None
        _Comp.nwhile += 1
        w = '_vc_range%d' % _Comp.nwhile
        bound = ast.BinOp(left=r, op=ast.Add(), right=ast.Constant(value=1)) if isinstance(op, ast.LtE) else r
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=bound)
        load, store = ast.Load(), ast.Store()
        return [ast.copy_location(x, n) for x in (
            ast.Assign(targets=[ast.Name(id=w, ctx=store)], value=ast.Call(func=ast.Name(id='_vc_range', ctx=load), args=[ast.Name(id=i, ctx=load), lam, ast.Constant(value=off)], keywords=[])),
            ast.For(target=ast.Name(id=i, ctx=store), iter=ast.Name(id=w, ctx=load), body=body or [ast.Pass()],
                    orelse=[ast.Assign(targets=[ast.Name(id=i, ctx=store)], value=ast.Call(func=ast.Attribute(value=ast.Name(id=w, ctx=load), attr='end', ctx=load), args=[], keywords=[]))] + n.orelse))]

    def visit_While(self, n):
        self.generic_visit(n)
        c = self._counted(n)
        if c is not None:
            return c
        if n.orelse:
            return n
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        it = ast.Call(func=ast.Name(id='_vc_while', ctx=ast.Load()), args=[ast.Constant(value=self.func)], keywords=[])
        return ast.copy_location(ast.For(target=ast.Name(id='_vc_w', ctx=ast.Store()), iter=it, body=[test] + n.body, orelse=[]), n)
    func = ''

    def _do(self, node, kind, elt):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)) or self.in_class:
            return node
        tgt = g.target

        def lam(body):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=tgt.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            # unpacking: (lambda _p: [body for tgt in (_p,)][0])
            inner = ast.Subscript(value=ast.ListComp(elt=body, generators=[ast.comprehension(target=tgt, iter=ast.Tuple(elts=[ast.Name(id='_vc_p', ctx=ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)]),
                                  slice=ast.Constant(value=0), ctx=ast.Load())
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='_vc_p')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
        elt = elt if elt is not None else node.elt
        c = ast.Constant(value=None)
        if g.ifs:
            c = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return ast.copy_location(ast.Call(func=ast.Name(id='_vc_comp', ctx=ast.Load()), args=[ast.Constant(value=kind), g.iter, lam(elt), c], keywords=[]), node)
    in_class = False

    def visit_ClassDef(self, n):
        # class level comprehensions stay as they are
        old = self.in_class
        self.in_class = True
        n.body = [self.visit(x) for x in n.body]
        self.in_class = old
        return n

    def visit_FunctionDef(self, n):
        old = self.in_class, self.func
        self.in_class, self.func = False, n.name
        self.generic_visit(n)
        self.in_class, self.func = old
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not any(isinstance(x, ast.FormattedValue) for x in n.values):
            return n
        args = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                args.append(ast.Tuple(elts=[x.value, ast.Constant(value=x.conversion), x.format_spec or ast.Constant(value='')], ctx=ast.Load()))
            else:
                args.append(x)
        return ast.copy_location(ast.Call(func=ast.Name(id='_vc_fstr', ctx=ast.Load()), args=args, keywords=[]), n)

    def visit_Expr(self, n):
        # `yield from X` as a statement is a loop that yields every element
        if isinstance(n.value, ast.YieldFrom):
            x = n.value.value
            y = ast.Name(id='_vc_y', ctx=ast.Load())
            tgt, it, elt, ifs = ast.Name(id='_vc_y', ctx=ast.Store()), x, y, []
            if isinstance(x, ast.GeneratorExp) and len(x.generators) == 1 and not x.generators[0].is_async and not self.in_class:
                g = x.generators[0]
                tgt, it, elt, ifs = g.target, g.iter, x.elt, g.ifs
            body = [ast.Expr(value=ast.Yield(value=elt))]
            for c in reversed(ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            return self.visit(ast.fix_missing_locations(ast.copy_location(ast.For(target=tgt, iter=it, body=body, orelse=[]), n)))
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            args = [n.func.value, ast.Tuple(elts=n.args, ctx=ast.Load()), ast.Dict(keys=[ast.Constant(value=k.arg) for k in n.keywords], values=[k.value for k in n.keywords])]
            return ast.copy_location(ast.Call(func=ast.Name(id='_vc_format', ctx=ast.Load()), args=args, keywords=[]), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name(id='_vc_mod', ctx=ast.Load()), args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_ListComp(self, n):
        return self._do(n, 'list', None)

    def visit_SetComp(self, n):
        return self._do(n, 'set', None)

    def visit_GeneratorExp(self, n):
        return self._do(n, 'gen', None)

    def visit_DictComp(self, n):
        return self._do(n, 'dict', ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Comp().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['_vc_comp'] = _vc_comp
        module.__dict__['_vc_while'] = _vc_while
        module.__dict__['_vc_range'] = WRange
        module.__dict__['_vc_fstr'] = _vc_fstr
        module.__dict__['_vc_format'] = _vc_format
        module.__dict__['_vc_mod'] = _vc_mod
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        sp = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [self.lib])
        if sp is not None and isinstance(sp.loader, importlib.machinery.SourceFileLoader):
            sp.loader = _Loader(sp.loader.name, sp.loader.path)
        return sp


_loaded = [None]
SHIMS = {'len': vlen, 'enumerate': venumerate, 'zip': vzip, 'reversed': vreversed, 'sorted': _guarded('sorted'), 'range': vrange, 'all': vall, 'any': vany, 'sum': vsum, 'list': vlist, 'float': vfloat, 'int': vint, 'str': vstr}


def load(*mods, shims=True):
    """imports the modules of the package from VERIF_LIB under the verifier; returns them"""
    import os
    import logging
    import warnings
    lib = os.environ['VERIF_LIB']
    if _loaded[0] is None:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        sys.dont_write_bytecode = True
        for m in list(sys.modules):
            if m == PKG or m.startswith(PKG + '.'):
                del sys.modules[m]
        sys.meta_path.insert(0, _Finder(lib))
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
        _loaded[0] = NP()
    out = []
    for m in mods:
        mod = importlib.import_module(PKG + '.' + m)
        if not mod.__file__.startswith(lib):
            raise VCError('module %s loaded from %s' % (m, mod.__file__))
        if shims:
            for k, v in SHIMS.items():
                if k not in mod.__dict__:
                    mod.__dict__[k] = v
            for k, v in list(mod.__dict__.items()):
                if v is np:
                    mod.__dict__[k] = _loaded[0]
                elif v is math:
                    mod.__dict__[k] = _MathProxy()
                else:
                    try:
                        if v in MATH:
                            mod.__dict__[k] = MATH[v]
                    except TypeError:
                        pass
        out.append(mod)
    return out if len(out) > 1 else out[0]


def load_external(name):
    """module of an installed package under the verifier (a copy: the package itself is not touched)"""
    import importlib.util
    if _loaded[0] is None:
        load('objects.aircraft')
    spec = importlib.util.find_spec(name)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    for k, v in SHIMS.items():
        if k not in mod.__dict__:
            mod.__dict__[k] = v
    for k, v in list(mod.__dict__.items()):
        if v is np:
            mod.__dict__[k] = _loaded[0]
        elif v is math:
            mod.__dict__[k] = _MathProxy()
    return mod


class _MathProxy:
    def __getattr__(self, nm):
        r = getattr(math, nm)
        try:
            return MATH.get(r, r)
        except TypeError:
            return r


def npx():
    return _loaded[0]


def raises(f, *a, **k):
    """-> (result, exception)"""
    try:
        return f(*a, **k), None
    except (VCError, AssertionError):
        raise
    except Exception as e:
        if isinstance(e, TypeError) and 'symbolic' in str(e):
            raise VCError(str(e))
        return None, e

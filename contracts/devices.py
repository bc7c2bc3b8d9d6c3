"""contracts of the placement of control surfaces on strips (objects/aircraft.py, aero/vlm.py)"""
from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, SymMap, SymSeq, LoopSpec, U, raises, same, snapshot, diff, term, Poison
from contracts.strips import T, imp, ite, cov, ea, eb, mk, Strips
from contracts.geom import mk_wing
from contracts.wing import Any


# ---------------------------------------------------------------- outer neighbour
class RunningMax(LoopSpec):
    """loop over all strips that keeps the one whose inner end is the largest not beyond x"""
    accumulate = False

    def __init__(self, m, x, probe):
        self.m, self.x, self.j = m, x, probe       # probe: any strip index (fixed, arbitrary)

    def roles(self, loc):
        ks = [n for n in loc if loc[n] is None and n not in ('self',)]
        ds = [n for n in loc if type(loc[n]) is int and loc[n] == 1]
        return ks, ds

    def inv(self, k, none, best, d):
        """after k iterations; none: nothing found yet, best: index of the strip found"""
        x, j = self.x, self.j
        ok = lambda i: T(ea(i) <= x, x - ea(i) < 1)
        return T(imp(none, T(same(d, 1))), imp(~none, T(best >= 0, best < self.m.N, best < k, ok(best), same(d, x - ea(best)))),
                 imp(T(j < k, ok(j)), T(~none, ea(j) <= ea(best))))

    def init(self, k, loc):
        self.r = self.roles(loc)
        if len(self.r[0]) != 1 or len(self.r[1]) != 1:
            ps.vc().check('search for the outer neighbour keeps one strip and one distance', False)

    def state(self, k, loc):
        v = ps.vc()
        none = v.choose(True, False)
        best = S(tm.ZERO) if none else v.int('best', 0)
        d = 1 if none else self.x - ea(best)
        v.assume(self.inv(k, SB(tm.TRUE if none else tm.FALSE), best, S(tm.num(1)) if none else d))
        a, b = self.r
        return {a[0]: None if none else self.m.at(best), b[0]: d}

    def body(self, k, elem, loc, changed):
        v = ps.vc()
        a, b = self.r
        st, d = loc[a[0]], loc[b[0]]
        best = [t for t, z, sn in self.m.made if z is st]
        none = st is None
        v.check('the strip kept is one of the segment', none or len(best) == 1)
        v.check('the outermost strip so far that does not start beyond the position is kept',
                self.inv(k + 1, SB(tm.TRUE if none else tm.FALSE), best[0] if best else S(tm.ZERO), d if type(d) is S else S(tm.num(d))))


def g_neighbour():
    """G04: the strip outside of a division line"""
    ac = ps.load('objects.aircraft')
    V = VC('outer neighbour', ['WingSegment._get_outer_neighbour_subdiv'])

    def go():
        v = ps.vc()
        w, s, m = mk(v, ac)
        j = v.int('j', 0)
        v.assume(j < m.N)
        x = v.real('eta')
        v.assume(T(x > 0, x < 1))
        m.n_at(j)
        m.point(x)
        pos = x + ac.MIN_ETA_LIMIT / 10
        m.spec = RunningMax(m, pos, j)
        r, e = raises(s._get_outer_neighbour_subdiv, x)
        v.check('no error', e is None)
        v.check('no strip is changed', not m.changed())
        c = cov(x)
        if r is None:
            v.check('a strip is found for a line inside (0, 1)', ~T(same(j, c), pos - ea(c) < 1))
            return
        t = [t for t, z, sn in m.made if z is r]
        v.check('result is a strip of the segment', len(t) == 1)
        if t:
            v.check('it does not start beyond the line by more than a tenth of the minimum width', ea(t[0]) <= pos)
            v.check('it is the outermost such strip', imp(T(ea(j) <= pos, pos - ea(j) < 1), ea(j) <= ea(t[0])))
    V.run('neighbour', go)
    return V


# ---------------------------------------------------------------- strips of a control
def rowk(i):
    return U('rowk', i, sort='I')


class Rows:
    """list of rows [strip, xsi inner, xsi outer, hinge inner, hinge outer]: L rows given by a function, then a list of real rows"""

    def __init__(self, L, row, tail, spec=None):
        self.L, self.row, self.tail, self.spec = L, row, tail, spec

    def __vclen__(self):
        return self.L + len(self.tail)

    def __bool__(self):
        return bool(self.__vclen__() > 0)

    def append(self, x):
        self.tail.append(x)

    def last(self):
        if not self.tail:
            ps.vc().check('the list is not empty', self.L >= 1)
            self.L = self.L - 1
            self.tail.append(self.row(self.L))
        return self.tail

    def pop(self, *a):
        if a not in ((), (-1,)):
            raise ps.VCError('pop from the middle')
        return self.last().pop()

    def at(self, i):
        if not self.tail or bool(i < self.L):
            return self.row(i)
        for n, r in enumerate(self.tail):
            if n == len(self.tail) - 1 or bool(i == self.L + n):
                return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, None):
                return self
            raise ps.VCError('slice of rows')
        if type(i) is not S and i == -1:
            return self.last()[-1]
        return self.at(i if type(i) is S else S(tm.num(i)))

    def __iter__(self):
        return iter(SymSeq('strips of the control', self.__vclen__(), self.at, self.spec))


def ghosts(m):
    """what the model of the strips of a segment remembers about its own unfolding"""
    return [m.xs, m.ks, m.made]


def g_control():
    """G04: the strips of a control surface on one segment"""
    ac = ps.load('objects.aircraft')
    V = VC('control on a segment', ['WingSegment.add_subdivision_for_control'])
    lim = ac.MIN_ETA_LIMIT
    dl = lim / 10

    class Grow(LoopSpec):
        """while loop: goes on to the next strip outside"""
        accumulate = False

        def __init__(self, c):
            self.c = c

        def allows(self, change):
            m = self.c.m
            return change[1] is m or any(change[1] is x for x in ghosts(m))

        def init(self, k, loc):
            c, v = self.c, ps.vc()
            rows = [n for n in loc if isinstance(loc[n], list) and loc[n] and isinstance(loc[n][0], list) and len(loc[n][0]) == 5]
            sts = [n for n in loc if isinstance(loc[n], ac.SegmentStrip) and loc[n] is loc[rows[0]][-1][0]] if len(rows) == 1 else []
            v.check('strips of the control are kept in a list', len(rows) == 1 and len(loc[rows[0]]) == 2 and len(sts) >= 1)
            self.rows = rows[0]
            l = loc[self.rows]
            a, b = l
            i, q = c.index(a[0]), c.index(b[0])
            v.check('rows: first strip', T(i == c.j))
            self.row_ok('rows: first row', a, S(tm.ZERO), c.j)
            v.check('rows: second strip starts at the end of the first', T(c.follows(c.j, q)))
            self.last_ok('rows: last row', b, c.j)
            self.kinds = {}
            for n, x in loc.items():
                if x is b[0]:
                    self.kinds[n] = 'strip'
                elif n not in self.names:
                    continue
                elif type(x) is int and x == 0:
                    self.kinds[n] = 'count'
                elif type(x) is S and (same(x, b[0].rel_vertices['eta_b']) is True or term(same(x, b[0].rel_vertices['eta_b'])) is tm.TRUE):
                    self.kinds[n] = 'end'

        def row_ok(self, what, r, i, k):
            """row i for strip k, finished"""
            c, v = self.c, ps.vc()
            first = ite(i == 0, c.xsi[0], c.X(eb(rowk(i - 1))))
            hfirst = ite(i == 0, c.h[0], c.H(eb(rowk(i - 1))))
            v.check('%s: inner edge continues the strip before' % what, same(r[1], first))
            v.check('%s: outer edge on the line of the control at the end of the strip' % what, same(r[2], c.X(eb(k))))
            v.check('%s: inner hinge position continues the strip before' % what, same(r[3], hfirst))
            v.check('%s: outer hinge position on the hinge line at the end of the strip' % what, same(r[4], c.H(eb(k))))

        def last_ok(self, what, r, k):
            """last row, after strip k: goes to the end of the control"""
            c, v = self.c, ps.vc()
            v.check('%s: inner edge continues the strip before' % what, same([r[1], r[3]], [c.X(eb(k)), c.H(eb(k))]))
            v.check('%s: outer edge and hinge are those of the control' % what, same([r[2], r[4]], [c.xsi[1], c.h[1]]))

        def state(self, k, loc):
            c, v = self.c, ps.vc()
            v.assume(same(rowk(S(tm.ZERO)), c.j))
            p, q = rowk(k), rowk(k + 1)
            v.assume(T(p >= 0, p < c.m.N, q >= 0, q < c.m.N))
            c.m.n_at(p)
            st = c.m.at(q)
            v.assume(T(c.follows(p, q), eb(p) < c.eta_b))
            L = Rows(k + 1, c.row, [[st, c.X(eb(p)), c.xsi[1], c.H(eb(p)), c.h[1]]], c.place)
            self.L = L
            new = {self.rows: L}
            for n, kd in self.kinds.items():
                new[n] = {'strip': st, 'count': k, 'end': eb(q)}[kd]
            return new

        def body(self, k, elem, loc, changed):
            c, v = self.c, ps.vc()
            l = loc[self.rows]
            v.check('one strip is added per iteration', l is self.L and len(l.tail) == 2)
            if l is not self.L or len(l.tail) != 2:
                return
            a, b = l.tail
            p, q = c.index(a[0]), c.index(b[0])
            v.check('strip before stays', T(p == rowk(k + 1)))
            v.check('strip before ends inside the control', eb(p) < c.eta_b)
            self.row_ok('finished row', a, k + 1, p)
            v.check('next strip starts at the end of the strip before', T(c.follows(p, q)))
            self.last_ok('last row', b, p)
            for n, kd in self.kinds.items():
                ok = {'strip': loc[n] is b[0], 'count': same(loc[n], k + 1), 'end': same(loc[n], eb(q))}[kd]
                v.check('loop variable (%s)' % kd, ok)

    class Place(LoopSpec):
        """loop over the strips of the control: one part on each"""
        accumulate = False
        allow = ('',)

        def __init__(self, c):
            self.c = c

        def begin(self, k, elem, loc):
            self.c.calls = []

        def body(self, k, elem, loc, changed):
            self.c.placed(elem, 'strip of the control')

        def exit(self, n, loc):
            self.c.calls = 'all'

    class C:
        pass

    def go(case):
        v = ps.vc()
        c = C()
        w, s, m = mk(v, ac)
        c.m = m
        eta_a = 0 if case == 'inner end' else v.real('eta_a')
        eta_b = v.real('eta_b')
        c.eta_b = eta_b
        v.assume(T(eta_a >= 0, eta_a < eta_b, eta_b <= 1))
        if case != 'inner end':
            v.assume(eta_a > 0)
        c.xsi = [v.real('xsi1'), v.real('xsi2')]
        hinge = v.choose('given', 'none') if case != 'inner end' else 'given'
        c.h = [v.real('h1'), v.real('h2')] if hinge == 'given' else list(c.xsi)
        A = S(tm.num(0)) if case == 'inner end' else eta_a
        m.point(A)
        m.point(eta_b)
        c.j = cov(A) if case != 'inner end' else S(tm.ZERO)
        c.X = lambda e: U('xsi_on_line', A, c.xsi[0], eta_b, c.xsi[1], e)
        c.H = lambda e: U('xsi_on_line', A, c.h[0], eta_b, c.h[1], e)
        ctrl = object()
        c.calls = []
        c.index = lambda st: next((t for t, z, sn in m.made if z is st), None) if any(z is st for t, z, sn in m.made) else S(tm.num(-1))

        def follows(p, q):
            """strip q comes after strip p, at most a sliver in between"""
            return T(ea(q) >= eb(p), ea(q) <= eb(p) + dl, q >= 0, q < m.N)
        c.follows = follows
        def row(i):
            v.assume(T(rowk(i) >= 0, rowk(i) < m.N))
            return rowv(i)
        c.row = row
        rowv = lambda i: [m.at(rowk(i)), ite(i == 0, c.xsi[0], c.X(eb(rowk(i - 1)))), c.X(eb(rowk(i))), ite(i == 0, c.h[0], c.H(eb(rowk(i - 1)))), c.H(eb(rowk(i)))]
        c.place = Place(c)

        def on_strip(st, k):
            def add(control, x1, x2, h1=None, h2=None):
                if c.calls == 'all':
                    v.check('no part is added apart from the list of strips', False)
                else:
                    c.calls.append((st, control, x1, x2, h1, h2))
            st._add_subarea = add
        m.forms = on_strip

        def placed(row, what):
            ok = len(c.calls) == 1 and c.calls[0][0] is row[0]
            v.check('%s: one part is added to it' % what, ok)
            if not ok:
                return
            _, ct, x1, x2, h1, h2 = c.calls[0]
            v.check('%s: the part belongs to the control' % what, ct is ctrl)
            v.check('%s: edge and hinge positions' % what, same([x1, x2, h1, h2], list(row[1:])))
        c.placed = placed
        state = {'first': None, 'divided': None}

        def add_subdivision(a, d, *r, **k):
            v.check('leading and trailing edge are divided at the same position', same(a, d))
            v.check('divided inside (0, 1) only', T(a > 0, a < 1))
            if case != 'inner end' and (same(a, eta_a) is True or term(same(a, eta_a)) is tm.TRUE) and not m.made[0:0] and state['first'] is None:
                # first call: the strips are as afterwards
                state['first'] = True
                v.assume(A - ea(cov(A)) < lim)
                return m.at(cov(A))
            v.check('divided at the ends of the control only', same(a, eta_b))
            v.check('divided once at the outer end', state['divided'] is None)
            q = cov(eta_b)
            st = m.at(q)
            state['divided'] = False
            if bool(eta_b - ea(q) >= lim):
                state['divided'] = True
                new = ac.SegmentStrip(s, dict(eta_a=eta_b, eta_b=eb(q), eta_c=eb(q), eta_d=eta_b))
                on_strip(new, None)
                m.extra.append((m.N, new))
                st.rel_vertices['eta_b'] = eta_b
                st.rel_vertices['eta_c'] = eta_b
                return new
            return st
        s.add_subdivision = add_subdivision

        def neighbour(x):
            v.check('neighbour asked at a line inside (0, 1)', T(x > 0, x < 1))
            q = v.int('q', 0)
            m.point(x)
            m.n_at(cov(x))
            v.assume(q < m.N)
            v.assume(T(ea(q) <= x + dl, ea(cov(x)) <= ea(q)))
            return m.at(q)
        s._get_outer_neighbour_subdiv = neighbour

        def interpol(vertices, i, o, e):
            v.check('interpolation on this segment', vertices is s.vertices)
            v.check('interpolation along the whole control', T(same([i[0], o[0]], [A, eta_b])))
            x = U('xsi_on_line', *[S(term(z)) for z in (i[0], i[1], o[0], o[1], e)])
            return x
        keep, keepw = ac.xsi_interpol, ps.WHILE_SPEC[0]
        ac.xsi_interpol = interpol
        grow = Grow(c)
        ps.WHILE_SPEC[0] = grow
        try:
            a = [eta_a, eta_b, ctrl] + c.xsi + (c.h if hinge == 'given' else [])
            r, e = raises(s.add_subdivision_for_control, *a)
        finally:
            ac.xsi_interpol, ps.WHILE_SPEC[0] = keep, keepw
        v.check('inner end: a line is made', case == 'inner end' or state['first'] is True)
        first_eta = ea(c.j)
        if e is not None:
            if isinstance(e, RuntimeError):
                return          # more strips than the limit, or no intersection: rejected
            v.check('rejected only if narrower than the minimum strip width', T(eta_b - A < lim + dl) if isinstance(e, ValueError) else False)
            v.check('a rejected control adds no part', c.calls == [])
            return
        v.check('the control starts at its inner end, to within the minimum strip width', T(first_eta <= A, A - first_eta < lim))
        if c.calls == 'all':
            L = grow.L
            n = L.__vclen__()
            v.check('at least one strip', n >= 1)
            lastrow = L[-1]
            k = n - 1
            if len(L.tail) > 1:
                v.check('list of strips', False)
            prev = rowk(k - 1)
        else:
            v.check('few strips: no loop', 1 <= len(c.calls) <= 2)
            if not 1 <= len(c.calls) <= 2:
                return
            rows = [(z[0],) + z[2:] for z in c.calls]
            v.check('all parts belong to the control', all(z[1] is ctrl for z in c.calls))
            lastrow = rows[-1]
            v.check('first strip is the one at the inner end', T(c.index(rows[0][0]) == c.j))
            v.check('first part: inner edge and hinge position as requested', same([rows[0][1], rows[0][3]], [c.xsi[0], c.h[0]]))
            if len(rows) == 2:
                v.check('strips follow each other', T(c.follows(c.j, c.index(rows[1][0]))))
                v.check('neighbouring parts share edge and hinge position', same([rows[0][2], rows[0][4]], [rows[1][1], rows[1][3]]))
                v.check('edge and hinge position on the line of the control', same([rows[0][2], rows[0][4]], [c.X(eb(c.j)), c.H(eb(c.j))]))
        v.check('last part: outer edge and hinge position as requested', same([lastrow[2], lastrow[4]], [c.xsi[1], c.h[1]]))
        end = lastrow[0].rel_vertices['eta_b']
        v.check('the last strip does not reach beyond the outer end', end <= eta_b)
        v.check('the last strip reaches the outer end to within the minimum strip width', eta_b - end < lim + dl)
    V.run('control', lambda: go('inside'))
    V.run('control from the inner end of the segment', lambda: go('inner end'))
    return V


# ---------------------------------------------------------------- controls across segments
class Key:
    """identifier of segment k: equal only to itself"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return bool(self.k == o.k) if type(o) is Key else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class Sums:
    """list of n+1 running sums, entry i = f(i), and what was appended since"""

    def __init__(self, n, f):
        self.n, self.f, self.tail = n, f, []

    def __vclen__(self):
        return self.n + 1 + len(self.tail)

    def append(self, x):
        self.tail.append(x)

    def __getitem__(self, i):
        if type(i) is not S and i < 0:
            i = self.__vclen__() + i
        i = i if type(i) is S else S(tm.num(i))
        for m, x in enumerate(self.tail):
            if bool(i == self.n + 1 + m):
                return x
        ps.vc().check('running length of a segment that was passed', T(i >= 0, i <= self.n))
        return self.f(i)


class RowList(Rows):
    """rows of the segments of a control; set: rows below it were replaced"""

    def __init__(self, L, row, tail, spec=None):
        Rows.__init__(self, L, row, tail, spec)
        self.phase, self.set = 'first', []

    def __setitem__(self, i, x):
        self.set.append((i, x))

    def at(self, i):
        if self.set:
            raise ps.VCError('row read after it was replaced')
        return Rows.at(self, i)


def g_pre():
    """G04: control surfaces on the segments of a wing; requested strips"""
    vlm = ps.load('aero.vlm')
    V = VC('pre_panelling', ['pre_panelling'])

    class C:
        pass

    def LEN(i):
        return U('length_to', i)

    class Segs(LoopSpec):
        """loop over the segments of the wing, from root to tip: collects those between inner and outer"""
        accumulate = False

        def __init__(self, c):
            self.c = c

        def init(self, k, loc):
            self.lists = [n for n in loc if type(loc[n]) is list and not loc[n]]
            self.flags = [n for n in self.names if loc[n] is False]
            ps.vc().check('segments of the control are collected in a list', len(self.lists) == 1)

        def state(self, k, loc):
            c, v = self.c, ps.vc()
            if len(self.lists) != 1:
                return {}
            v.assume(k <= c.o)
            before = v.choose(True, False)
            v.assume(k <= c.i if before else k > c.i)
            self.before = before
            new = {n: False for n in self.flags}
            if not before and self.flags:
                new[sorted(self.flags, key=list(loc).index)[0]] = True
            self.L = [] if before else RowList(k - c.i, c.row0, [], c.rows)
            new[self.lists[0]] = self.L
            return new

        def body(self, k, elem, loc, changed):
            c, v = self.c, ps.vc()
            l = loc[self.lists[0]]
            v.check('list of segments is kept', l is self.L)
            inner = sorted(self.flags, key=list(loc).index)[:1]
            v.check('collection starts at the inner segment, once', T(*[SB(term(same(loc[n], True))) if k_in else True for n in inner for k_in in [not self.before]]) if inner else True)
            if self.before:
                if not l:
                    v.check('segments before the inner one are left out, the inner one is taken', k < c.i)
                    v.check('flags before the inner segment', all(loc[n] is False for n in self.flags))
                    return
                v.check('first segment is the inner one', T(len(l) == 1, k == c.i))
                v.check('flags after the inner segment', all((loc[n] is True) == (n in inner) for n in self.flags))
                self.rowcheck('inner segment', l[0], k)
                return
            v.check('segments between inner and outer one are taken', len(l.tail) == 1)
            v.check('flags between inner and outer segment', all((loc[n] is True) == (n in inner) for n in self.flags))
            v.check('loop goes on only before the outer segment', k < c.o)
            if len(l.tail) == 1:
                self.rowcheck('further segment', l.tail[0], k)

        def rowcheck(self, what, r, k):
            c, v = self.c, ps.vc()
            e = c.row0(k - c.i)
            v.check('%s: identifier' % what, isinstance(r[0], Key) and bool(T(r[0].k == k)))
            for n, a, b in list(zip(('inner end', 'outer end', 'inner edge', 'outer edge', 'inner hinge', 'outer hinge'), r[1:], e[1:]))[:6 if c.flat else 4]:
                v.check('%s: %s' % (what, n), same(a, b))        # hinge positions of the rows are replaced later unless all are equal

    class RowLoop(LoopSpec):
        """loops over the rows: lengths, interpolation, placement"""
        accumulate = False

        def __init__(self, c):
            self.c = c

        def allows(self, change):
            return change[1] is self.L.set      # checked below

        def init(self, k, loc):
            c, v = self.c, ps.vc()
            L = [x for x in loc.values() if isinstance(x, RowList)]
            self.L = L[0]
            self.sums = [n for n in loc if type(loc[n]) is list and len(loc[n]) == 1 and same(loc[n][0], 0) is True]
            have = [x for x in loc.values() if isinstance(x, Sums)]
            self.kind = 'length' if self.sums and not have else 'interpolate' if have and not self.L.phase == 'replaced' else 'place'
            if self.kind == 'length':
                c.base = [self.L.at(S(tm.ZERO)), None]
            if not L[0].tail and not same(L[0].L, c.o - c.i + 1) is True:
                pass
            v.check('rows of all segments of the control', T(same(L[0].__vclen__(), c.o - c.i + 1)))

        def state(self, k, loc):
            c, v = self.c, ps.vc()
            n = c.o - c.i + 1
            new = {}
            if self.kind == 'length':
                v.assume(same(LEN(S(tm.ZERO)), 0))
                self.S = Sums(k, LEN)
                new[self.sums[0]] = self.S
            elif self.kind == 'interpolate':
                self.L.set = []
                self.k = k
            return new

        def begin(self, k, elem, loc):
            self.c.calls = []

        def exit(self, n, loc):
            c, v = self.c, ps.vc()
            if self.kind == 'interpolate':
                # all rows replaced
                self.L.phase = 'replaced'
                self.L.L, self.L.tail, self.L.row = n, [], c.row1
            elif self.kind == 'place':
                c.done = True
                c.calls = []

        def body(self, k, elem, loc, changed):
            c, v = self.c, ps.vc()
            if self.kind == 'length':
                s = loc[self.sums[0]]
                v.check('one length is added per segment', s is self.S and len(s.tail) == 1)
                if s is self.S and len(s.tail) == 1:
                    r = c.row(k)
                    p, q = c.pt(k + c.i, r[1], r[3]), c.pt(k + c.i, r[2], r[4])
                    d = q - p
                    dist = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
                    v.check('running length along the control', same(s.tail[0], LEN(k) + dist))
                v.check('no row is replaced while lengths are computed', not self.L.set)
                v.check('no part is placed while lengths are computed', not c.calls)
            elif self.kind == 'interpolate':
                st = self.L.set
                v.check('the row of each segment is replaced', len(st) == 1)
                if len(st) != 1:
                    return
                i, r = st[0]
                v.check('replaced row is that of the segment', same(i, k))
                e = c.row1(k)
                v.check('interpolated: segment', isinstance(r[0], Key) and bool(T(r[0].k == k + c.i)))
                for nm, a, b in zip(('inner end', 'outer end', 'inner edge', 'outer edge', 'inner hinge', 'outer hinge'), r[1:], e[1:]):
                    v.check('interpolated: %s' % nm, same(a, b))
                v.check('no part is placed while positions are interpolated', not c.calls)
            else:
                ok = len(c.calls) == 1
                v.check('one placement per segment', ok)
                v.check('no row is replaced while parts are placed', not self.L.set)
                if ok:
                    c.match(c.calls[0], k, 'segment of the control')

    def go():
        v = ps.vc()
        c = C()
        st = type('AC', (), {})()
        ncon = v.int('ncontrols', 0)
        if not memo['known']:
            v.assume(ncon == 0)
        nseg_all = v.int('nsegments', 0)
        state = {'controls': False, 'segments': False}

        def con(kc):
            c.N = v.int('N', 1)
            c.calls, c.done = [], False
            ctl = type('Control', (), {})()
            c.ctl = ctl
            one = v.choose(True, False)
            c.one = one
            c.i = v.int('inner', 0)
            c.o = c.i if one else v.int('outer', 0)
            v.assume(T(c.i <= c.o, c.o < c.N))
            if not one:
                v.assume(c.i < c.o)
            ctl.segment_uid = {'inner': Key(c.i), 'outer': Key(c.o)}
            c.eta = (v.real('eta_inner'), v.real('eta_outer'))
            c.xsi = (v.real('xsi_inner'), v.real('xsi_outer'))
            c.h = (v.real('hinge_inner'), v.real('hinge_outer'))
            ctl.rel_vertices = dict(eta_inner=c.eta[0], eta_outer=c.eta[1], xsi_inner=c.xsi[0], xsi_outer=c.xsi[1])
            ctl.rel_hinge_vertices = dict(xsi_inner=c.h[0], xsi_outer=c.h[1])
            c.mean = lambda p: (p[0] + p[1]) / 2

            def row0(i):
                f, l = i == 0, i + c.i == c.o
                ff, ll = bool(f), bool(l) if c.full else False
                return [Key(i + c.i), c.eta[0] if ff else S(tm.ZERO), c.eta[1] if ll else S(tm.ONE),
                        c.xsi[0] if ff else c.mean(c.xsi), c.xsi[1] if ll else c.mean(c.xsi),
                        *((c.h[0] if ff else c.mean(c.h), c.h[1] if ll else c.mean(c.h)) if c.flat else (U('any_hinge_i', i), U('any_hinge_o', i)))]
            c.full = False
            c.row0 = row0

            def row(i):
                c.full = True
                try:
                    return row0(i)
                finally:
                    c.full = False
            c.row = row

            def row1(i):
                """requested positions: linear in the distance along the surface"""
                r = row(i)
                tot = LEN(c.o - c.i + 1)
                f = lambda p, x: p[0] + (p[1] - p[0]) * x / tot
                return r[:3] + [f(c.xsi, LEN(i)), f(c.xsi, LEN(i + 1)), f(c.h, LEN(i)), f(c.h, LEN(i + 1))]
            c.row1 = row1
            c.rows = RowLoop(c)
            c.pt = lambda k, e, x: ps.obj_array([U('point_%d' % a, k, S(term(e)), S(term(x))) for a in range(3)])

            def seg(key):
                s = type('Segment', (), {})()
                k = key.k
                v.check('segment of the wing', T(k >= 0, k < c.N))
                s.vertices = ('vertices', k)
                s.add_subdivision_for_control = lambda *a, **kw: c.calls.append((k, a, kw))
                return s
            w = type('Wing', (), {})()
            w.segments = SymMap('segments', c.N, lambda k: Key(k), lambda k: seg(Key(k)), seg, spec=Segs(c), canon='items')

            def match(call, j, what):
                """placement on the j-th segment of the control: requested position at the two ends of the surface, linear in between"""
                k, a, kw = call
                names = ('eta_a', 'eta_b', 'parent_control', 'xsi1', 'xsi2', 'xsi_h1', 'xsi_h2')
                d = dict(zip(names, a))
                d.update(kw)
                v.check('%s: arguments' % what, set(d) == set(names))
                if set(d) != set(names):
                    return
                v.check('%s: on the segment itself' % what, same(k, j + c.i))
                v.check('%s: parts belong to the control' % what, d['parent_control'] is ctl)
                if one:
                    e = [Key(c.i)] + [c.eta[0], c.eta[1], c.xsi[0], c.xsi[1], c.h[0], c.h[1]]
                elif c.flat:
                    e = row(j)[:3] + [c.xsi[0], c.xsi[1], c.h[0], c.h[1]]
                else:
                    e = row1(j)
                for nm, p, q in zip(('inner end', 'outer end', 'inner edge', 'outer edge', 'inner hinge', 'outer hinge'), ('eta_a', 'eta_b', 'xsi1', 'xsi2', 'xsi_h1', 'xsi_h2'), e[1:]):
                    v.check('%s: %s' % (what, nm), same(d[p], q))
                if not one:
                    # at the two ends of the surface the positions are the requested ones
                    tot = LEN(c.o - c.i + 1)
                    if not c.flat:
                        v.assume(tot != 0)
                        v.assume(same(LEN(S(tm.ZERO)), 0))
                    if bool(j == 0):
                        v.check('%s: requested positions at the inner end' % what, same([d['xsi1'], d['xsi_h1']], [c.xsi[0], c.h[0]]))
                    if bool(j + c.i == c.o):
                        v.check('%s: requested positions at the outer end' % what, same([d['xsi2'], d['xsi_h2']], [c.xsi[1], c.h[1]]))
            c.match = match
            c.flat = bool(T(c.xsi[0] == c.xsi[1], c.h[0] == c.h[1])) if not one else True
            return (kc, 'uid', ctl), (kc, 'wing', w)

        class Con(Any):
            allow = ('.segments.spec',)

            def body(self, k, elem, loc, ch):
                if c.one:
                    v.check('control on one segment: one placement', len(c.calls) == 1)
                    if len(c.calls) == 1:
                        c.match(c.calls[0], S(tm.ZERO), 'control on one segment')
                else:
                    v.check('control on several segments: all are visited, nothing else is placed', c.done and not c.calls)

        class Lin(Any):
            """division lines of a segment: iteration k stands for line k + first, all lines inside the segment are made, once"""
            def begin(self, k, elem, loc):
                c.div = []

            def body(self, k, elem, loc, ch):
                n, ns = S(term(self.seq.n)), c.ns
                if c.div:
                    v.check('requested strip: one division line', len(c.div) == 1)
                    _, a, kw = c.div[0]
                    d = dict(zip(('eta_a', 'eta_d', 'ignore_inval_eta'), a))
                    d.update(kw)
                    j = d['eta_a'] * ns
                    first = 0 if bool(same(j, k)) else 1
                    memo['first'].add(first)
                    v.check('requested strip: position of the line', same([j, d['eta_d'] * ns], [k + first, k + first]))
                    v.check('as many lines as requested strips', T(k + first <= ns, first + n >= ns, first + n <= ns + 1))
                    v.check('ends of the segment are not divided, or ignored', imp(~T(k + first > 0, k + first < ns), same(d.get('ignore_inval_eta', False), True)))
                else:
                    for f in memo['first'] if memo['known'] else ():
                        v.check('every requested line inside the segment is made', (k + f == 0) | (k + f == ns))

            def exit(self, n, loc):
                v.check('as many lines as requested strips', T(n >= c.ns - 1, n <= c.ns + 1))
                c.lined = True

        class Seg(Any):
            def begin(self, k, elem, loc):
                c.lined = False

            def body(self, k, elem, loc, ch):
                v.check('requested strips of every segment', c.lined)

        def seg2(k):
            s = type('Seg', (), {})()
            c.ns = v.int('num_s', 1)
            s.panels = {'num_s': c.ns, 'num_c': v.int('num_c', 1)}
            s.add_subdivision = lambda *a, **kw: c.div.append((k, a, kw))
            return (k, 'uid', s), (k, 'wing', None)
        aircraft = object()

        class OT:
            @staticmethod
            def all_segments(a):
                v.check('segments of this aircraft', a is aircraft)
                state['segments'] = True
                return SymSeq('segments', nseg_all, seg2, Seg())

            @staticmethod
            def all_controls(a):
                v.check('controls of this aircraft', a is aircraft)
                v.check('controls are placed before the requested strips', not state['segments'])
                state['controls'] = True
                return SymSeq('controls', ncon, con, Con())

        def point(vertices, e, x):
            v.check('point on the segment of the row', isinstance(vertices, tuple) and vertices[0] == 'vertices')
            return c.pt(vertices[1], e, x)

        def lin(y, x, t):
            v.assume(S(term(x[1])) - x[0] != 0)
            return y[0] + (y[1] - y[0]) * (t - x[0]) / (x[1] - x[0])
        keep = vlm.ot, vlm.get_abs_segment_point_coords, vlm.lin_interpol
        vlm.ot, vlm.get_abs_segment_point_coords, vlm.lin_interpol = OT, point, lin
        ps.RANGE_SPECS['linspace'] = ps.RANGE_SPECS['range'] = Lin()
        try:
            r, e = raises(vlm.pre_panelling, aircraft)
        finally:
            vlm.ot, vlm.get_abs_segment_point_coords, vlm.lin_interpol = keep
            ps.RANGE_SPECS.pop('linspace', None)
            ps.RANGE_SPECS.pop('range', None)
        v.check('no error of its own', e is None)
        v.check('controls and segments are all visited', state['controls'] and state['segments'])
    memo = {'first': set(), 'known': False}
    VC('pre_panelling', ()).run('which line is the first one', go)
    memo['known'] = True
    V.run('pre_panelling', go)

    def lines():
        v = ps.vc()
        v.check('lines are counted from one fixed line', len(memo['first']) == 1)
    V.run('pre_panelling: requested lines', lines)
    return V

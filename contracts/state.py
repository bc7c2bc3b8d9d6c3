"""contracts of objects/state.py and stdfun/run.py"""
from vcg import pysym as ps
from vcg import terms as tm
from vcg.pysym import VC, S, SB, Str, Atom, SymSeq, SymArr, GList, LoopSpec, U, raises, same, snapshot, diff, term

PARAMS = ['airspeed', 'alpha', 'altitude', 'beta', 'density', 'mach', 'rate_P', 'rate_Q', 'rate_R']
PRIMARY = ['airspeed', 'alpha', 'beta', 'density', 'rate_P', 'rate_Q', 'rate_R']
PAIRS = [{'airspeed', 'density'}, {'airspeed', 'altitude'}, {'mach', 'altitude'}]
RESULTS = {'Fx': ('forces', 'x'), 'Fy': ('forces', 'y'), 'Fz': ('forces', 'z'), 'FD': ('forces', 'D'), 'FC': ('forces', 'C'), 'FL': ('forces', 'L'),
           'Mx': ('forces', 'l'), 'My': ('forces', 'm'), 'Mz': ('forces', 'n'), 'Cx': ('coeffs', 'x'), 'Cy': ('coeffs', 'y'), 'Cz': ('coeffs', 'z'),
           'CD': ('coeffs', 'D'), 'CC': ('coeffs', 'C'), 'CL': ('coeffs', 'L'), 'Cl': ('coeffs', 'l'), 'Cm': ('coeffs', 'm'), 'Cn': ('coeffs', 'n')}


def freestream(alpha, beta):
    """the same specification function as in contracts.kernels"""
    a, b = S(alpha * tm.PI / tm.num(180)), S(beta * tm.PI / tm.num(180))
    return [a.cos() * b.cos(), -b.sin(), a.sin() * b.cos()]


def arr(name, n):
    return SymArr(n, lambda i: U('in_' + name, i))


def full_state(v, st, n):
    s = st.FlightState()
    for p in PARAMS:
        s.aero[p] = arr(p, n)
    s.num_apm_entries = n
    return s


def g_freestream():
    """A01: free_stream_velocity_vector"""
    st = ps.load('objects.state')
    V = VC('state', ['FlightState.free_stream_velocity_vector'])

    def go():
        v = ps.vc()
        n = v.int('n', 1)
        s = full_state(v, st, n)
        i = v.int('i', 0)
        v.assume(i < n)
        s.idx_current_state = i
        snap = snapshot({'state': s})
        r = s.free_stream_velocity_vector
        f = freestream(U('in_alpha', i).t, U('in_beta', i).t)
        V_ = U('in_airspeed', i)
        for k in range(3):
            v.check('component %s is airspeed times the direction' % 'xyz'[k], same(r[k], V_ * f[k]))
        v.check('magnitude is the airspeed', same(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], V_ * V_))
        v.check('flight state unchanged', not diff(snap))
    V.run('free_stream_velocity_vector', go)
    return V


def g_iter_states():
    """A03/A01: iter_states yields every entry once, in order"""
    st = ps.load('objects.state')
    V = VC('state', ['FlightState.iter_states', 'CurrentState.__init__'])

    def go():
        v = ps.vc()
        n = v.int('n', 0)
        s = full_state(v, st, n)
        log = []

        class Spec(LoopSpec):
            roots = {'state': s}
            allow = ('idx_current_state',)

            def state(self, k, loc):
                s.idx_current_state = k
                return {}

            def begin(self, k, elem, loc):
                log.clear()
                self.k = k

            def body(self, k, elem, loc, ch):
                v.check('exactly one flight condition per entry', len(log) == 1)
                for cur in log:
                    for p in PRIMARY:
                        v.check('%s of the entry' % p, p in cur.aero and same(cur.aero[p], U('in_' + p, k)))
                    v.check('no further parameter', set(cur.aero) == set(PRIMARY))
                    f = freestream(U('in_alpha', k).t, U('in_beta', k).t)
                    for c in range(3):
                        v.check('free stream of the entry', same(cur.free_stream_velocity_vector[c], U('in_airspeed', k) * f[c]))

            def exit(self, n_, loc):
                log.clear()
        ps.RANGE_SPECS['range'] = Spec()
        ids = []
        for cur in s.iter_states():
            v.check('a new object for every entry', all(cur is not o for o in ids))
            ids.append(cur)
            log.append(cur)
        v.check('nothing is yielded after the last entry', not log)
    V.run('iter_states', go)
    ps.RANGE_SPECS.clear()
    return V


# ---------------------------------------------------------------- A02
class GSet:
    """the set of lengths of the given parameters"""

    def __init__(self, n=None, items=None):
        self.added = []
        self.n, self.items = n, items

    @property
    def __class__(self):
        return set

    def add(self, x):
        self.added.append(x)

    def __vclen__(self):
        if self.n is None:
            raise ps.VCError('set of lengths used inside the loop')
        return self.n

    def __vclist__(self):
        return list(self.items)

    def __iter__(self):
        return iter(self.items)

    def pop(self):
        return self.items[0]

    def __bool__(self):
        return bool(self.n > 0)


class GAero(dict):
    """table of the flight state; entries of the 9 parameters are created when they are looked up"""

    def __init__(self, v, L):
        dict.__init__(self)
        self.v, self.L, self.kinds, self.lazy = v, L, {}, False

    def kind(self, p):
        if p not in self.kinds:
            k = self.v.choose('given', 'null')
            self.kinds[p] = k
            if k == 'given':
                self.v.some_given = True
            dict.__setitem__(self, p, GList(self.L, lambda i, p=p: U('in_' + p, i)) if k == 'given' else None)
        return self.kinds[p]

    def __getitem__(self, p):
        if self.lazy and p in PARAMS and not dict.__contains__(self, p):
            self.kind(p)
        return dict.__getitem__(self, p)


def g_update():
    """A02: update_from_dict and check_values"""
    st = ps.load('objects.state')
    V = VC('state', ['FlightState.update_from_dict', 'FlightState.check_values'])

    def ghost_atmosphere(h):
        a = type('Atm', (), {})()
        if isinstance(h, SymArr):
            a.density = SymArr(h.n, lambda i: U('isa_density', h.f(i)))
            a.speed_of_sound = SymArr(h.n, lambda i: U('isa_sound', h.f(i)))
            return a
        raise ps.VCError('Atmosphere called with something else than the altitudes')
    st.Atmosphere = ghost_atmosphere

    def go():
        v = ps.vc()
        L = v.int('L', 1)
        s = st.FlightState()
        s.aero = ga = GAero(v, L)
        for p in PARAMS:
            dict.__setitem__(ga, p, None)
        n = v.int('nkeys', 0)
        lens = v.choose('equal', 'different', 'none given')
        gs = [None]
        key = Str([Atom('key')])

        class Spec(LoopSpec):
            accumulate = False

            def allows(self, change):
                return change[1] is ga or change[1] is gs[0] or change[1] is gs[0].added

            def state(self, k, loc):
                gs[0] = GSet()
                return {x: gs[0] for x, y in loc.items() if isinstance(y, set) and x not in ('self',)}

            def begin(self, k, elem, loc):
                ga.pop(key, None)
                self.before = dict(ga)

            def body(self, k, elem, loc, ch):
                val = aero.value(k)
                now = dict(ga)
                got = now.pop(key, 'absent')
                before = dict(self.before)
                v.check('only the entry of the parameter changes', now == before)
                if val is None:
                    v.check('a null parameter stays unset', got is None or got == 'absent')
                    v.check('a null parameter does not count', not gs[0].added)
                elif type(val) is GList:
                    v.check('a list is kept', isinstance(got, list) and same(ps.vlen(got), val.n) and self.elems(got, val))
                    v.check('its length counts', len(gs[0].added) == 1 and same(gs[0].added[0], val.n))
                else:
                    v.check('a single value is one entry', isinstance(got, list) and type(got) is list and len(got) == 1 and same(got[0], val))
                    v.check('a single value counts as one entry', len(gs[0].added) == 1 and same(gs[0].added[0], 1))

            def elems(self, got, val):
                i = v.int('i', 0)
                v.assume(i < val.n)
                return same(got[i], val.f(i))

            def exit(self, n_, loc):
                dict.clear(ga)
                ga.lazy = True
                g = gs[0]
                if lens == 'equal':
                    g.n, g.items = S(tm.num(1)), [L]
                elif lens == 'different':
                    c = v.int('count', 2)
                    g.n, g.items = c, [v.int('l0', 0), v.int('l1', 0)]
                else:
                    g.n, g.items = S(tm.num(0)), []
                v.at_exit = True

        class Aero:
            """the given table: entry k has the key `key` (of the iteration)"""
            vals, last = {}, None

            def value(self, k):
                self.last = k = S(term(k))
                if k.t not in self.vals:
                    kind = v.choose('null', 'float', 'int', 'list')
                    if kind == 'null':
                        x = None
                    elif kind == 'list':
                        x = GList(v.int('m', 0), lambda i: U('in_key', i))
                    else:
                        x = v.real('val') if kind == 'float' else v.int('val')
                    self.vals[k.t] = x
                return self.vals[k.t]

            def key(self, k):
                self.last = S(term(k))
                return key

            def items(self):
                return SymSeq('the table', n, lambda k: (key, self.value(k)), Spec())

            def keys(self):
                return SymSeq('the table', n, self.key, Spec())

            def __iter__(self):
                return iter(self.keys())

            def __getitem__(self, x):
                if x is not key or self.last is None:
                    raise ps.VCError('entry of the table')
                return self.value(self.last)

            def get(self, x, d=None):
                return self[x]
        Aero.vals = {}
        aero = Aero()
        v.at_exit = False
        v.some_given = False
        r, e = raises(s.update_from_dict, aero)
        if not v.at_exit:
            v.check('no error before all parameters are read (%s)' % type(e).__name__, False)
            return
        # complete the case distinction
        if lens == 'none given':
            if ga.kinds and 'given' in ga.kinds.values():
                v.end()          # contradicts the case
            v.check('an empty table is rejected', e is not None)
            return
        if lens == 'different':
            v.check('different numbers of entries are rejected', e is not None)
            return
        if e is not None and isinstance(e, ps.VCError):
            raise e
        kinds = {p: ga.kind(p) for p in ('airspeed', 'mach', 'density', 'altitude')}
        given = {p for p in kinds if kinds[p] == 'given'}
        if e is not None:
            if given not in PAIRS:
                v.check('invalid combination rejected', True)
                return
            if ga.kind('alpha') == 'null' or ga.kind('beta') == 'null':
                return
            # some angle must be out of range: prove it from the path facts (skolem index of the failed check)
            idx = [tm.byid(j) for f in v.facts for j in tm.fv(f) if tm.byid(j).sort == 'I' and '~' in tm.byid(j).args[0]]
            bad = [tm.or_(tm.lt(U('in_' + a, S(i)).t, tm.num(-90)), tm.lt(tm.num(90), U('in_' + a, S(i)).t)) for i in idx for a in ('alpha', 'beta')]
            v.check('valid input is accepted (got %s)' % type(e).__name__, SB(tm.or_(*bad)) if bad else False)
            return
        v.check('invalid combination of parameters is rejected', given in PAIRS)
        if given not in PAIRS:
            return
        v.check('angles are given', ga.kind('alpha') == 'given' and ga.kind('beta') == 'given')
        i = v.int('entry', 0)
        v.assume(i < L)
        for a in ('alpha', 'beta'):
            x = U('in_' + a, i)
            v.prove('%s within -90 .. 90 degrees' % a, tm.and_(tm.le(tm.num(-90), x.t), tm.le(x.t, tm.num(90))))
        v.check('number of entries', same(s.num_apm_entries, L))
        for p in PARAMS:
            x = ga[p]
            if ga.kinds[p] == 'given' and not (p == 'airspeed' and 'mach' in given) and not (p == 'density' and 'density' not in given):
                v.check('%s: one value per entry' % p, x is not None and same(ps.vlen(x), L))
                v.check('%s: given values are kept' % p, x is not None and same(x[i], U('in_' + p, i)))
        if 'density' not in given:
            v.check('density is the standard density at the altitude', ga['density'] is not None and same(ga['density'][i], U('isa_density', U('in_altitude', i))) and same(ps.vlen(ga['density']), L))
        if 'mach' in given:
            v.check('airspeed is Mach number times speed of sound', ga['airspeed'] is not None and same(ga['airspeed'][i], U('in_mach', i) * U('isa_sound', U('in_altitude', i))))
        for p in ('mach', 'altitude'):
            if ga.kinds[p] == 'null':
                v.check('%s stays unset' % p, ga[p] is None)
    V.run('update_from_dict', go)
    return V


# ---------------------------------------------------------------- A03: the driver
def g_run():
    run = ps.load('stdfun.run')
    V = VC('run', ['standard_run'])
    NSTATE = 'states'

    class Tok:
        def __init__(self, t):
            self.t = t

    def go():
        v = ps.vc()
        n = v.int('n', 1)
        log = []
        cpacs_a, cpacs_s = v.choose((False, False), (True, False), (True, True))
        save_apm = v.choose(True, False)
        deform = v.choose(True, False)
        deformed = []

        class Paths:
            counter = None

            def __call__(self, uid, **k):
                return Str([uid])

        class Settings:
            paths = Paths()
            aircraft_is_cpacs = cpacs_a
            state_is_cpacs = cpacs_s
            settings = {'deformation': 'def.json' if deform else None, 'save_results': {'aeroperformance': save_apm, 'global': True}, 'plot': {}}
        settings = Settings()
        settings.paths = Paths()

        class AC:
            pass
        aircraft = AC()
        aircraft.refs = {'area': v.real('area')}
        state = type('State', (), {})()
        state.results = {k: [] for k in RESULTS}
        cur = {}
        data = {}

        def F(name, s_k):
            return U('out_' + name, s_k)

        class Spec(LoopSpec):
            def allows(self, change):
                """results, solver data of the entry, its flight condition, the number of the entry"""
                d = data.get('vlmdata')
                obj = [state.results, log] + list(state.results.values()) + list(self.elems) + ([d, d.forces, d.coeffs, d.panelwise] if d is not None else [])
                return any(change[1] is x for x in obj) or change[1] is settings.paths and change[2] == 'counter'

            def init(self, k, loc):
                self.count0 = settings.paths.counter
                self.elems = []

            def state(self, k, loc):
                self.k = k
                c = self.count0
                settings.paths.counter = S(tm.ite(tm.le(term(k), tm.ZERO), term(c), tm.sub(term(k), tm.ONE))) if isinstance(c, (int, S)) else ps.Poison('number of the entry before')
                for r in RESULTS:
                    state.results[r] = self.tok = []
                d = data.get('vlmdata')
                if d is not None:
                    d.matrix_downwash = d.array_rhs = Tok(tm.fresh('old'))
                    for q in d.forces:
                        d.forces[q] = v.real('old')
                    for q in d.coeffs:
                        d.coeffs[q] = v.real('old')
                    d.panelwise['gamma'] = Tok(tm.fresh('old'))
                log.clear()
                return {'lattice': Tok(tm.fresh('lattice'))}

            def begin(self, k, elem, loc):
                cur['k'] = k

            def body(self, k, elem, loc, ch):
                for r, (grp, q) in RESULTS.items():
                    l = state.results.get(r)
                    v.check('%s gets exactly one value for the entry' % r, isinstance(l, list) and len(l) == 1)
                    if isinstance(l, list) and len(l) == 1:
                        v.check('%s is the value computed for the entry' % r, same(l[0], F(grp + q, spec_run(k))))
                v.check('no further result', set(state.results) == set(RESULTS))
                v.check('the entries are numbered in order', same(settings.paths.counter, k))
                saves = [e for e in log if e[0] == 'save_all']
                v.check('results are saved once for the entry', len(saves) == 1 and saves[0][1])

        def spec_run(k):
            """the value determined by the k-th flight condition and the aircraft alone"""
            sk = U('STATE', k, sort='State').t
            lat = tm.fn('LAT', sk, sort='Lat')
            dw = tm.fn('DW', lat, sort='Mat')
            rhs = tm.fn('RHS', lat, sk, sort='Vec')
            return S(tm.fn('RUN', lat, sk, tm.fn('SOL', dw, rhs, sort='Vec'), sort='Run'))

        spec = Spec()

        def elem(k):
            c = type('CurrentState', (), {})()
            c.t = U('STATE', k, sort='State').t
            c.refs = None
            c.k = k
            spec.elems.append(c)
            cur['k'] = k
            return c

        def iter_states():
            return SymSeq(NSTATE, n, elem, spec)
        state.iter_states = iter_states

        class VLM:
            @staticmethod
            def set_autopanels(a, s):
                v.check('automatic panelling of this aircraft', a is aircraft and s is settings)
                log.append(('autopanels',))

            @staticmethod
            def gen_lattice(a, c, s, make_new_subareas=True):
                v.check('deformation is loaded before the lattice is made, if requested', bool(deformed) == deform)
                v.check('lattice of this aircraft, entry and settings', a is aircraft and s is settings and getattr(c, 't', None) is not None)
                v.check('reference values are attached before the lattice is made', c.refs is aircraft.refs)
                first = c.k == 0
                if make_new_subareas:
                    v.check('the aircraft is divided only for the first entry', first)
                else:
                    v.check('the aircraft is divided for the first entry', (~first) if type(first) is SB else not first)
                return Tok(tm.fn('LAT', c.t, sort='Lat'))

            @staticmethod
            def calc_downwash(l, d):
                data_ok(d)
                d.matrix_downwash = Tok(tm.fn('DW', l.t, sort='Mat'))

            @staticmethod
            def calc_boundary(l, c, d):
                data_ok(d)
                d.array_rhs = Tok(tm.fn('RHS', l.t, c.t, sort='Vec'))

            @staticmethod
            def solver(d):
                data_ok(d)
                d.panelwise['gamma'] = Tok(tm.fn('SOL', d.matrix_downwash.t, d.array_rhs.t, sort='Vec'))

            @staticmethod
            def calc_results(l, c, d):
                data_ok(d)
                v.check('reference values of the aircraft are used', c.refs is aircraft.refs)
                r = S(tm.fn('RUN', l.t, c.t, d.panelwise['gamma'].t, sort='Run'))
                for q in d.forces:
                    d.forces[q] = F('forces' + q, r)
                for q in d.coeffs:
                    d.coeffs[q] = F('coeffs' + q, r)

        def data_ok(d):
            data['vlmdata'] = d

        class Rec:
            pass
        io = Rec()
        io.cpacs, io.native = Rec(), Rec()
        for r in ('aircraft', 'state', 'results', 'settings', 'deformation'):
            setattr(io.cpacs, r, Rec())
            setattr(io.native, r, Rec())

        def ld(what, kind, val):
            def f(s):
                v.check('%s is read from the %s file' % (what, kind), s is settings and (kind == 'cpacs') == (cpacs_a if what == 'aircraft' else cpacs_s))
                return val
            return f
        io.cpacs.aircraft.load = ld('aircraft', 'cpacs', aircraft)
        io.native.aircraft.load = ld('aircraft', 'native', aircraft)
        io.cpacs.state.load = ld('state', 'cpacs', state)
        io.native.state.load = ld('state', 'native', state)
        io.native.settings.load = lambda f: settings
        io.native.deformation.load = lambda a, s: (v.check('deformation is loaded if and only if requested', deform and a is aircraft and s is settings), deformed.append(1), log.append(('deformation',)))
        saved = []

        def save_all(s, a, c, d):
            k = cur['k']
            ok = s is settings and a is aircraft and getattr(c, 't', None) is U('STATE', k, sort='State').t
            okv = same(d.forces['x'], F('forcesx', spec_run(k)))
            okc = same(settings.paths.counter, k)
            v.check('results are saved for the entry itself, after they are computed', ok)
            v.check('results saved are those of the entry', okv)
            v.check('results are saved under the number of the entry', okc)
            log.append(('save_all', True))
        io.native.results.save_all = save_all
        io.native.results.save_aeroperformance_map = lambda st_, s: saved.append(('native', st_ is state and s is settings))
        io.cpacs.results.save_aeroperformance_map = lambda st_, s: saved.append(('cpacs', st_ is state and s is settings))
        run.io = io
        run.vlm = VLM
        run.makeplots = Rec()
        run.makeplots.make_all = lambda *a: None
        run.hlogger = Rec()
        run.hlogger.init = lambda *a, **k: None
        run.hlogger.decorate = lambda x: x
        r = run.standard_run(run.StdRunArgs(run='x'))
        v.check('the results table is written if and only if requested', (('native', True) in saved) == save_apm)
        v.check('CPACS results are written if and only if both inputs are CPACS', (('cpacs', True) in saved) == (cpacs_a and cpacs_s))
        v.check('everything saved is this run', all(ok for _, ok in saved) and len(saved) == len(set(saved)))
        v.check('the caller gets the state with the results', r['state'] is state and r['settings'] is settings and r['vlmdata'] is data.get('vlmdata', r['vlmdata']))
    V.run('standard_run', go)
    return V

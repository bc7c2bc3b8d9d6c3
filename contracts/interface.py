"""C01: contracts of the Python/C++ interface functions py2c_* (c_vlm.cpp).

The interface functions are executed on ghost Python objects: attributes and dictionary
entries have known names and unknown values.  The kernels are replaced by contracts that
record which entry arrives in which parameter and that set every output to a fresh value."""
from vcg.terms import *
from vcg.cexec import CExec, State, Obj, Ptr, Ref, Opaque, NULL, Obligation, Unsupported

PY_NONE = Opaque('global', '_Py_NoneStruct')
LONG, DOUBLE = 7, 12
ENUM = dict(NPY_BOOL=0, NPY_BYTE=1, NPY_UBYTE=2, NPY_SHORT=3, NPY_USHORT=4, NPY_INT=5, NPY_UINT=6, NPY_LONG=7, NPY_ULONG=8,
            NPY_LONGLONG=9, NPY_ULONGLONG=10, NPY_FLOAT=11, NPY_DOUBLE=12, NPY_LONGDOUBLE=13, NPY_HALF=23)

AERO = {'airspeed': 'airspeed', 'density': 'rho', 'alpha': 'alpha', 'beta': 'beta', 'rate_P': 'P', 'rate_Q': 'Q', 'rate_R': 'R'}
REFS = {'area': 'area', 'span': 'span', 'chord': 'chord', 'gcenter': 'CG', 'rcenter': 'RP'}
LATT = {'p': 'P', 'v': 'V', 'c': 'C', 'n': 'N', 'a': 'A', 'bound_leg_midpoints': 'BoundLegMidpoint', 'epsilon': 'EPSILON'}
INFO = {'num_panels': 'num_pan', 'num_segments': 'num_seg'}
PANEL = {'gamma': 'gamma', 'vx': 'iw_x', 'vy': 'iw_y', 'vz': 'iw_z', 'vmag': 'iw_mag', 'fx': 'fpan_x', 'fy': 'fpan_y',
         'fz': 'fpan_z', 'fmag': 'fpan_mag', 'cp': 'cp'}
FORCES = {'x': 'ftot_x', 'y': 'ftot_y', 'z': 'ftot_z', 'D': 'ftot_D', 'C': 'ftot_C', 'L': 'ftot_L', 'l': 'mtot_x', 'm': 'mtot_y', 'n': 'mtot_z'}
COEFFS = {'x': 'Cx', 'y': 'Cy', 'z': 'Cz', 'D': 'CD', 'C': 'CC', 'L': 'CL', 'l': 'Cl', 'm': 'Cm', 'n': 'Cn'}
INFO_OUT = ['area_min', 'area_max', 'area_avg', 'aspect_min', 'aspect_max', 'aspect_avg']
INFO_IN = ['num_wings', 'num_controls', 'num_segments', 'num_strips', 'num_panels']


class PyV:
    """ghost Python object"""

    def __init__(self, kind, name, val=None, dtype=None, attrs=None):
        self.kind, self.name, self.val, self.dtype, self.attrs = kind, name, val, dtype, attrs or {}

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


def pyo(*a, **k):
    return Opaque('py', PyV(*a, **k))


def refs_in(n, out):
    if isinstance(n, dict):
        if n.get('kind') == 'DeclRefExpr':
            out.append(n['referencedDecl'].get('name'))
        for c in n.get('inner', []):
            refs_in(c, out)
    return out


def int_in(n):
    if n.get('kind') == 'IntegerLiteral':
        return int(n['value'])
    for c in n.get('inner', []):
        r = int_in(c)
        if r is not None:
            return r
    return None


class PyWorld:
    """ghost model of the CPython / NumPy API calls that occur at the boundary"""

    def __init__(self, args):
        self.args = args            # actual arguments of the py2c call
        self.used = set()

    def field(self, ex, st, o, f):
        return None

    def member(self, ex, st, o, f):
        raise Unsupported('member %s of a Python object' % f)

    def enum(self, name):
        if name in ENUM:
            return num(ENUM[name])
        raise Unsupported('enum constant %s' % name)

    def typename(self, node):
        r = refs_in(node, [])
        if 'PyArray_API' in r and int_in(node) == 2:
            return 'array'
        for k, v in (('PyFloat_Type', 'float'), ('PyLong_Type', 'int'), ('PyDict_Type', 'dict')):
            if k in r:
                return v
        raise Unsupported('type object %s' % r)

    def py(self, v):
        if isinstance(v, Opaque) and v.kind == 'py':
            return v.data[0]
        raise Unsupported('Python object expected, got %r' % (v,))

    def str(self, v):
        if isinstance(v, Opaque) and v.kind == 'str':
            return v.data[0]
        if isinstance(v, Opaque) and v.kind == 'py' and v.data[0].kind == 'str':
            return v.data[0].val
        raise Unsupported('string expected, got %r' % (v,))

    def entry(self, st, d, key):
        return st.fields.get(('dict:' + d.name, key))

    def call(self, ex, st, name, an, node):
        m = getattr(self, 'do_' + name, None) if name else None
        if m is None:
            return None
        self.used.add(name)
        return m(ex, st, an)

    def do_PyArg_ParseTuple(self, ex, st, an):
        fmt = self.str(ex.ev(st, an[1]))
        k = 2
        i = 0
        args = list(self.args)
        while i < len(fmt):
            if fmt[i] in ':;':
                break
            if fmt[i] != 'O':
                raise Unsupported('argument format %s' % fmt)
            if not args:
                return ZERO
            a = args.pop(0)
            if fmt[i + 1:i + 2] == '!':
                if self.py(a).kind != self.typename(an[k]):
                    return ZERO
                k += 1
                i += 1
            r = ex.ev(st, an[k])
            if not isinstance(r, Ref):
                raise Unsupported('output of PyArg_ParseTuple')
            ex.store(st, r.lv, a)
            k += 1
            i += 1
        return ZERO if args else ONE

    def noop(self, ex, st, an):
        return ONE
    do_Py_INCREF = do_Py_DECREF = do_Py_XDECREF = do_Py_XINCREF = do__Py_INCREF = noop

    def do_PyErr_SetString(self, ex, st, an):
        return ONE

    def do_PyObject_HasAttrString(self, ex, st, an):
        o, s = self.py(ex.ev(st, an[0])), self.str(ex.ev(st, an[1]))
        return ONE if s in o.attrs else ZERO

    def do_PyObject_GetAttrString(self, ex, st, an):
        o, s = self.py(ex.ev(st, an[0])), self.str(ex.ev(st, an[1]))
        if s not in o.attrs:
            return NULL
        return o.attrs[s]

    def do_PyObject_TypeCheck(self, ex, st, an):
        v = ex.ev(st, an[0])
        if v == NULL:
            raise Unsupported('type check of NULL')
        return boolc(self.py(v).kind == self.typename(an[1]))

    def do_Py_TYPE(self, ex, st, an):
        return Opaque('type', self.py(ex.ev(st, an[0])).kind)

    def do_PyType_HasFeature(self, ex, st, an):
        t = ex.ev(st, an[0])
        f = canon(ex.ev(st, an[1]))
        bits = {1 << 24: 'int', 1 << 29: 'dict'}
        for b, k in bits.items():
            if f is canon(num(b)):
                return boolc(t.data[0] == k)
        raise Unsupported('type feature')

    def do_PyArray_TYPE(self, ex, st, an):
        o = self.py(ex.ev(st, an[0]))
        if o.kind != 'array':
            raise Unsupported('PyArray_TYPE of %r' % o)
        return num(o.dtype)

    def do_PyArray_DATA(self, ex, st, an):
        o = self.py(ex.ev(st, an[0]))
        if o.kind != 'array':
            raise Unsupported('PyArray_DATA of %r' % o)
        return Ptr(o.name, ZERO)

    def do_PyUnicode_FromString(self, ex, st, an):
        return pyo('str', 'key', self.str(ex.ev(st, an[0])))

    def do_PyDict_Contains(self, ex, st, an):
        d, k = self.py(ex.ev(st, an[0])), self.str(ex.ev(st, an[1]))
        if d.kind != 'dict':
            raise Unsupported('dict expected')
        return ONE if self.entry(st, d, k) is not None else ZERO

    def do_PyDict_GetItem(self, ex, st, an):
        d, k = self.py(ex.ev(st, an[0])), self.str(ex.ev(st, an[1]))
        v = self.entry(st, d, k)
        return NULL if v is None else v
    do_PyDict_GetItemString = do_PyDict_GetItemWithError = do_PyDict_GetItem

    def do_PyDict_SetItem(self, ex, st, an):
        d, k = self.py(ex.ev(st, an[0])), self.str(ex.ev(st, an[1]))
        if d.kind != 'dict':
            raise Unsupported('dict expected')
        st.fields[('dict:' + d.name, k)] = ex.ev(st, an[2])
        return ZERO
    do_PyDict_SetItemString = do_PyDict_SetItem

    def do_PyFloat_AsDouble(self, ex, st, an):
        o = self.py(ex.ev(st, an[0]))
        if o.kind not in ('float', 'int'):
            raise Unsupported('PyFloat_AsDouble of %r' % o)
        return o.val
    do_PyFloat_AS_DOUBLE = do_PyFloat_AsDouble

    def do_PyLong_AsLong(self, ex, st, an):
        o = self.py(ex.ev(st, an[0]))
        if o.kind != 'int':
            raise Unsupported('PyLong_AsLong of %r' % o)
        return o.val

    def do_PyFloat_FromDouble(self, ex, st, an):
        return pyo('float', 'new', ex.ev(st, an[0]))


def world(ex, st):
    """the Python objects of one solver call"""
    arrs = {}

    def arr(name, dtype=DOUBLE):
        ex.region(name, None, 'R' if dtype == DOUBLE else 'I')
        arrs[name] = pyo('array', name, dtype=dtype)
        return arrs[name]

    def dic(name, entries):
        for k, v in entries.items():
            st.fields[('dict:' + name, k)] = v
        return pyo('dict', name)
    fl = lambda n: pyo('float', n, var(n))
    il = lambda n: pyo('int', n, var(n, 'I'))
    latt = {k: (fl('lattice.epsilon') if k == 'epsilon' else arr('lattice.' + k)) for k in LATT}
    latt['info'] = dic('info', dict({k: il('info.' + k) for k in INFO_IN}, **{k: fl('info.' + k) for k in INFO_OUT}))
    for other in ('bookkeeping_dummy',):
        latt[other] = fl('lattice.' + other)
    refs = {k: (arr('refs.' + k) if k in ('gcenter', 'rcenter') else fl('refs.' + k)) for k in REFS}
    aero = {k: fl('aero.' + k) for k in list(AERO) + ['altitude', 'mach']}
    state = {'aero': dic('aero', aero), 'refs': dic('refs', refs)}
    data = {'panelwise': dic('panelwise', {k: arr('panelwise.' + k) for k in PANEL}),
            'forces': dic('forces', {k: fl('forces.' + k) for k in FORCES}),
            'coeffs': dic('coeffs', {k: fl('coeffs.' + k) for k in COEFFS})}
    return (pyo('obj', 'lattice', attrs=latt), pyo('obj', 'state', attrs=state), pyo('obj', 'vlmdata', attrs=data), arr)


def run(prog, fname, kernel, mk_args, contract):
    ex = CExec(prog)
    st = State()
    latt, state, data, arr = world(ex, st)
    args = mk_args(latt, state, data, arr)
    w = PyWorld(args)
    ex.ghost = w
    seen = []

    def k(ex_, st_, a):
        seen.append((a, dict(st_.fields)))
        return contract(ex_, st_, a)
    ex.contracts = {kernel: k}
    for other in ('vlm_lattice', 'vlm_downwash', 'vlm_boundary', 'vlm_results'):
        if other != kernel:
            ex.contracts[other] = lambda ex_, st_, a, o=other: (_ for _ in ()).throw(Unsupported('%s called from %s' % (o, fname)))
    pre = dict(st.fields)
    f = prog.function(fname)
    if f is None:
        raise Unsupported('function %s not found' % fname)
    ps = [p for p in f['inner'] if p['kind'] == 'ParmVarDecl']
    ret = ex.run_body(st, f, ps, [Opaque('py', PyV('obj', 'self')), Opaque('py', PyV('obj', 'args'))])
    R = Result(ex, st, pre, seen, fname, ret)
    R.oblige('calls %s exactly once' % kernel, len(seen) == 1)
    R.oblige('does not return an error', not (ret == NULL))
    return R


class Result:
    def __init__(self, ex, st, pre, seen, fname, ret):
        self.ex, self.st, self.pre, self.seen, self.fname, self.ret = ex, st, pre, seen, fname, ret

    def oblige(self, name, ok, goal=None):
        self.ex.obls.append(Obligation('%s: %s' % (self.fname, name), (), goal if goal is not None else (TRUE if ok else FALSE)))

    def same(self, name, got, want):
        if isinstance(want, T):
            if not isinstance(got, T):
                self.oblige('%s (got %r)' % (name, got), False)
            else:
                self.oblige(name, None, eq(got, want))
        else:
            self.oblige(name if got == want else '%s (got %r)' % (name, got), got == want)

    def structs(self, idx, kind):
        """fields of the struct passed as argument idx are the Python entries of the same meaning"""
        if not self.seen:
            return
        a, fields = self.seen[0]
        o = a[idx]
        if isinstance(o, Ref):
            raise Unsupported('struct argument')
        table = {'lattice': (LATT, lambda k: Ptr('lattice.' + k, ZERO) if k != 'epsilon' else var('lattice.epsilon')),
                 'state': (AERO, lambda k: var('aero.' + k)),
                 'refs': (REFS, lambda k: Ptr('refs.' + k, ZERO) if k in ('gcenter', 'rcenter') else var('refs.' + k)),
                 'info': (INFO, lambda k: var('info.' + k, 'I')),
                 'results': (PANEL, lambda k: Ptr('panelwise.' + k, ZERO))}[kind]
        for k, f in table[0].items():
            self.same('%s.%s is the Python entry %s' % (kind, f, k), fields.get((o.name, f)), table[1](k))

    def arg(self, idx, name, want):
        if self.seen:
            self.same('argument %d is %s' % (idx, name), self.seen[0][0][idx], want)

    def dicts(self, changed):
        """post-state of all dictionaries: the listed entries have the new value, the others are unchanged"""
        keys = {k for k in list(self.st.fields) + list(self.pre) if k[0].startswith('dict:')}
        for k in sorted(keys):
            got, was = self.st.fields.get(k), self.pre.get(k)
            nm = '%s[%s]' % (k[0][5:], k[1])
            if (k[0][5:], k[1]) in changed:
                want = changed[(k[0][5:], k[1])]
                ok = isinstance(got, Opaque) and got.kind == 'py' and got.data[0].kind == 'float'
                if ok:
                    self.same('%s receives %s' % (nm, pretty(want)), got.data[0].val, want)
                else:
                    self.oblige('%s receives a float' % nm, False)
            else:
                self.oblige('%s is unchanged' % nm, got is was)
        for k in changed:
            self.oblige('%s[%s] exists' % k, ('dict:' + k[0], k[1]) in self.st.fields)


def pretty(t):
    return getattr(t, 'args', ['?'])[0] if isinstance(t, T) and t.op == 'var' else str(t)


def interface(prog):
    out = []
    r = run(prog, 'py2c_downwash', 'vlm_downwash', lambda l, s, d, arr: [l, arr('arg.dw')], lambda ex, st, a: None)
    r.structs(0, 'lattice')
    r.arg(1, 'the matrix array', Ptr('arg.dw', ZERO))
    r.arg(2, 'the panel count', var('info.num_panels', 'I'))
    r.dicts({})
    out.append(r)
    r = run(prog, 'py2c_boundary', 'vlm_boundary', lambda l, s, d, arr: [l, s, arr('arg.rhs')], lambda ex, st, a: None)
    r.structs(0, 'lattice'), r.structs(1, 'state'), r.structs(2, 'refs')
    r.arg(3, 'the right-hand-side array', Ptr('arg.rhs', ZERO))
    r.arg(4, 'the panel count', var('info.num_panels', 'I'))
    r.dicts({})
    out.append(r)

    def set_info(ex, st, a):
        for f in INFO_OUT:
            st.fields[(a[1].name, f)] = var('new.' + f)
    r = run(prog, 'py2c_lattice', 'vlm_lattice',
            lambda l, s, d, arr: [l, s, arr('arg.pts'), arr('arg.sym', LONG), arr('arg.pan', LONG)], set_info)
    r.structs(0, 'lattice'), r.structs(1, 'info'), r.structs(2, 'state')
    for i, nm in ((3, 'pts'), (4, 'sym'), (5, 'pan')):
        r.arg(i, 'the array ' + nm, Ptr('arg.' + nm, ZERO))
    r.dicts({('info', k): var('new.' + k) for k in INFO_OUT})
    out.append(r)

    def set_res(ex, st, a):
        for f in list(FORCES.values()) + list(COEFFS.values()):
            st.fields[(a[3].name, f)] = var('new.' + f)
    r = run(prog, 'py2c_results', 'vlm_results', lambda l, s, d, arr: [l, s, d], set_res)
    r.structs(0, 'lattice'), r.structs(1, 'state'), r.structs(2, 'refs'), r.structs(3, 'results')
    r.arg(4, 'the panel count', var('info.num_panels', 'I'))
    ch = {('forces', k): var('new.' + f) for k, f in FORCES.items()}
    ch.update({('coeffs', k): var('new.' + f) for k, f in COEFFS.items()})
    r.dicts(ch)
    out.append(r)
    # method table of the module
    t = prog.variable('c_vlmMethods')
    rows = {}
    if t is not None:
        init = [c for c in t['inner'] if c['kind'] == 'InitListExpr'][0]
        for row in init['inner']:
            strs, fs = [], []

            def w(n):
                if n.get('kind') == 'StringLiteral':
                    strs.append(n['value'].strip('"'))
                if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl':
                    fs.append(n['referencedDecl']['name'])
                for c in n.get('inner', []):
                    w(c)
            w(row)
            if strs and fs:
                rows[strs[0]] = fs[0]
    for nm in ('py2c_lattice', 'py2c_downwash', 'py2c_boundary', 'py2c_results'):
        r.ex.obls.append(Obligation('module table: %s is the function of that name' % nm, (), TRUE if rows.get(nm) == nm else FALSE))
    return out


def g_interface():
    from vcg.cfront import CProgram
    return interface(CProgram())

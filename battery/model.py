"""random aircraft models through the public API"""
import numpy as np


def stable_camber():
    """The airfoil library differentiates the camber line with a step of 1e-12: rounding errors of the chord position move its angle by 1e-4.
    The executions use a difference quotient over 2e-3 instead, so that equal positions up to rounding give equal angles."""
    from airfoils import Airfoil

    def camber_line_angle(self, x):
        h = 1e-3
        x = np.clip(np.asarray(x, dtype=float), 2 * h, 1 - 2 * h)
        y = self.camber_line(np.array([np.ravel(x) - h, np.ravel(x) + h]).ravel()).reshape(2, -1)
        a = np.rad2deg(np.arctan((y[1] - y[0]) / (2 * h)))
        return a.item() if x.ndim == 0 else a
    Airfoil.camber_line_angle = camber_line_angle


stable_camber()


class St:
    """minimal settings object for lattice functions"""

    def __init__(self, **k):
        self.settings = {'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4, '_epsilon': 1e-6, '_do_normal_rotations': True}
        self.settings.update(k)


def cur_state(r=None, **k):
    from pytornado.objects.state import CurrentState
    s = CurrentState()
    s.aero = {'airspeed': 50.0, 'density': 1.2, 'alpha': 3.0, 'beta': 1.0, 'rate_P': 0.0, 'rate_Q': 0.0, 'rate_R': 0.0}
    if r is not None:
        s.aero.update(airspeed=float(r.uniform(5, 200)), density=float(r.uniform(0.2, 1.5)), alpha=float(r.uniform(-20, 20)), beta=float(r.uniform(-20, 20)),
                      rate_P=float(r.uniform(-1, 1)), rate_Q=float(r.uniform(-1, 1)), rate_R=float(r.uniform(-1, 1)))
    s.aero.update(k)
    return s


NAMES = ['wing', 'wing_m', 'mainwing', 'horiz_main', '_w', 'W-1', 'a_m_b', 'tail', 'fin', 'strut', 'wing_mirror']


def quad(r, inner=None, span=None, dih=None):
    """corners a b c d of a segment: leading edge a-b outboard, trailing edge d-c; convex in chord direction"""
    if inner is None:
        a = r.uniform(-3, 3, 3)
        a[1] = r.uniform(0, 1)
        d = a + np.array([r.uniform(0.5, 3), 0, r.uniform(-0.2, 0.2)])
    else:
        a, d = inner
    span = r.uniform(0.8, 6) if span is None else span
    dih = r.uniform(-0.6, 0.6) if dih is None else dih
    off = np.array([r.uniform(-0.5, 1.5), span * np.cos(dih), span * np.sin(dih)])
    b = a + off
    ch = np.linalg.norm(d - a) * r.uniform(0.4, 1.1)
    c = b + ch * np.array([1, 0, r.uniform(-0.15, 0.15)])
    return a, b, c, d


def aircraft(r, nwings=None, sym=None, controls=True, nseg=None, planar=False, names=None, panels=True, devs=None):
    from pytornado.objects.aircraft import Aircraft
    ac = Aircraft()
    ac.uid = 'ac'
    ac.refs.update(area=float(r.uniform(1, 30)), span=float(r.uniform(1, 20)), chord=float(r.uniform(0.5, 4)),
                   gcenter=[float(x) for x in r.uniform(-2, 2, 3)], rcenter=[float(x) for x in r.uniform(-2, 2, 3)], comment='random')
    nw = int(r.integers(1, 4)) if nwings is None else nwings
    pool = list(names or NAMES)
    for i in range(nw):
        w = ac.add_wing(pool[int(r.integers(0, len(pool)))] + ('' if names and i == 0 else str(i)))
        w.symmetry = int(r.choice([0, 1, 2, 2, 3])) if sym is None else sym
        inner = None
        ns = int(r.integers(1, 4)) if nseg is None else nseg
        for k in range(ns):
            s = w.add_segment('s%d' % k)
            a, b, c, d = quad(r, inner)
            if planar:
                for p in (a, b, c, d):
                    p[2] = 0.3
            inner = (b, c)
            for n, p in zip('abcd', (a, b, c, d)):
                s.vertices[n] = [float(x) for x in p]
            s.airfoils['inner'] = str(r.choice(['NACA0012', 'NACA2412', 'NACA4415']))
            s.airfoils['outer'] = str(r.choice(['NACA0010', 'NACA2410', 'NACA6412']))
            if panels and r.random() < 0.7:
                s.panels['num_c'] = int(r.integers(1, 6))
                s.panels['num_s'] = int(r.integers(1, 7))
        if controls:
            add_controls(r, w, devs)
    return ac


def add_controls(r, w, devs=None):
    segs = list(w.segments)
    n = int(r.integers(0, 3)) if devs is None else devs
    used = set()
    for j in range(n):
        typ = ['flap', 'slat'][j % 2]
        multi = len(segs) > 1 and r.random() < 0.4 and not any(t == typ for t, _ in used)
        c = w.add_control('c%d' % j)
        c.device_type = typ
        c.deflection = float(r.uniform(-30, 30))
        c.deflection_mirror = float(r.uniform(-30, 30)) if r.random() < 0.7 or not w.symmetry else None
        i0 = int(r.integers(0, len(segs)))
        i1 = int(r.integers(i0 + 1, len(segs))) if multi and i0 < len(segs) - 1 else i0
        z = r.random()
        if z < 0.15:
            c.deflection = 0.0
        elif z < 0.3 and w.symmetry:
            c.deflection_mirror = 0.0
        elif z < 0.4 and w.symmetry:
            c.deflection_mirror = c.deflection
        c.segment_uid.update(inner=segs[i0], outer=segs[i1])
        if i0 == i1:
            e0, e1 = sorted(r.uniform(0, 1, 2))
            if e1 - e0 < 0.1:
                e0, e1 = 0.2, 0.7
            if r.random() < 0.2:
                e0 = 0.0
            if r.random() < 0.2:
                e1 = 1.0
        else:
            e0, e1 = r.uniform(0.05, 0.9), r.uniform(0.1, 0.95)
        lo, hi = (0.6, 0.85) if typ == 'flap' else (0.12, 0.3)
        x = r.uniform(lo, hi, 2)
        if i0 != i1 and r.random() < 0.5:
            x[1] = x[0]
        c.rel_vertices.update(eta_inner=float(e0), eta_outer=float(e1), xsi_inner=float(x[0]), xsi_outer=float(x[1]))
        h = x + r.uniform(0, 0.03, 2) * (1 if typ == 'flap' else -1)
        c.rel_hinge_vertices.update(xsi_inner=float(h[0]), xsi_outer=float(h[1]))
        c.panels['num_c'] = int(r.integers(1, 4)) if r.random() < 0.7 else None
        used.add((typ, (i0, i1)))


def describe(ac):
    out = {}
    for wu, w in ac.wings.items():
        out[wu] = {'symmetry': w.symmetry,
                   'segments': {su: {'vertices': {k: np.asarray(v).tolist() if v is not None else None for k, v in s.vertices.items()}, 'panels': dict(s.panels),
                                     'airfoils': dict(s.airfoils)} for su, s in w.segments.items()},
                   'controls': {cu: {'type': c.device_type, 'seg': dict(c.segment_uid), 'rel': dict(c.rel_vertices), 'hinge': dict(c.rel_hinge_vertices),
                                     'defl': [c.deflection, c.deflection_mirror], 'panels': dict(c.panels)} for cu, c in w.controls.items()}}
    return out


def all_parts(ac):
    for w in ac.wings.values():
        for s in w.segments.values():
            for st in s.subdivision.values():
                for p in st.subarea.values():
                    yield w, s, st, p


AXIS = {1: 2, 2: 1, 3: 0}
ORDER = {1: 'abcd', 2: 'badc', 3: 'dcba'}


def refl(p, plane):
    q = np.array(p, dtype=float)
    q[AXIS[plane]] *= -1
    return q


def bil(v, eta, xsi):
    a, b, c, d = (np.asarray(v[k], dtype=float) for k in 'abcd')
    u = a + eta * (b - a)
    l = d + eta * (c - d)
    return u + xsi * (l - u)


# ---------------------------------------------------------------- projects on disk
SAVE = {'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': True}
_count = [0]


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def ac_dict(ac):
    """aircraft file contents of a model, written independently of the code under test"""
    return plain({'uid': ac.uid, 'refs': dict(ac.refs), 'wings': [
        {'uid': wu, 'symmetry': w.symmetry,
         'segments': [{'uid': su, 'vertices': dict(s.vertices), 'airfoils': dict(s.airfoils), 'panels': dict(s.panels)} for su, s in w.segments.items()],
         'controls': [{'uid': cu, 'device_type': c.device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror, 'segment_uid': dict(c.segment_uid),
                       'rel_vertices': dict(c.rel_vertices), 'rel_hinge_vertices': dict(c.rel_hinge_vertices), 'panels': dict(c.panels)} for cu, c in w.controls.items()]}
        for wu, w in ac.wings.items()]})


def scratch():
    import os
    _count[0] += 1
    d = os.path.join(os.environ['BATTERY_SCRATCH'], 'p%d_%d' % (os.getpid(), _count[0]))
    os.makedirs(d)
    return d


def project(aircraft, table, settings=None, name='set'):
    """project directory -> path of the settings file; aircraft: file contents, table: flight conditions"""
    import json
    import os
    d = scratch()
    for s in ('aircraft', 'settings', 'state', 'deformation', 'airfoils'):
        os.makedirs(os.path.join(d, s))
    st = {'aircraft': 'ac.json', 'state': 'st.json', 'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3, 'save_results': dict(SAVE)}
    st.update(settings or {})
    for p, o in (('aircraft/ac.json', aircraft), ('state/st.json', {'aero': table}), ('settings/%s.json' % name, st)):
        with open(os.path.join(d, p), 'w') as f:
            json.dump(plain(o), f)
    return os.path.join(d, 'settings', name + '.json')


def run(settings_file):
    from pytornado.stdfun.run import standard_run, StdRunArgs
    import logging
    try:
        return standard_run(StdRunArgs(run=settings_file, quiet=True))
    finally:
        logging.disable(logging.CRITICAL)


def drop(settings_file):
    import os
    import shutil
    d = os.path.dirname(os.path.dirname(settings_file))
    assert d.startswith(os.environ['BATTERY_SCRATCH'])
    shutil.rmtree(d, ignore_errors=True)

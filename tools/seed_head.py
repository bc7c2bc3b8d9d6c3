import json
import logging
import math
import os
import sys
import warnings
import numpy as np
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
SCRATCH = os.environ['SCRATCH']


class St:
    """settings object for the lattice functions"""

    def __init__(self, **k):
        self.settings = {'vlm_autopanels_c': 3, 'vlm_autopanels_s': 4, '_epsilon': 1e-6, '_do_normal_rotations': True}
        self.settings.update(k)


def state(**k):
    from pytornado.objects.state import CurrentState
    s = CurrentState()
    s.aero = {'airspeed': 50.0, 'density': 1.2, 'alpha': 3.0, 'beta': 1.0, 'rate_P': 0.0, 'rate_Q': 0.0, 'rate_R': 0.0}
    s.aero.update(k)
    return s


SEG = [dict(a=[0, 0, 0], b=[0.5, 4, 0.3], c=[1.6, 4, 0.25], d=[1.5, 0, 0.0]), dict(a=[0.5, 4, 0.3], b=[1.0, 7, 0.8], c=[1.8, 7, 0.8], d=[1.6, 4, 0.25])]


def model(nseg=2, symmetry=2, controls=(), uid='wing', panels=(3, 4), segs=SEG, foils=('NACA2412', 'NACA0012')):
    from pytornado.objects.aircraft import Aircraft
    ac = Aircraft()
    ac.uid = 'ac'
    ac.refs.update(area=12.0, span=14.0, chord=1.2, gcenter=[0.4, 0.0, 0.1], rcenter=[0.7, 0.2, -0.5])
    add_wing(ac, uid, nseg, symmetry, controls, panels, segs, foils)
    return ac


def add_wing(ac, uid, nseg=2, symmetry=2, controls=(), panels=(3, 4), segs=SEG, foils=('NACA2412', 'NACA0012')):
    w = ac.add_wing(uid)
    w.symmetry = symmetry
    for i in range(nseg):
        s = w.add_segment('s%d' % i)
        for k in 'abcd':
            s.vertices[k] = [float(x) for x in segs[i][k]]
        s.airfoils.update(inner=foils[0], outer=foils[1])
        s.panels.update(num_c=panels[0], num_s=panels[1])
    for name, typ, si, so, ei, eo, xi, xo, hi, ho, d, dm, n in controls:
        c = w.add_control(name)
        c.device_type = typ
        c.deflection, c.deflection_mirror = d, dm
        c.segment_uid.update(inner=si, outer=so)
        c.rel_vertices.update(eta_inner=ei, eta_outer=eo, xsi_inner=xi, xsi_outer=xo)
        c.rel_hinge_vertices.update(xsi_inner=hi, xsi_outer=ho)
        c.panels['num_c'] = n
        c.check()
    return w


def lattice(ac, cs=None, st=None, new=True):
    from pytornado.aero import vlm
    st = st or St()
    if new:
        ac.generate()
        vlm.set_autopanels(ac, st)
    return vlm.gen_lattice(ac, cs or state(), st, make_new_subareas=new)


def solve(ac, cs, lat):
    from pytornado.aero import vlm
    from pytornado.objects.vlm_struct import VLMData
    cs.refs = ac.refs
    d = VLMData()
    vlm.calc_downwash(lat, d)
    vlm.calc_boundary(lat, cs, d)
    vlm.solver(d)
    vlm.calc_results(lat, cs, d)
    return d


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def ac_file(ac):
    return plain({'uid': ac.uid, 'refs': dict(ac.refs), 'wings': [
        {'uid': wu, 'symmetry': w.symmetry,
         'segments': [{'uid': su, 'vertices': dict(s.vertices), 'airfoils': dict(s.airfoils), 'panels': dict(s.panels)} for su, s in w.segments.items()],
         'controls': [{'uid': cu, 'device_type': c.device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror, 'segment_uid': dict(c.segment_uid),
                       'rel_vertices': dict(c.rel_vertices), 'rel_hinge_vertices': dict(c.rel_hinge_vertices), 'panels': dict(c.panels)} for cu, c in w.controls.items()]}
        for wu, w in ac.wings.items()]})


def project(aircraft, table, name='p', **settings):
    d = os.path.join(SCRATCH, name)
    for s in ('aircraft', 'settings', 'state', 'deformation', 'airfoils'):
        os.makedirs(os.path.join(d, s))
    st = {'aircraft': 'ac.json', 'state': 'st.json', 'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3}
    st.update(settings)
    for p, o in (('aircraft/ac.json', aircraft), ('state/st.json', {'aero': table}), ('settings/set.json', st)):
        with open(os.path.join(d, p), 'w') as f:
            json.dump(plain(o), f)
    return os.path.join(d, 'settings', 'set.json')


def run(settings_file):
    from pytornado.stdfun.run import standard_run, StdRunArgs
    r = standard_run(StdRunArgs(run=settings_file, quiet=True))
    logging.disable(logging.CRITICAL)
    return r


def close(a, b, tol=1e-7):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol)


def expect(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)



PROPERTY = 'F01'
NEEDS = 'reference centre and centre of gravity at different heights'
BREAKS = 'the vertical arm of the panel moments is taken about the centre of gravity'
EDITS = [('aero/c_results.cpp', "arm_z = P_z - refs->RP[2];", "arm_z = P_z - refs->CG[2];")]
DEMO = '''
ac = model(1, 2)
cs = state()
lat = lattice(ac, cs)
d = solve(ac, cs, lat)
f = np.stack([d.panelwise[k] for k in ('fx', 'fy', 'fz')], axis=1)
m = np.cross(lat.bound_leg_midpoints - np.asarray(ac.refs['rcenter']), f).sum(axis=0)
expect(close([d.forces[k] for k in 'lmn'], m), 'moments about the reference centre')
'''

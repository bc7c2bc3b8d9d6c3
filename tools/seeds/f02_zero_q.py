PROPERTY = 'F02'
NEEDS = 'density zero at non-zero airspeed (dynamic pressure zero)'
BREAKS = 'only an airspeed of zero is guarded: zero density gives coefficients that are not finite'
EDITS = [('aero/c_results.cpp', "    if (q == 0)\n", "    if (state->airspeed == 0)\n")]
DEMO = '''
ac = model(1, 2)
cs = state(density=0.0)
lat = lattice(ac, cs)
d = solve(ac, cs, lat)
expect(all(math.isfinite(x) for x in d.coeffs.values()), 'coefficients are finite for zero dynamic pressure')
'''

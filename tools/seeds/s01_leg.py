PROPERTY = 'S01'
NEEDS = 'an induced point whose distances to the two ends of a vortex leg differ (every real lattice), effect small for short legs'
BREAKS = 'regularised Biot-Savart law uses the smaller of the two distances twice for the bound leg'
EDITS = [('aero/c_downwash.cpp', "(1/r1_mag + 1/r2_mag);", "(k == 1 ? 2/(r1_mag < r2_mag ? r1_mag : r2_mag) : 1/r1_mag + 1/r2_mag);")]
DEMO = '''
from pytornado.aero import vlm
from pytornado.objects.vlm_struct import VLMData
ac = model(1, 2)
cs = state()
lat = lattice(ac, cs)
d = VLMData()
vlm.calc_downwash(lat, d)
def leg(p, a, b):
    r1, r2 = p - a, p - b
    n1, n2 = np.linalg.norm(r1), np.linalg.norm(r2)
    return np.cross(r1, r2)/(4*math.pi)*(1/n1 + 1/n2)/(r1 @ r2 + n1*n2*(1 + lat.epsilon))
for i in (0, 3, len(lat.c) - 1):
    for j in (0, 5, len(lat.c) - 2):
        V = lat.v[j]
        w = sum(leg(lat.c[i], V[k], V[k + 1]) for k in range(3)) @ lat.n[i]
        expect(abs(d.matrix_downwash[i, j] - w) < 1e-9, 'influence %d %d: %s %s' % (i, j, d.matrix_downwash[i, j], w))
'''

PROPERTY = 'S02'
NEEDS = 'a non-zero rotation rate and a moment reference point different from the centre of gravity'
BREAKS = 'rotation of the aircraft in the boundary condition is taken about the moment reference point'
EDITS = [('aero/c_boundary.cpp', "lattice->C[index_i    ] - refs->CG[0]", "lattice->C[index_i    ] - refs->RP[0]")]
DEMO = '''
from pytornado.aero import vlm
from pytornado.objects.vlm_struct import VLMData
ac = model(1, 2)
cs = state(rate_Q=0.7, rate_R=-0.3)
lat = lattice(ac, cs)
cs.refs = ac.refs
d = VLMData()
vlm.calc_boundary(lat, cs, d)
a, b = math.radians(3.0), math.radians(1.0)
u = 50.0*np.array([math.cos(a)*math.cos(b), -math.sin(b), math.sin(a)*math.cos(b)])
w = np.array([0.0, 0.7, -0.3])
v = u - np.cross(w, lat.c - np.asarray(ac.refs['gcenter']))
expect(close(d.array_rhs, -np.sum(v*lat.n, axis=1)), 'right-hand side')
'''

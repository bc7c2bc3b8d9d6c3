PROPERTY = 'W03'
NEEDS = 'a segment given by another vertex than a, and dihedral'
BREAKS = 'the point d is not moved with the others to the reference point'
EDITS = [('objects/aircraft.py', "            d_z += self.vertices[point][2] - adjust[point][2]\n", "            d_z += self.vertices[point][2] - adjust['a'][2]\n")]
DEMO = '''
from pytornado.objects.aircraft import Aircraft
s = Aircraft().add_wing('w').add_segment('s')
s.geometry.update(inner_chord=2.0, inner_alpha=1.0, inner_beta=2.0, span=4.0, sweep=5.0, dihedral=10.0)
s.vertices.update(b=[1.0, 7.0, 3.0], c=[2.0, 7.0, 3.0])
s.airfoils.update(inner='NACA0012', outer='NACA0012')
s.generate()
v = {k: np.array(s.vertices[k]) for k in 'abcd'}
e = v['d'] - v['a']
expect(abs(np.linalg.norm(e) - 2) < 1e-9, 'inner edge %s' % e)
'''

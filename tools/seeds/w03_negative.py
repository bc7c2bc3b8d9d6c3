PROPERTY = 'W03'
NEEDS = 'negative chord of the outer edge and incidence at the outer end'
BREAKS = 'the corners b and c change places, but not their heights'
EDITS = [('objects/aircraft.py', "            if self.geometry['outer_chord'] < 0:\n                a_x, b_x, c_x, d_x = a_x, c_x, b_x, d_x\n                a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y\n                a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z\n",
          "            if self.geometry['outer_chord'] < 0:\n                a_x, b_x, c_x, d_x = a_x, c_x, b_x, d_x\n                a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y\n")]
DEMO = '''
from pytornado.objects.aircraft import Aircraft
s = Aircraft().add_wing('w').add_segment('s')
s.geometry.update(inner_chord=2.0, inner_alpha=1.0, inner_beta=2.0, outer_chord=-1.0, outer_alpha=30.0, outer_beta=1.0, span=4.0, sweep=5.0, dihedral=10.0)
s.vertices.update(a=[1.0, 7.0, 3.0])
s.airfoils.update(inner='NACA0012', outer='NACA0012')
s.generate()
e = np.array(s.vertices['c']) - np.array(s.vertices['b'])
expect(abs(-math.degrees(math.atan2(e[2], e[0])) - 30.0) < 1e-9, 'incidence of the outer edge %s' % -math.degrees(math.atan2(e[2], e[0])))
'''

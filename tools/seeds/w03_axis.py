PROPERTY = 'W03'
NEEDS = 'different positions of the twist axis at both ends and yaw of the outer edge'
BREAKS = 'the dihedral is not the one of the twist axis'
EDITS = [('objects/aircraft.py', "        axo_y = r_o*self.geometry['outer_axis']*sin_bo\n", "        axo_y = r_o*self.geometry['inner_axis']*sin_bo\n")]
DEMO = '''
from pytornado.objects.aircraft import Aircraft
s = Aircraft().add_wing('w').add_segment('s')
g = dict(inner_chord=2.0, inner_alpha=1.0, inner_beta=2.0, inner_axis=0.2, outer_chord=1.5, outer_alpha=3.0, outer_beta=10.0, outer_axis=0.7, span=4.0, sweep=5.0, dihedral=20.0)
s.geometry.update(g)
s.vertices['a'] = [1.0, 2.0, 3.0]
s.airfoils.update(inner='NACA0012', outer='NACA0012')
s.generate()
v = {k: np.array(s.vertices[k]) for k in 'abcd'}
x = v['b'] + 0.7*(v['c'] - v['b']) - v['a'] - 0.2*(v['d'] - v['a'])
expect(abs(math.degrees(math.atan2(x[2], x[1])) - 20.0) < 1e-9, 'dihedral of the twist axis is %s' % math.degrees(math.atan2(x[2], x[1])))
'''

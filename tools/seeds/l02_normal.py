PROPERTY = 'L02'
NEEDS = 'a twisted (warped) segment'
BREAKS = 'the normal is not orthogonal to the mean line of the panel through the collocation point'
EDITS = [('aero/c_lattice.cpp', "double vec2_%s = lattice->C[index_N%s] - 0.75*lattice->P[index_R%s] - 0.25*lattice->P[index_Q%s];" % (c, o, o, o),
          "double vec2_%s = lattice->C[index_N%s] - lattice->P[index_R%s];" % (c, o, o)) for c, o in (('x', '    '), ('y', ' + 1'), ('z', ' + 2'))]
DEMO = '''
segs = [dict(a=[0, 0, 0], b=[0.5, 4, 0.3], c=[1.3, 4, 0.05], d=[1.5, 0, 0.1])]
ac = model(1, 0, (), segs=segs)
lat = lattice(ac, st=St(_do_normal_rotations=False))
P, Q, R, S = (lat.p[:, i] for i in range(4))
m = lambda a, b: (a + 3*b)/4
span = m(Q, R) - m(P, S)
expect(np.abs(np.sum(span*lat.n, axis=1)).max() < 1e-12, 'normal is orthogonal to the spanwise mean line through the collocation point')
'''

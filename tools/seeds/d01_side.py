PROPERTY = 'D01'
NEEDS = 'symmetric wing with a deformation field for the original side only'
BREAKS = 'the mirrored side of a wing without own field is moved by the field of the original side'
EDITS = [('objects/aircraft.py', "            def_field = self.parent_wing.def_field_mirror\n", "            def_field = self.parent_wing.def_field_mirror if self.parent_wing.def_field_mirror is not None else self.parent_wing.def_field\n")]
DEMO = '''
ac = model(1, 2)
lat = lattice(ac, st=St(_do_normal_rotations=False))
w = ac.wings['wing']
w.def_field = np.array([[0.0, y, 0.0, 0.0, 0.0, 0.05*y*y, 0.02, 0.01, 0.0] for y in np.linspace(0, 4, 9)])
dl = lattice(ac, st=St(_do_normal_rotations=False), new=False)
for e in lat.panel_bookkeeping:
    i = list(e.pan_idx)
    same = close(lat.p[i], dl.p[i], 1e-12)
    if e.mirror:
        expect(same, 'side without field is not deformed')
'''

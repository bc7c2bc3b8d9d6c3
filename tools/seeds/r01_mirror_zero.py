PROPERTY = 'R01'
NEEDS = 'symmetric wing with a control whose mirrored deflection is exactly zero while the deflection is not'
BREAKS = 'a mirrored deflection of zero is taken for "not set": normals of the mirrored control surface are rotated by the deflection of the original side'
EDITS = [('aero/vlm.py', "deflection = subarea.parent_control.deflection_mirror", "deflection = subarea.parent_control.deflection_mirror or subarea.parent_control.deflection")]
DEMO = '''
C = ('f', 'flap', 's0', 's0', 0.2, 0.8, 0.7, 0.7, 0.7, 0.7, 15.0, 0.0, 2)
ac = model(1, 2, [C], foils=('NACA0012', 'NACA0012'))
lat = lattice(ac)
flat = lattice(ac, st=St(_do_normal_rotations=False), new=False)
for e in lat.panel_bookkeeping:
    if e.subarea.type == 'flap':
        i = list(e.pan_idx)
        moved = not close(lat.n[i], flat.n[i])
        expect(moved == (not e.mirror), 'only the original side is deflected')
'''

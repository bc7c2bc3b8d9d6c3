PROPERTY = 'C01'
NEEDS = 'a lattice whose panels have different aspect ratios'
BREAKS = 'the average aspect ratio reported to Python is the middle of the extreme values'
EDITS = [('aero/c_vlm.cpp', "PyFloat_FromDouble(info->aspect_avg)", "PyFloat_FromDouble(0.5*(info->aspect_max + info->aspect_min))")]
DEMO = '''
ac = model(2, 0)
lat = lattice(ac)
P, Q, R, S = (lat.p[:, i] for i in range(4))
# average of all panels from a lattice of one region: the average of two lattices is the average of the averages
one = lattice(model(1, 0, (), segs=SEG[:1])).info
two = lattice(model(1, 0, (), segs=SEG[1:])).info
expect(close(lat.info['aspect_avg'], 0.5*(one['aspect_avg'] + two['aspect_avg']), 1e-9), 'average aspect ratio')
'''

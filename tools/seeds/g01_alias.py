PROPERTY = 'G01'
NEEDS = 'a point given as a floating point numpy array (a list is still copied)'
BREAKS = 'reflecting a point given as an array changes the argument itself'
EDITS = [('objects/aircraft.py', "    point = copy(point)\n", "    point = point if isinstance(point, np.ndarray) else list(point)\n")]
DEMO = '''
from pytornado.objects.aircraft import mirror_point
for plane, ax in ((1, 2), (2, 1), (3, 0)):
    p = np.array([1.0, 2.0, 3.0])
    q = mirror_point(p, plane)
    e = [1.0, 2.0, 3.0]
    expect(list(p) == e, 'argument is not changed')
    e[ax] = -e[ax]
    expect(list(q) == e, 'reflection')
'''

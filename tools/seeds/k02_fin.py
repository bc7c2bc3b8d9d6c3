PROPERTY = 'K02'
NEEDS = 'a vertical CPACS wing segment given from tip to root'
BREAKS = 'only two of the four corners of the segment are exchanged (the segment is twisted)'
EDITS = [
    ('fileio/cpacs/aircraft.py',
     '        if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):\n',
     '        if c[1] - d[1] < 0.0:\n'),
]
DEMO = '''
from pytornado.fileio.cpacs import aircraft as C
from pytornado.objects.aircraft import Aircraft


class Doc:
    def checkElement(self, p):
        return True

    def getNamedChildrenCount(self, p, n):
        return 1

    def getTextAttribute(self, p, a):
        return 'fin1'


class Geometry:
    def point(self, i, k, eta, xsi):
        # fin given from tip (eta = 0) to root (eta = 1)
        return np.array([1.0 * (1 - eta) + (2.0 - 0.5 * (1 - eta)) * xsi, 0.0, 3.0 * (1 - eta)])

    wingGetLowerPoint = wingGetUpperPoint = point


C.get_aircraft_airfoils = lambda *a, **k: None
C.get_segment_mid_point = lambda tigl, i, k, eta, xsi: tigl.point(i, k, eta, xsi)
ac = Aircraft()
ac.add_wing('fin')
C.get_aircraft_wing_segments(ac, None, '/w', 'fin', 1, Doc(), Geometry())
v = ac.wings['fin'].segments['fin1'].vertices
expect(close(v['a'], [0, 0, 0]) and close(v['d'], [2, 0, 0]), 'inner corners are at the root')
expect(close(v['b'], [1, 0, 3]) and close(v['c'], [2.5, 0, 3]), 'outer corners are at the tip')
'''

PROPERTY = 'K02'
NEEDS = 'a CPACS trailing edge device whose outer border is not parallel to the flow (different eta at leading and trailing edge)'
BREAKS = 'the outer hinge position is looked up at the eta of the trailing edge of the device'
EDITS = [
    ('fileio/cpacs/aircraft.py',
     '                    _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)\n',
     '                    _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaTE_ob, hingeXsi_ob)\n'),
]
DEMO = '''
from pytornado.fileio.cpacs import aircraft as C
from pytornado.objects.aircraft import Aircraft


class NoElement(Exception):
    pass


class Wrapper:
    TixiException = NoElement


C.tixiwrapper = Wrapper


class Doc:
    values = {'innerBorder/etaLE/eta': 0.2, 'innerBorder/etaTE/eta': 0.25, 'innerBorder/xsiLE/xsi': 0.7,
              'outerBorder/etaLE/eta': 0.6, 'outerBorder/etaTE/eta': 0.8, 'outerBorder/xsiLE/xsi': 0.75,
              'innerHingePoint/hingeXsi': 0.72, 'outerHingePoint/hingeXsi': 0.77}

    def checkDocumentHandle(self):
        return True

    def uIDCheckExists(self, uid):
        return True

    def uIDGetXPath(self, uid):
        return '/cs'

    def checkElement(self, p):
        return True

    def xPathEvaluateNodeNumber(self, p):
        return 1

    def getTextAttribute(self, p, a):
        return 'flap'

    def getDoubleElement(self, p):
        for k, v in self.values.items():
            if 'trailing' in p and p.endswith(k):
                return v
        raise NoElement(p)


class Geometry:
    def wingGetComponentSegmentCount(self, i):
        return 1

    def wingGetComponentSegmentUID(self, i, k):
        return 'cs'

    def wingComponentSegmentPointGetSegmentEtaXsi(self, cs, eta, xsi):
        # a tapered component segment
        return 1, 'seg', eta, xsi + 0.1 * eta * (1 - xsi)


ac = Aircraft()
ac.add_wing('w')
C.get_aircraft_controls(ac, 'w', 1, Doc(), Geometry())
c = ac.wings['w'].controls['flap']
at = lambda eta, xsi: xsi + 0.1 * eta * (1 - xsi)
expect(close(c.rel_hinge_vertices['xsi_inner'], at(0.2, 0.72)), 'inner hinge')
expect(close(c.rel_hinge_vertices['xsi_outer'], at(0.6, 0.77)), 'outer hinge')
'''

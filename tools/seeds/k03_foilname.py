PROPERTY = 'K03'
NEEDS = 'a CPACS wing airfoil with a space or a dot in its name'
BREAKS = 'the airfoil file is written under a name which the segments do not use'
EDITS = [
    ('fileio/cpacs/aircraft.py',
     "            name_airfoil = parse_str(tixi.getTextElement(node_airfoil + '/name'))\n",
     "            name_airfoil = tixi.getTextElement(node_airfoil + '/name').strip()\n"),
]
DEMO = '''
import os
from pytornado.fileio.cpacs import aircraft as C
from pytornado.objects.aircraft import Aircraft
from pytornado.objects.settings import Settings


class NoElement(Exception):
    pass


class Wrapper:
    TixiException = NoElement


C.tixiwrapper = Wrapper
names = ['NACA 0012 tip', 'rae2822']


class Doc:
    def getNumberOfChilds(self, p):
        return len(names)

    def getTextElement(self, p):
        i = int(p.split('[')[1].split(']')[0]) - 1
        if p.endswith('/name'):
            return names[i]
        return '1.0;0.5;0.0;0.5;1.0' if p.endswith('/x') else '0.0;0.05;0.0;-0.05;0.0'


class Geometry:
    def wingGetInnerSectionAndElementIndex(self, w, s):
        return 1, 1

    def wingGetOuterSectionAndElementIndex(self, w, s):
        return 2, 1

    def wingGetProfileName(self, w, s, e):
        return names[s - 1]


os.makedirs(os.path.join(SCRATCH, 'airfoils'))
s = Settings('', SCRATCH, make_dirs=False, check_ac_file_type=False)
ac = Aircraft()
ac.add_wing('w')
ac.wings['w'].add_segment('s')
C.get_aircraft_airfoils(ac, s, Geometry(), 'w', 's', 1, 1)
C.write_airfoil_files(s, Doc())
for k, f in ac.wings['w'].segments['s'].airfoils.items():
    expect(os.path.isfile(f), '%s airfoil: %s among %s' % (k, f, os.listdir(os.path.join(SCRATCH, 'airfoils'))))
'''

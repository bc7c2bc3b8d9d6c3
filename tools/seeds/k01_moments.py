PROPERTY = 'K01'
NEEDS = 'a CPACS document (the libraries are not installed)'
BREAKS = "roll and yaw moment coefficients are written to each other's place"
EDITS = [
    ('fileio/cpacs/results.py',
     "('cmd', 'Cl')",
     "('cml', 'Cl')"),
    ('fileio/cpacs/results.py',
     "('cml', 'Cn')",
     "('cmd', 'Cn')"),
]
DEMO = '''
from pytornado.fileio.cpacs import utils, results
got = {}
class Doc:
    def getNumberOfChilds(self, x): return 1
    def getTextAttribute(self, x, a): return 'u'
    def uIDGetXPath(self, u): return '/a'
    def checkElement(self, x): return True
    def updateFloatVector(self, x, v, n, format=None): got[x.split('/')[-1]] = list(v)
    def saveDocument(self, f): pass
    def close(self): pass
utils.open_tixi = lambda f: Doc()
class O: pass
st, se = O(), O()
st.results = {k: [float(i)] for i, k in enumerate(('CL', 'CD', 'CC', 'Cl', 'Cm', 'Cn'))}
se.paths = lambda u: __import__('pathlib').Path(SCRATCH) / u
results.save_aeroperformance_map(st, se)
expect(got == {'cl': [0.0], 'cd': [1.0], 'cs': [2.0], 'cmd': [3.0], 'cms': [4.0], 'cml': [5.0]}, got)
'''

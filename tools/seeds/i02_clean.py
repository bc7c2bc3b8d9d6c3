PROPERTY = 'I02'
NEEDS = 'an internal entry whose value is a nested group'
BREAKS = 'internal entries that are groups are written to the settings file'
EDITS = [
    ('fileio/native/settings.py',
     "        if k.startswith('_'):\n",
     '        elif k.startswith(to_del):\n'),
]
DEMO = '''
from pytornado.fileio.native import settings as ns
p = project({}, {})
s = ns.load(p)
s.settings['_solver'] = {'tolerance': 1e-3, '_x': 1}
s.settings['plot']['results']['_levels'] = {'n': 3}
ns.save(s)
d = json.load(open(p))
def names(d):
    for k, v in d.items():
        yield k
        if isinstance(v, dict):
            yield from names(v)
expect(not [k for k in names(d) if k.startswith('_')], 'no internal entries in the file')
expect('vlm_autopanels_c' in d and 'opt' in d['plot']['results'], 'other entries are in the file')
'''

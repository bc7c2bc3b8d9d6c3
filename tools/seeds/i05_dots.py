PROPERTY = 'I05'
NEEDS = 'settings files whose names differ only after a dot (case.1.json, case.2.json)'
BREAKS = 'the results of one settings file overwrite those of the other'
EDITS = [
    ('objects/settings.py',
     '        self.project_basename = os.path.splitext(settings_filename)[0]\n',
     "        self.project_basename = os.path.basename(settings_filename).split('.')[0]\n"),
]
DEMO = '''
from pytornado.objects.settings import Settings
d = dict(aircraft='a.json', state='s.json')
p = []
for n in ('case.1.json', 'case.2.json', 'case.json'):
    s = Settings(n, SCRATCH, settings_dict=d, make_dirs=False)
    s.paths.counter = 3
    p.append([str(s.paths(u)) for u in ('d_results', 'd_plots', 'f_results_global', 'f_results_apm_global')])
for a, b in ((0, 1), (0, 2), (1, 2)):
    for x, y in zip(p[a], p[b]):
        expect(x != y, 'different places: %s' % x)
'''

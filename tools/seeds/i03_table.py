PROPERTY = 'I03'
NEEDS = 'an operating condition that is zero in all entries, such as the sideslip angle'
BREAKS = 'operating conditions and results that are zero in all entries are empty in the results table'
EDITS = [
    ('fileio/native/results.py',
     'list(v) if v is not None else []',
     'list(v) if v is not None and any(v) else []'),
]
DEMO = '''
ac = model(1, 2, panels=(2, 2))
t = {'airspeed': [50.0, 60.0], 'density': [1.2, 1.1], 'alpha': [2.0, 3.0], 'beta': [0.0, 0.0], 'rate_P': [0.0, 0.1], 'rate_Q': [0.0, 0.0], 'rate_R': [0.0, 0.0]}
r = run(project(ac_file(ac), t, save_results={'global': False, 'panelwise': False, 'aeroperformance': True, 'matrix_system': False}))
d = json.load(open(os.path.join(SCRATCH, 'p', '_results', 'set_aeroperformance.json')))
for k, v in t.items():
    expect(close(d[k], v) if len(d[k]) == 2 else False, k)
'''

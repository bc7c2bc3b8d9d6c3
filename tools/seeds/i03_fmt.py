PROPERTY = 'I03'
NEEDS = 'small values, such as circulation or forces of a very slow or small model'
BREAKS = 'small values are written as zero to the panel and matrix files'
EDITS = [
    ('fileio/native/results.py',
     "FMT_NUM = '%13.6e'",
     "FMT_NUM = '%13.6f'"),
]
DEMO = '''
ac = model(1, 2, panels=(2, 2))
t = {'airspeed': 0.01, 'density': 1.2, 'alpha': 2.0, 'beta': 0.0, 'rate_P': 0.0, 'rate_Q': 0.0, 'rate_R': 0.0}
r = run(project(ac_file(ac), t, save_results={'global': False, 'panelwise': True, 'aeroperformance': False, 'matrix_system': True}))
d = os.path.join(SCRATCH, 'p', '_results', 'set_000')
p = np.loadtxt(os.path.join(d, 'panelwise.dat'), delimiter=',')
for k, n in enumerate(('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')):
    v = np.asarray(r['vlmdata'].panelwise[n])
    expect(np.all(np.abs(p[:, k] - v) <= 1e-5*np.abs(v)), n)
m = np.loadtxt(os.path.join(d, 'matrix.dat'), delimiter=',')
w = np.column_stack([r['vlmdata'].matrix_downwash, r['vlmdata'].array_rhs])
expect(m.shape == w.shape and np.all(np.abs(m - w) <= 1e-5*np.abs(w)), 'matrix')
'''

PROPERTY = 'V01'
NEEDS = 'results whose smallest value is not zero and of another size than the largest'
BREAKS = 'panels are not coloured relative to the range of all values'
EDITS = [
    ('plot/plottools.py',
     '    val_range = max(data) - min(data)\n',
     '    val_range = max(abs(data))\n'),
]
DEMO = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure as mf
import matplotlib.pyplot as plt
import types
from pytornado.plot import makeplots
import pytornado.plot.plottools as pt
pt.NUM_POINTS = 3
figs, saved, shown = [], [], []


def settings(which, save, show, opt=()):
    s = types.SimpleNamespace()
    s.settings = {'plot': {p: {'save': save and p == which, 'show': show and p == which, 'opt': list(opt)} for p in ('geometry', 'lattice', 'matrix_downwash', 'results')}}
    s.paths = lambda *a, **k: SCRATCH
    return s


def savefig(self, f, *a, **k):
    saved.append(str(f))
    figs.append(self)


mf.Figure.savefig = savefig
plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))


def axes(three):
    return [a for f in figs for a in f.axes if hasattr(a, 'get_zlabel') == three and a.get_xlabel()]

ac = model(nseg=1, panels=(1, 2))
ac.generate()
from pytornado.aero import vlm
vlm.set_autopanels(ac, St())
cs = state()
cs.free_stream_velocity_vector = np.array([50.0, 0, 1])
lat = vlm.gen_lattice(ac, cs, St())
n = len(lat.p)
for x in (np.linspace(0, 1, n), np.linspace(2, 3, n), np.linspace(-3, 1, n), np.full(n, 2.0)):
    del figs[:]
    makeplots.make_all(settings('results', True, False, ['cp']), ac, cs, types.SimpleNamespace(panelwise={'cp': x}), lat)
    got = np.array([np.array(c._facecolor3d)[0] for a in axes(True) for c in a.collections if type(c).__name__ == 'Poly3DCollection'])
    expect(len(got) == n, 'one area per panel')
    if x.max() > x.min():
        want = np.array([pt.C.COLORMAP(y) for y in (x - x.min()) / (x.max() - x.min())])
        expect(np.abs(got - want).max() < 1e-6, 'colours of %s: %s instead of %s' % (x, got, want))
'''

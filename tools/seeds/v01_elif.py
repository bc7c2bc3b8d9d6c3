PROPERTY = 'V01'
NEEDS = 'a plot that is to be both saved and shown'
BREAKS = 'a plot that is to be saved and shown is only saved'
EDITS = [
    ('plot/plottools.py',
     "    if plot_settings['show']:\n        plt.show()\n",
     "    elif plot_settings['show']:\n        plt.show()\n"),
]
DEMO = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure as mf
import matplotlib.pyplot as plt
import types
from pytornado.plot import makeplots
import pytornado.plot.plottools as pt
pt.NUM_POINTS = 3
figs, saved, shown = [], [], []


def settings(which, save, show, opt=()):
    s = types.SimpleNamespace()
    s.settings = {'plot': {p: {'save': save and p == which, 'show': show and p == which, 'opt': list(opt)} for p in ('geometry', 'lattice', 'matrix_downwash', 'results')}}
    s.paths = lambda *a, **k: SCRATCH
    return s


def savefig(self, f, *a, **k):
    saved.append(str(f))
    figs.append(self)


mf.Figure.savefig = savefig
plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))


def axes(three):
    return [a for f in figs for a in f.axes if hasattr(a, 'get_zlabel') == three and a.get_xlabel()]

ac = model(nseg=1)
ac.generate()
for save, show in ((True, False), (False, True), (True, True)):
    del saved[:], shown[:]
    makeplots.make_all(settings('geometry', save, show), ac, None, None, None)
    expect(len(saved) == (2 if save else 0), 'saved: %s' % saved)
    expect(bool(shown) == show, 'shown: %s, asked for: %s (saved: %s)' % (shown, show, save))
'''

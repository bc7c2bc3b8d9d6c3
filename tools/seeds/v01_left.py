PROPERTY = 'V01'
NEEDS = 'a symmetric wing modelled on the left-hand side'
BREAKS = 'views do not contain the reflection of a wing modelled on the left-hand side'
EDITS = [
    ('plot/plottools.py',
     '        if -points_min[1] > lims_max[1]:\n            lims_max[1] = -points_min[1]\n',
     '        if -points_max[1] > lims_max[1]:\n            lims_max[1] = -points_max[1]\n'),
]
DEMO = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure as mf
import matplotlib.pyplot as plt
import types
from pytornado.plot import makeplots
import pytornado.plot.plottools as pt
pt.NUM_POINTS = 3
figs, saved, shown = [], [], []


def settings(which, save, show, opt=()):
    s = types.SimpleNamespace()
    s.settings = {'plot': {p: {'save': save and p == which, 'show': show and p == which, 'opt': list(opt)} for p in ('geometry', 'lattice', 'matrix_downwash', 'results')}}
    s.paths = lambda *a, **k: SCRATCH
    return s


def savefig(self, f, *a, **k):
    saved.append(str(f))
    figs.append(self)


mf.Figure.savefig = savefig
plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))


def axes(three):
    return [a for f in figs for a in f.axes if hasattr(a, 'get_zlabel') == three and a.get_xlabel()]

for off in (0.0, -9.0, -20.0):
    segs = [{k: [x, y + off, z] for k, (x, y, z) in s.items()} for s in SEG]
    ac = model(nseg=2, segs=segs)
    ac.generate()
    del figs[:]
    makeplots.make_all(settings('geometry', True, False), ac, None, None, None)
    for s in segs:
        for x, y, z in s.values():
            for yy in (y, -y):
                for a in axes(True):
                    lo, hi = a.get_ylim()
                    expect(lo <= yy <= hi, 'y = %s is outside of the view %s' % (yy, (lo, hi)))
'''

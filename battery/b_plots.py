"""V01: real plots, read back from the figures at the moment they are saved or shown"""
import contextlib
import os
import types

import numpy as np

import model as M

DIMS = {'x': 0, 'y': 1, 'z': 2}
PLOTS = ('geometry', 'lattice', 'matrix_downwash', 'results')


def letter(t):
    t = t.strip().lower()[:1]
    return t if t in DIMS else '?'


def read(fig):
    """contents of a figure: list of views"""
    out = []
    for ax in fig.axes:
        three = hasattr(ax, 'get_zlabel')
        v = {'view': letter(ax.get_xlabel()) + letter(ax.get_ylabel()) + (letter(ax.get_zlabel()) if three else ''), 'lines': [], 'areas': [], 'points': [], 'arrows': [], 'images': len(ax.images)}
        if '?' in v['view']:
            if ax.images:
                v['image'] = np.array(ax.images[0].get_array(), dtype=float)
                out.append(v)
            continue          # colour bar
        v['lim'] = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
        for ln in ax.lines:
            v['lines'].append(np.array(ln.get_data_3d() if three else ln.get_data(), dtype=float).reshape(len(v['view']), -1).T)
        for p in ax.patches:
            v['areas'].append((np.array(p.get_xy(), dtype=float), tuple(p.get_facecolor())))
        for c in ax.collections:
            n = type(c).__name__
            if n == 'Poly3DCollection':
                v['areas'].append((np.array(c._vec, dtype=float)[:3].T, tuple(np.array(c._facecolor3d)[0])))
            elif n == 'Line3DCollection':
                v['arrows'].append([np.array(s, dtype=float) for s in c._segments3d])
            elif n == 'Path3DCollection':
                v['points'].append(np.array([np.ravel(x) for x in c._offsets3d], dtype=float).T)
            elif n == 'PathCollection':
                v['points'].append(np.array(c.get_offsets(), dtype=float))
        out.append(v)
    return out


class Seen(list):
    """figures saved (with file) and shown"""

    def __init__(self):
        super().__init__()
        self.saved, self.shown, self.figs = [], 0, {}

    def note(self, fig):
        if id(fig) not in self.figs:
            self.figs[id(fig)] = (fig, read(fig))


@contextlib.contextmanager
def watch():
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    import pytornado.plot.plottools as pt
    s = Seen()

    def savefig(self, fname, *a, **k):
        s.note(self)
        s.saved.append((id(self), os.fspath(fname)))

    def show(*a, **k):
        s.shown += 1
        for n in plt.get_fignums():
            s.note(plt.figure(n))
    old = mf.Figure.savefig, plt.show, plt.tight_layout, getattr(pt, 'NUM_POINTS', None)
    mf.Figure.savefig, plt.show, plt.tight_layout = savefig, show, lambda *a, **k: None
    if old[3] is not None:
        pt.NUM_POINTS = 3
    try:
        plt.close('all')
        yield s
        s.left = len(plt.get_fignums())
    finally:
        mf.Figure.savefig, plt.show, plt.tight_layout = old[:3]
        if old[3] is not None:
            pt.NUM_POINTS = old[3]
        plt.close('all')


def freeze(x, depth=0):
    if depth > 9:
        return '...'
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.tolist())
    if isinstance(x, dict):
        return {str(k): freeze(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x
    if isinstance(x, types.SimpleNamespace) or type(x).__module__.startswith('pytornado'):
        return {k: freeze(v, depth + 1) for k, v in vars(x).items() if not k.startswith('parent')}
    return repr(type(x))


def unlike(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return at + '/' + k
            d = unlike(a[k], b[k], at + '/' + k)
            if d:
                return d
        return None
    return None if repr(a) == repr(b) else at or '/'


def proj(p, view):
    return np.array([p[DIMS[c]] for c in view], dtype=float)


def edges_of(ac, controls, segments=True):
    """what must be drawn: (name, points, edges); points and edges of each component, mirrored ones included; edges that may be drawn besides"""
    out = []
    for wu, w in ac.wings.items():
        planes = [None] + ([w.symmetry] if w.symmetry else [])
        for pl in planes:
            f = (lambda p: M.refl(p, pl)) if pl else (lambda p: np.asarray(p, dtype=float))
            side = ' (reflected)' if pl else ''
            if segments:
                for su, s in w.segments.items():
                    out.append(('segment %s of %s%s' % (su, wu, side), {q: f(s.vertices[q]) for q in 'abcd'}, ('ab', 'bc', 'cd', 'da'), ()))
            if controls:
                for cu, c in w.controls.items():
                    vi, vo = w.segments[c.segment_uid['inner']].vertices, w.segments[c.segment_uid['outer']].vertices
                    r, h = c.rel_vertices, c.rel_hinge_vertices
                    flap = c.device_type == 'flap'
                    lo, hi = (lambda x: x if flap else 0), (lambda x: 1 if flap else x)
                    pts = {'a': M.bil(vi, r['eta_inner'], lo(r['xsi_inner'])), 'b': M.bil(vo, r['eta_outer'], lo(r['xsi_outer'])), 'c': M.bil(vo, r['eta_outer'], hi(r['xsi_outer'])), 'd': M.bil(vi, r['eta_inner'], hi(r['xsi_inner'])),
                           'p': M.bil(vi, r['eta_inner'], h['xsi_inner']), 'q': M.bil(vo, r['eta_outer'], h['xsi_outer'])}
                    out.append(('control %s of %s%s' % (cu, wu, side), {k: f(p) for k, p in pts.items()}, (('da', 'ab', 'bc') if flap else ('bc', 'cd', 'da')) + ('pq',), ('cd', 'ab')))
    return out


def check_lines(ctx, desc, what, view, want, extra=()):
    """every wanted edge is drawn, every line drawn is wanted"""
    got = []
    for ln in view['lines']:
        got += [np.concatenate(e) for e in zip(ln[:-1], ln[1:])]
    for a, _ in view['areas']:
        got += [np.concatenate(e) for e in zip(a[:-1], a[1:])]
    got = np.array(got).reshape(-1, 2 * len(view['view']))
    n = len(view['view'])
    both = np.concatenate([got, np.concatenate([got[:, n:], got[:, :n]], axis=1)])
    must, may = [], []
    for name, pts, m, o in want:
        for e in m:
            must.append((name, np.concatenate([proj(pts[e[0]], view['view']), proj(pts[e[1]], view['view'])])))
        for e in o:
            may.append((name, np.concatenate([proj(pts[e[0]], view['view']), proj(pts[e[1]], view['view'])])))
    scale = 1 + max([np.abs(e).max() for _, e in must] or [0])
    for name, e in must:
        if not len(both) or np.abs(both - e).max(axis=1).min() > 1e-7 * scale:
            ctx.fail('%s plot, %s view: every edge is drawn' % (what, view['view']), desc, [name, e[:n], e[n:]], 'not drawn')
            return False
    allowed = np.array([e for _, e in must + may]).reshape(-1, 2 * n)
    for g in got:
        back = np.concatenate([g[n:], g[:n]])
        if any(np.abs(g[:n] - x).max() < 1e-12 and np.abs(g[n:] - x).max() < 1e-12 for x in extra):
            continue
        if not len(allowed) or min(np.abs(allowed - g).max(axis=1).min(), np.abs(allowed - back).max(axis=1).min()) > 1e-7 * scale:
            ctx.fail('%s plot, %s view: no other line is drawn' % (what, view['view']), desc, 'one of the edges', [g[:n], g[n:]])
            return False
    return True


def views_of(ctx, desc, what, seen):
    """the four views of a plot"""
    vs = [v for _, c in seen for v in c]
    if sorted(v['view'] for v in vs) != ['xy', 'xyz', 'xz', 'yz']:
        ctx.fail('%s plot: one view in space and three plane ones' % what, desc, ['xy', 'xyz', 'xz', 'yz'], sorted(v['view'] for v in vs))
        return None
    return vs


def limits(ctx, desc, what, vs, ac):
    for name, pts, _, _ in edges_of(ac, False):
        for v in vs:
            for q, p in pts.items():
                x = proj(p, v['view'])
                for c, (lo, hi), y in zip(v['view'], v['lim'], x):
                    if not min(lo, hi) - 1e-9 <= y <= max(lo, hi) + 1e-9:
                        ctx.fail('%s plot, %s view: contains the whole aircraft' % (what, v['view']), desc, [name, q, c, y], [lo, hi])
                        return
    for v in vs:
        if len(v['view']) == 3:
            ln = [abs(b - a) for a, b in v['lim']]
            if max(ln) - min(ln) > 1e-6 * max(ln):
                ctx.fail('%s plot: one scale in all directions' % what, desc, 'equal', ln)


def gravity(ctx, desc, what, vs, ac):
    for v in vs:
        p = proj(ac.refs['gcenter'], v['view'])
        if not any(len(x) == 1 and np.abs(x[0] - p).max() < 1e-9 for x in v['points']):
            ctx.fail('%s plot, %s view: centre of gravity is marked' % (what, v['view']), desc, p, v['points'])
            return


class Settings:
    def __init__(self, plot, d):
        self.settings, self.d = {'plot': plot, 'save_results': {}}, d

    def paths(self, name, *a, **k):
        return self.d if name == 'd_plots' else '/elsewhere'


def draw(ctx):
    """V01: which plots are made, and what they show"""
    from pytornado.aero import vlm
    from pytornado.plot import makeplots
    import pytornado.plot.plottools as pt
    r = ctx.rng(1)
    done = 0
    for t in range(60 * ctx.scale):
        if ctx.spent() or done >= 14 * ctx.scale:
            break
        ac = M.aircraft(r, nwings=1 + t % 2, nseg=1 + t % 3 % 2, devs=(0, 1, 2, 2)[t % 4])
        st0 = M.St(vlm_autopanels_c=2, vlm_autopanels_s=2)
        for w in ac.wings.values():
            for s in w.segments.values():
                s.panels.update(num_c=int(r.integers(1, 3)), num_s=int(r.integers(1, 3)))
            if r.random() < 0.4:        # part of the aircraft modelled on the other side of the plane of symmetry
                off = r.uniform(-9, 0, 3)
                for s in w.segments.values():
                    for q in 'abcd':
                        s.vertices[q] = [float(x + y) for x, y in zip(s.vertices[q], off)]
        desc = M.describe(ac)
        cs = M.cur_state(r)
        try:
            for w in ac.wings.values():
                for c in w.controls.values():
                    c.check()
            ac.generate()
            vlm.set_autopanels(ac, st0)
            lat = vlm.gen_lattice(ac, cs, st0)
        except ValueError:
            continue
        done += 1
        a_, b_ = np.deg2rad(cs.aero['alpha']), np.deg2rad(cs.aero['beta'])
        V = cs.aero['airspeed'] * np.array([np.cos(a_) * np.cos(b_), -np.sin(b_), np.sin(a_) * np.cos(b_)])
        cs.free_stream_velocity_vector = V.copy()
        n = len(lat.p)
        keys = ['cp', 'gamma', 'fz']
        vals = {k: r.uniform(-2, 3, n) for k in keys}
        if t % 3 == 0:
            vals['cp'] = np.full(n, float(r.uniform(-2, 2)))
        data = types.SimpleNamespace(panelwise=vals, matrix_downwash=r.uniform(-1, 1, (n, n)))
        deformed = t % 3 == 1
        fields = []
        if deformed:
            w = list(ac.wings.values())[int(r.integers(0, len(ac.wings)))]
            sides = [('def_field', 'def_field_mirror'), ('def_field',), ('def_field_mirror',)][int(r.integers(0, 3))] if w.symmetry else ('def_field',)
            for sd in sides:
                f = r.uniform(-2, 2, (int(r.integers(2, 5)), 6))
                setattr(w, sd, f)
                fields.append(f.copy())
        withdef = t % 2 == 1
        plot = {p: {'save': bool(r.integers(0, 2)), 'show': bool(r.integers(0, 2)), 'opt': []} for p in PLOTS}
        if t < 4:
            for p in PLOTS:
                plot[p].update(save=p == PLOTS[t], show=False)
        plot['lattice']['opt'] = ['deformation'] if withdef else []
        plot['results']['opt'] = [k for k in keys if r.random() < 0.6] if t % 5 else ['cp']
        st = Settings(plot, '/plots/state_%d' % t)
        full = [desc, {'plot': {p: dict(x) for p, x in plot.items()}, 'deformed': deformed}]
        ctx.current = full
        ctx.count()
        ref = {p: dict(x, opt=list(x['opt'])) for p, x in plot.items()}
        frozen = freeze({'settings': st.settings, 'aircraft': ac, 'state': cs, 'lattice': {k: getattr(lat, k) for k in 'pvcn'}, 'results': data})
        with watch() as s:
            makeplots.make_all(st, ac, cs, data, lat)
        d = unlike(frozen, freeze({'settings': st.settings, 'aircraft': ac, 'state': cs, 'lattice': {k: getattr(lat, k) for k in 'pvcn'}, 'results': data}))
        if d:
            ctx.fail('plotting changes nothing: %s' % d, full, 'unchanged', 'changed')
            continue
        # ----- which files
        names = [f for _, f in s.saved]
        if [f for f in names if os.path.dirname(f) != st.d]:
            ctx.fail('plots are saved in the folder of the flight condition', full, st.d, names)
        if len(set(names)) != len(names):
            ctx.fail('every plot has a file of its own', full, 'different names', names)
        exp = {'geometry': 2, 'lattice': 2, 'matrix_downwash': 1, 'results': 2 * len(ref['results']['opt'])}
        nsave = sum(exp[p] for p in PLOTS if ref[p]['save'])
        if len(names) != nsave:
            ctx.fail('plots that are to be saved, and no others, are saved', full, nsave, names)
            continue
        nfig = sum(exp[p] for p in PLOTS if ref[p]['save'] or ref[p]['show'])
        if len(s.figs) != nfig:
            ctx.fail('plots that are to be saved or shown, and no others, are made', full, nfig, len(s.figs))
            continue
        want = any(ref[p]['show'] and exp[p] for p in PLOTS)
        if bool(s.shown) != want:
            ctx.fail('plots are shown if and only if asked for', full, want, bool(s.shown))
        if s.left:
            ctx.fail('every figure is closed', full, 0, s.left)
        # ----- what they show, in the order in which they are made
        groups = {}
        figs = list(s.figs.values())
        which = []
        for f, c in figs:
            m = any('image' in v for v in c)
            k = 'matrix_downwash' if m else 'results' if any(len(v['view']) == 3 and v['arrows'] or v['areas'] for v in c) else 'outline'
            which.append(k)
        for k, (f, c) in zip(which, figs):
            groups.setdefault(k, []).append((f, c))
        if ref['matrix_downwash']['save'] or ref['matrix_downwash']['show']:
            m = groups.get('matrix_downwash', [])
            if len(m) != 1 or not np.array_equal(m[0][1][0]['image'], data.matrix_downwash):
                ctx.fail('downwash matrix is shown', full, data.matrix_downwash, [x[1] for x in m])
                continue
        out = groups.get('outline', [])
        order = [p for p in ('geometry', 'lattice') if ref[p]['save'] or ref[p]['show']]
        if len(out) != 2 * len(order):
            ctx.fail('outline plots', full, order, len(out))
            continue
        if len(order) == 2:        # told apart by their number of lines
            three = sorted(out, key=lambda x: 0)
            a = out[:2], out[2:]
        else:
            a = (out,)
        for p, fs in zip(order, a):
            vs = views_of(ctx, full, p, fs)
            if vs is None:
                break
            limits(ctx, full, p, vs, ac)
            gravity(ctx, full, p, vs, ac)
            if p == 'geometry':
                w = edges_of(ac, True)
            else:
                w = ([] if deformed else edges_of(ac, True, segments=False)) + [('panel %d' % i, dict(zip('abcd', q)), ('ab', 'bc', 'cd', 'da'), ()) for i, q in enumerate(lat.p)]
            for v in vs:
                lines = list(v['lines'])
                if p == 'lattice':
                    for f in fields if withdef else []:
                        x = np.array([proj(y, v['view']) for y in f[:, :3]])
                        hit = [i for i, ln in enumerate(lines) if ln.shape == x.shape and np.abs(ln - x).max() < 1e-9]
                        pts = any(q.shape == x.shape and np.abs(q - x).max() < 1e-9 for q in v['points'])
                        if not hit and not pts:
                            ctx.fail('lattice plot, %s view: points of the deformation field' % v['view'], [full, f], x, 'not drawn')
                            break
                        for i in hit[:1]:
                            del lines[i]
                if not check_lines(ctx, full, p, dict(v, lines=lines), w):
                    break
        res = groups.get('results', [])
        if ref['results']['save'] or ref['results']['show']:
            three = [x for x in figs if any(len(v['view']) == 3 and v['arrows'] for v in x[1])]
            if len(three) != len(ref['results']['opt']):
                ctx.fail('results plots show the free stream', full, len(ref['results']['opt']), len(three))
                continue
            for i, k in enumerate(ref['results']['opt']):
                vs = views_of(ctx, full, 'results', res[2 * i:2 * i + 2])
                if vs is None:
                    break
                limits(ctx, full, 'results', vs, ac)
                x = vals[k]
                lo, hi = x.min(), x.max()
                for v in vs:
                    if v['arrows']:
                        sg = v['arrows'][0]
                        tip = sg[-1][0] if np.linalg.norm(sg[-1][0] - sg[0][0]) < np.linalg.norm(sg[-1][0] - sg[0][-1]) else sg[0][-1]
                        tail = sg[0][-1] if np.linalg.norm(sg[0][0] - tip) < np.linalg.norm(sg[0][-1] - tip) else sg[0][0]
                        u = tip - tail
                        c = np.cross(u, V)
                        if np.abs(c).max() > 1e-6 * np.linalg.norm(u) * np.linalg.norm(V) or u @ V <= 0:
                            ctx.fail('results plot: arrow along the free stream', full, V, u)
                            break
                    bad = None
                    for q, val in zip(lat.p, x):
                        col = np.array(pt.C.COLORMAP((val - lo) / (hi - lo))) if hi > lo else None
                        for corner in q:
                            y = proj(corner, v['view'])
                            hits = [fc for poly, fc in v['areas'] if np.abs(poly - y).max(axis=1).min() < 1e-7 * (1 + np.abs(y).max())]
                            if not hits or col is not None and min(np.abs(np.array(fc[:3]) - col[:3]).max() for fc in hits) > 1e-6:
                                bad = [corner, None if col is None else col, hits]
                                break
                        if bad:
                            break
                    if bad:
                        ctx.fail('results plot, %s view: every panel has the colour of its value' % v['view'], [full, k, x], bad[:2], bad[2])
                        break


def runs(ctx):
    """V01: plots of a table of flight conditions; the settings afterwards"""
    from pytornado.fileio.native import settings as ns
    r = ctx.rng(2)
    for t in range(2 * ctx.scale):
        ac = M.aircraft(r, nwings=1, nseg=1, devs=0)
        tab = {k: [float(x) for x in r.uniform(-3, 3, 3)] for k in ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')}
        tab.update(airspeed=[40.0, 50.0, 60.0], density=[1.2, 1.1, 1.0])
        ps = {p: {'save': p in ('geometry', 'results'), 'show': False, 'opt': ['cp', 'fz'] if p == 'results' else []} for p in PLOTS}
        ctx.current = [M.ac_dict(ac), tab, ps]
        ctx.count()
        f = M.project(M.ac_dict(ac), tab, {'plot': ps})
        try:
            with watch() as s:
                res = M.run(f)
            if s.shown:
                ctx.fail('nothing is shown unless asked for', ctx.current, 0, s.shown)
            dirs = [os.path.basename(os.path.dirname(x)) for _, x in s.saved]
            want = sorted(x for x in ('set_000', 'set_001', 'set_002') for _ in range(6))
            if sorted(dirs) != want:
                ctx.fail('every flight condition has its plots in its folder', ctx.current, want, sorted(dirs))
                continue
            st = res['settings'] if 'settings' in res else None
            if st is None:
                continue
            old = M.plain(ns.load(f).settings)
            ns.save(st)
            new = M.plain(ns.load(f).settings)
            if old['plot'] != new['plot']:
                ctx.fail('settings can be saved after plotting, and stay the same', ctx.current, old['plot'], new['plot'])
        finally:
            M.drop(f)

"""K02: aircraft definitions read from (stand-ins of) CPACS documents"""
import copy
import math
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

import model as M


class TixiException(Exception):
    real = True


class TiglException(Exception):
    real = True


class Tixi:
    """document interface over an element tree: absolute paths with name and position steps"""
    trees = {}

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise NotImplementedError('the stand-in has no ' + k)

    def __init__(self):
        self.closed = 0

    def open(self, f):
        if not os.path.exists(f):
            raise TixiException('OPEN_FAILED')
        self.file = f
        self.root = ET.parse(f).getroot()

    def close(self):
        self.closed += 1

    def nodes(self, path):
        steps = [s.strip() for s in path.strip().strip('/').split('/')]
        cur = None
        for i, s in enumerate(steps):
            m = re.fullmatch(r'([\w:.-]+)\s*(?:\[\s*(\d+)\s*\])?', s)
            if not m:
                raise NotImplementedError('path step ' + s)
            kids = [self.root] if cur is None else None
            new = []
            for par in ([None] if cur is None else cur):
                k = [x for x in (kids if par is None else list(par)) if x.tag == m.group(1)]
                new += k[int(m.group(2)) - 1:int(m.group(2))] if m.group(2) else k
            cur = new
        return cur

    def one(self, path):
        n = self.nodes(path)
        if not n:
            raise TixiException('ELEMENT_NOT_FOUND ' + path)
        if len(n) > 1:
            raise TixiException('ELEMENT_PATH_NOT_UNIQUE ' + path)
        return n[0]

    def checkDocumentHandle(self):
        return True

    def checkElement(self, p):
        return bool(self.nodes(p))

    def checkAttribute(self, p, a):
        return a in self.one(p).attrib

    def getNumberOfChilds(self, p):
        return len(list(self.one(p)))

    def getNamedChildrenCount(self, p, name):
        return len([x for x in self.one(p) if x.tag == name])

    def xPathEvaluateNodeNumber(self, p):
        n = len(self.nodes(p))
        if not n:
            raise TixiException('FAILED')
        return n

    def getTextAttribute(self, p, a):
        x = self.one(p)
        if a not in x.attrib:
            raise TixiException('ATTRIBUTE_NOT_FOUND ' + a)
        return x.attrib[a]

    def getTextElement(self, p):
        return self.one(p).text or ''

    def getDoubleElement(self, p):
        try:
            return float(self.one(p).text)
        except (TypeError, ValueError):
            raise TixiException('NOT_DOUBLE')

    def getIntegerElement(self, p):
        return int(self.getDoubleElement(p))

    def _uid(self, u):
        out = []

        def walk(x, path):
            if x.attrib.get('uID') == u:
                out.append(path)
            cnt = {}
            for y in x:
                cnt[y.tag] = cnt.get(y.tag, 0) + 1
                walk(y, '%s/%s[%d]' % (path, y.tag, cnt[y.tag]))
        walk(self.root, '/' + self.root.tag)
        return out

    def uIDCheckExists(self, u):
        return len(self._uid(u)) == 1

    def uIDGetXPath(self, u):
        n = self._uid(u)
        if len(n) != 1:
            raise TixiException('UID_NOT_FOUND')
        return n[0]


class Tigl:
    """geometry of a specification: spec['wings'][i]['segments'][j]"""
    spec = None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise NotImplementedError('the stand-in has no ' + k)

    def open(self, tixi, uid=''):
        self.tixi = tixi

    def _w(self, i):
        ws = self.spec['wings']
        if not (isinstance(i, int) and 1 <= i <= len(ws)):
            raise TiglException('wing index')
        return ws[i - 1]

    def _s(self, i, j):
        ss = self._w(i)['segments']
        if not (isinstance(j, int) and 1 <= j <= len(ss)):
            raise TiglException('segment index')
        return ss[j - 1]

    def wingGetSymmetry(self, i):
        return self._w(i)['symmetry']

    def _p(self, i, j, eta, xsi):
        s = self._s(i, j)
        a, b, c, d = (np.array(s['abcd'][k]) for k in 'abcd')
        if s['flip_eta']:
            eta = 1 - eta
        if s['flip_xsi']:
            xsi = 1 - xsi
        return (1 - eta) * ((1 - xsi) * a + xsi * d) + eta * ((1 - xsi) * b + xsi * c), np.array(s['half'])

    def wingGetLowerPoint(self, i, j, eta, xsi):
        p, h = self._p(i, j, eta, xsi)
        return tuple(float(x) for x in p - h)

    def wingGetUpperPoint(self, i, j, eta, xsi):
        p, h = self._p(i, j, eta, xsi)
        return tuple(float(x) for x in p + h)

    def wingGetInnerSectionAndElementIndex(self, i, j):
        return self._s(i, j)['inner']

    def wingGetOuterSectionAndElementIndex(self, i, j):
        return self._s(i, j)['outer']

    def wingGetProfileName(self, i, sec, el):
        return self._w(i)['profiles'][(sec, el)]

    def wingGetComponentSegmentCount(self, i):
        return len(self._w(i)['components'])

    def wingGetComponentSegmentUID(self, i, k):
        cs = self._w(i)['components']
        if not 1 <= k <= len(cs):
            raise TiglException('component segment index')
        return cs[k - 1]['uid']

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self.spec['wings']:
            for c in w['components']:
                if c['uid'] == uid:
                    return local(w, c, eta, xsi)
        raise TiglException('component segment ' + str(uid))


def local(w, c, eta, xsi):
    """position on a component segment -> (wing, segment, eta, xsi)"""
    n = len(w['segments'])
    k = min(int(eta * n), n - 1)
    return w['uid'], w['segments'][k]['attr'] or w['segments'][k]['uid'], min(eta * n - k, 1.0), 0.02 + 0.93 * xsi + c['skew'] * eta


def clean(s):
    return ''.join(x for x in s if x.isalnum() or x in '-_')


def specification(r):
    ws = []
    foils = [{'name': str(r.choice(['NACA %d', 'NACA%d', 'D150.%d', 'my-foil_%d', 'Profil (%d)'])) % (2400 + 100 * i + 12), 'code': str(r.choice(['0012', '2412', '4415'])), 'n': int(r.integers(8, 20))}
             for i in range(int(r.integers(1, 4)))]
    for i in range(int(r.integers(1, 4))):
        fin = r.random() < 0.2
        sym = int(r.choice([0, 1, 2, 2, 2, 3]))
        named = r.random() < 0.8
        name = str(r.choice(['W', 'Wing %d', 'D150_VAMP_W%d', 'main-wing.%d'])).replace('%d', str(i)) + ('' if i == 0 else chr(97 + i))
        w = {'attr': name if named else None, 'uid': clean(name) if named else 'WING%02d' % (i + 1), 'symmetry': sym, 'segments': [], 'components': [], 'profiles': {}}
        inner = None
        for j in range(int(r.integers(1, 4))):
            a, b, c, d = M.quad(r, inner, dih=math.pi / 2 if fin else None)
            if fin:
                for p in (a, b, c, d):
                    p[1] = 0.0
            inner = (b, c)
            nm = r.random() < 0.7
            sname = ('%s_s%d', '%s.s%d', '%s (s) %d', 'S:%s/%d')[int(r.integers(4))] % (w['uid'], j)
            s = {'attr': sname if nm else None, 'uid': clean(sname) if nm else '%s_SEGMENT%02d' % (w['uid'], j + 1), 'abcd': {k: [float(x) for x in p] for k, p in zip('abcd', (a, b, c, d))},
                 'flip_eta': bool(r.random() < 0.4), 'flip_xsi': bool(r.random() < 0.4), 'half': [float(r.uniform(-.1, .1)), float(0 if fin else r.uniform(-.1, .1)), float(r.uniform(.01, .2))]}
            for side in ('inner', 'outer'):
                key = (j + 1 + (side == 'outer'), int(r.integers(1, 3)))
                s[side] = key
                w['profiles'][key] = foils[int(r.integers(0, len(foils)))]['name'] if key not in w['profiles'] else w['profiles'][key]
            w['segments'].append(s)
        for k in range(int(r.integers(0, 3))):
            c = {'uid': '%s_CS%d' % (w['uid'], k), 'skew': float(r.uniform(0, 0.02)), 'devices': []}
            for m in range(int(r.integers(0, 3))):
                n = len(w['segments'])
                k0 = int(r.integers(0, n))
                k1 = int(r.integers(k0, n))
                e0, e1 = (k0 + float(r.uniform(0.1, 0.4))) / n, (k1 + float(r.uniform(0.6, 0.9))) / n
                x = r.uniform(0.6, 0.8, 2)
                dev = {'uid': '%s_dev.%d' % (c['uid'], m), 'eta': [e0, e1], 'etaTE': [float(q) for q in r.uniform(0, 1, 2)], 'xsi': [float(q) for q in x], 'hinge': [float(q + r.uniform(0, 0.05)) for q in x]}
                c['devices'].append(dev)
                z = r.random()
                if r.random() < 0.15:
                    dev['missing'] = [['innerBorder', 'outerBorder'][int(r.integers(0, 2))] + '/' + str(r.choice(['etaLE/eta', 'etaTE/eta', 'xsiLE/xsi'])), 'innerHingePoint/hingeXsi', 'outerHingePoint/hingeXsi'][int(r.integers(0, 3))]
                elif z < 0.75:
                    dev['deflection'] = float(r.uniform(-30, 30)) if r.random() < 0.9 else None
                    dev['mirror'] = float(r.uniform(-30, 30)) if r.random() < 0.6 else None
            c['leading'] = int(r.integers(1, 3)) if r.random() < 0.2 else 0
            w['components'].append(c)
        ws.append(w)
    for i in range(int(r.integers(0, 3)) if r.random() < 0.3 else 0):
        # profiles without a name, which no section uses
        foils.insert(int(r.integers(0, len(foils) + 1)), {'name': None, 'code': '%d4%02d' % (r.integers(1, 9), r.integers(6, 20)), 'n': int(r.integers(8, 20))})
    return {'wings': ws, 'foils': foils, 'name': str(r.choice(['D150', 'my model'])), 'refs': {k: float(r.uniform(0.5, 9)) for k in ('x', 'y', 'z', 'area', 'length')}, 'toolspec': r.random() < 0.85, 'order': int(r.integers(0, 1000)), 'model': True}


def coordinates(f):
    from airfoils import Airfoil
    a = Airfoil.NACA4(f['code'], n_points=f['n'])
    pts = np.array([np.concatenate([a._x_upper[::-1], a._x_lower[1:]]), np.concatenate([a._y_upper[::-1], a._y_lower[1:]])])
    return np.round(pts, 6)


def write(sp, file, extra=None):
    def sub(p, path, text=None, **attr):
        for s in path.split('/'):
            p = ET.SubElement(p, s)
        p.attrib.update(attr)
        if text is not None:
            p.text = text if isinstance(text, str) else repr(text)
        return p
    root = ET.Element('cpacs')
    veh = sub(root, 'vehicles')
    mod = sub(veh, 'aircraft/model', uID=sp['name'])
    ref = sub(mod, 'reference')
    sub(ref, 'area', sp['refs']['area'])
    sub(ref, 'length', sp['refs']['length'])
    pt = sub(ref, 'point')
    for k in 'xyz':
        sub(pt, k, sp['refs'][k])
    wings = sub(mod, 'wings')
    devs = []
    for w in sp['wings']:
        x = sub(wings, 'wing', **({'uID': w['attr']} if w['attr'] else {}))
        sg = sub(x, 'segments')
        for s in w['segments']:
            sub(sg, 'segment', **({'uID': s['attr']} if s['attr'] else {}))
        cs = sub(x, 'componentSegments')
        for c in w['components']:
            y = sub(cs, 'componentSegment', uID=c['uid'])
            if not c['devices'] and len(c['uid']) % 2:
                continue
            both = sub(y, 'controlSurfaces')
            if c['leading']:
                led = sub(both, 'leadingEdgeDevices')
            t = sub(both, 'trailingEdgeDevices')
            for d in c['devices']:
                z = sub(t, 'trailingEdgeDevice', uID=d['uid'])
                o = sub(z, 'outerShape')
                for b, i in (('innerBorder', 0), ('outerBorder', 1)):
                    q = sub(o, b)
                    for e, x in (('etaLE/eta', 'eta'), ('etaTE/eta', 'etaTE'), ('xsiLE/xsi', 'xsi')):
                        if d.get('missing') != b + '/' + e:
                            sub(q, e, d[x][i])
                pth = sub(z, 'path')
                for i, e in enumerate(('innerHingePoint/hingeXsi', 'outerHingePoint/hingeXsi')):
                    if d.get('missing') != e:
                        sub(pth, e, d['hinge'][i])
                devs.append(d)
            for k in range(c['leading']):       # as in the CPACS schema: the chord position of the trailing edge only
                z = sub(led, 'leadingEdgeDevice', uID='%s_led%d' % (c['uid'], k))
                o = sub(z, 'outerShape')
                for b in ('innerBorder', 'outerBorder'):
                    q = sub(o, b)
                    for e, x in (('etaLE/eta', 0.3), ('etaTE/eta', 0.3), ('xsiTE/xsi', 0.2)):
                        sub(q, e, x)
                pth = sub(z, 'path')
                sub(pth, 'innerHingePoint/hingeXsi', 0.2)
                sub(pth, 'outerHingePoint/hingeXsi', 0.2)
    prof = sub(veh, 'profiles/wingAirfoils')
    for f in sp['foils']:
        q = sub(prof, 'wingAirfoil')
        if f['name'] is not None:
            sub(q, 'name', f['name'])
        pl = sub(q, 'pointList')
        xs, zs = coordinates(f)
        for k, v in (('x', xs), ('y', 0 * xs), ('z', zs)):
            sub(pl, k, ';'.join('%.6f' % t for t in v))
    if sp['toolspec']:
        t = sub(root, 'toolspecific/pytornado/controlDevices')
        devs = [d for d in devs if 'deflection' in d]
        devs = devs[sp['order'] % (len(devs) or 1):] + devs[:sp['order'] % (len(devs) or 1)]
        for u, d in [(d['uid'], d) for d in devs] + ([(extra, {'deflection': 3.0, 'mirror': None})] if extra else []):
            q = sub(t, 'controlDevice', uID=u)
            if d['deflection'] is not None:
                sub(q, 'deflection', d['deflection'])
            if d['mirror'] is not None:
                sub(q, 'deflectionMirror', d['mirror'])
    ET.ElementTree(root).write(file)


def expected(sp, root):
    out = {}
    for w in sp['wings']:
        segs = {}
        for s in w['segments']:
            segs[s['uid']] = {'vertices': s['abcd'], 'airfoils': {k: os.path.join(root, 'airfoils', 'blade.' + clean(w['profiles'][s[k]])) for k in ('inner', 'outer')}}
        ctl = {}
        for c in w['components']:
            for d in c['devices']:
                if 'missing' in d:
                    continue
                (_, s0, e0, x0), (_, s1, e1, x1) = (local(w, c, d['eta'][i], d['xsi'][i]) for i in (0, 1))
                h = [local(w, c, d['eta'][i], d['hinge'][i])[3] for i in (0, 1)]
                dfl = d.get('deflection') if sp['toolspec'] else None
                dfl = 0 if dfl is None else dfl
                mir = d.get('mirror') if sp['toolspec'] and 'deflection' in d else None
                if w['symmetry'] and mir is None:
                    mir = dfl
                ctl[d['uid']] = {'device_type': 'flap', 'deflection': dfl, 'deflection_mirror': mir if w['symmetry'] else None, 'segment_uid': {'inner': clean(s0), 'outer': clean(s1)},
                                 'rel_vertices': {'eta_inner': e0, 'eta_outer': e1, 'xsi_inner': x0, 'xsi_outer': x1}, 'rel_hinge_vertices': {'xsi_inner': h[0], 'xsi_outer': h[1]}}
        out[w['uid']] = {'symmetry': w['symmetry'], 'segments': segs, 'controls': ctl}
    q = sp['refs']
    refs = {'gcenter': [q['x'], q['y'], q['z']], 'rcenter': [q['x'], q['y'], q['z']], 'area': q['area'], 'span': q['length'], 'chord': q['length']}
    return {'wings': out, 'refs': refs}


def found(ac, sp):
    out = {}
    for wu, w in ac.wings.items():
        segs = {su: {'vertices': {k: [float(x) for x in s.vertices[k]] for k in 'abcd'}, 'airfoils': {k: str(s.airfoils[k]) for k in ('inner', 'outer')}} for su, s in w.segments.items()}
        ctl = {cu: {'device_type': c.device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror if w.symmetry else None, 'segment_uid': dict(c.segment_uid),
                    'rel_vertices': dict(c.rel_vertices), 'rel_hinge_vertices': {k: c.rel_hinge_vertices[k] for k in ('xsi_inner', 'xsi_outer')}} for cu, c in w.controls.items()}
        out[wu] = {'symmetry': w.symmetry, 'segments': segs, 'controls': ctl}
    return {'wings': out, 'refs': {k: np.asarray(ac.refs[k], dtype=float).tolist() for k in ('gcenter', 'rcenter', 'area', 'span', 'chord')}}


def differ(w, g, path=''):
    """first difference (order of keys counts) or None"""
    if isinstance(w, dict):
        if not isinstance(g, dict) or list(w) != list(g) and path.count('/') != 4 and set(w) == set(g) and path.endswith(('wings', 'segments', 'controls')):
            return path + ' (order)', list(w), list(g)
        if set(w) != set(g):
            return path, list(w), list(g)
        for k in w:
            d = differ(w[k], g[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(w, (list, tuple)):
        if len(w) != len(g):
            return path, w, g
        for i, (x, y) in enumerate(zip(w, g)):
            d = differ(x, y, path + '[%d]' % i)
            if d:
                return d
        return None
    if isinstance(w, (int, float)) and not isinstance(w, bool):
        ok = isinstance(g, (int, float, np.floating)) and abs(w - g) < 1e-9
    else:
        ok = w == g
    return None if ok else (path, w, g)


def install():
    """the CPACS libraries are not installed: stand-ins below the package's own functions"""
    from pytornado.fileio.cpacs import aircraft as am, utils as cu
    tx = type('tixi', (), {'Tixi': Tixi, 'TixiException': TixiException})
    tg = type('tigl', (), {'Tigl': Tigl, 'TiglException': TiglException})
    old = [(m, k, getattr(m, k, install)) for m, k in ((cu, 'TIXI_INSTALLED'), (cu, 'TIGL_INSTALLED'), (cu, 'tixiwrapper'), (cu, 'tiglwrapper'), (am, 'tixiwrapper'))]
    cu.TIXI_INSTALLED = cu.TIGL_INSTALLED = True
    cu.tixiwrapper = am.tixiwrapper = tx
    cu.tiglwrapper = tg
    return old


def restore(old):
    for m, k, v in old:
        if v is install:
            delattr(m, k)
        else:
            setattr(m, k, v)


def aircraft(ctx):
    """K02: load of whole documents"""
    from pytornado.fileio.cpacs import aircraft as am
    from pytornado.objects.settings import Settings
    r = ctx.rng()
    old = install()
    try:
        for _ in range(30 * ctx.scale):
            sp = specification(r)
            wkdir = M.scratch()
            st = Settings('job.json', wkdir, settings_dict={'aircraft': 'model.xml', 'state': '__CPACS'})
            extra = 'nobody' if r.random() < 0.12 and sp['toolspec'] else None
            f = str(st.paths('f_aircraft'))
            write(sp, f, extra)
            Tigl.spec = sp
            src = open(f).read()
            ctx.count()
            ctx.current = info = {'document': describe(sp), 'unknown control': extra}
            try:
                ac = am.load(st)
            except am.ComponentDefinitionError as e:
                if extra:
                    continue
                raise
            if extra:
                ctx.fail('deflection of an unknown control', info, 'error', 'accepted', 'unknown')
                continue
            want, got = expected(sp, str(st.paths('root'))), found(ac, sp)
            d = differ(want, got)
            if d:
                ctx.fail('model read: %s' % re.sub(r'[^/]*\d[^/]*', '*', d[0]), dict(info, at=d[0]), d[1], d[2], 'read ' + d[0].split('/')[-1])
            if open(f).read() != src:
                ctx.fail('document', info, 'unchanged', 'changed', 'touched')
            foil_files(ctx, sp, wkdir, info)
            if not ac.state:
                ctx.fail('aircraft is generated', info, True, False, 'generated')
    finally:
        restore(old)


def foil_files(ctx, sp, wkdir, info):
    d = os.path.join(wkdir, 'airfoils')
    have = sorted(os.listdir(d)) if os.path.isdir(d) else []
    for q in sp['foils']:
        w = coordinates(q).T
        for n in (['blade.' + clean(q['name'])] if q['name'] is not None else have):
            g = np.loadtxt(os.path.join(d, n)) if n in have else None
            if g is not None and g.shape == w.shape and np.allclose(g, w, atol=2e-7):
                break
        else:
            ctx.fail('airfoil file %s' % q['name'], info, w[:3], have if g is None else g[:3], 'foil')


def convert(ctx):
    """K03: document -> native file -> model"""
    import b_files as BF
    from pytornado.fileio.native import aircraft as na
    from pytornado.stdfun import setup as S
    from pytornado.objects.settings import Settings
    r = ctx.rng(7)
    old = install()
    try:
        for t in range(16 * ctx.scale):
            sp = specification(r)
            wkdir = M.scratch()
            sub = ('', 'aircraft', 'data')[t % 3]
            os.makedirs(os.path.join(wkdir, sub), exist_ok=True)
            has = bool(t % 4 == 1)
            if has:
                os.makedirs(os.path.join(wkdir, 'airfoils'))
            stem = ('model', 'd150.v30', 'A.xml')[int(r.integers(3))]
            name = stem + ('.xml', '.XML')[int(r.integers(2))]
            rel = os.path.join(sub, name)
            f = os.path.join(wkdir, rel)
            write(sp, f)
            Tigl.spec = sp
            src = open(f).read()
            given = f if t % 2 else rel
            ctx.count()
            ctx.current = info = {'document': describe(sp), 'file': given, 'airfoil folder exists': has}
            _, code = BF.in_dir(wkdir, S.cpacs2pytornado, given)
            if code is not None:
                ctx.fail('conversion', info, 'done', 'exit %r' % code.code, 'exit')
                continue
            j = os.path.join(wkdir, sub, stem + '.json')
            if not os.path.isfile(j):
                ctx.fail('native file beside the CPACS file', info, stem + '.json', sorted(os.listdir(os.path.join(wkdir, sub))), 'file')
                continue
            if open(f).read() != src:
                ctx.fail('CPACS document', info, 'unchanged', 'changed', 'touched')
            foil_files(ctx, sp, wkdir, info)
            st = Settings('job.json', wkdir, settings_dict={'aircraft': os.path.join('..', sub, stem + '.json'), 'state': 's.json'})
            ac = na.load(st)
            d = differ(expected(sp, str(st.paths('root'))), found(ac, sp))
            if d:
                ctx.fail('converted model: %s' % re.sub(r'[^/]*\d[^/]*', '*', d[0]), dict(info, at=d[0]), d[1], d[2], 'read ' + d[0].split('/')[-1])
    finally:
        restore(old)


def describe(sp):
    sp = copy.deepcopy(sp)
    for w in sp['wings']:
        w['profiles'] = {'%d,%d' % k: v for k, v in w['profiles'].items()}
    return sp

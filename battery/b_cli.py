"""I06: command line and aircraft database, executed"""
import contextlib
import importlib.machinery
import importlib.util
import io as _io
import json
import logging
import os
import sys

import numpy as np

import model as M
import b_files as BF


def program():
    import pytornado
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(pytornado.__file__)))), 'bin')
    n = [f for f in sorted(os.listdir(p)) if not f.endswith('.bat')][0]
    ld = importlib.machinery.SourceFileLoader('cli_main', os.path.join(p, n))
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader(ld.name, ld))
    ld.exec_module(mod)
    return mod


def call(mod, wkdir, *args):
    """(status, output): status 0 is success"""
    out, err = _io.StringIO(), _io.StringIO()
    old, av = os.getcwd(), sys.argv
    os.chdir(wkdir)
    sys.argv = ['pytornado', *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main()
                st = 0
            except SystemExit as e:
                st = e.code or 0
            except (RuntimeError, ValueError, FileNotFoundError) as e:
                st = repr(e)
    finally:
        os.chdir(old)
        sys.argv = av
        logging.disable(logging.CRITICAL)
    return st, out.getvalue()



def run(ctx):
    """I06: the actions of the command line"""
    import pytornado.database as dbp
    from pytornado.fileio.native import settings as ns, aircraft as na
    r = ctx.rng(3)
    mod = program()
    db = os.path.join(os.path.dirname(os.path.abspath(dbp.__file__)), 'aircraft')
    names = sorted(f[:-5] for f in os.listdir(db) if f.endswith('.json'))
    files = {n: json.load(open(os.path.join(db, n + '.json'))) for n in names}

    # ----- database
    d = M.scratch()
    ctx.count()
    ctx.current = {'options': '--list-example-from-db'}
    st, out = call(mod, d, str(r.choice(['--list-example-from-db', '--ldb'])))
    for n in names:
        line = [x for x in out.split('\n') if n in x.split()]
        if st or len(line) != 1 or files[n].get('comment', '') not in line[0]:
            ctx.fail('listing of the database', ctx.current, '%s -- %s' % (n, files[n].get('comment')), out, 'list')
    for i, n in enumerate(names):
        d = M.scratch()
        given = n + ('.json' if r.random() < 0.5 else '')
        ctx.count()
        ctx.current = {'options': ['--make-example-from-db', given]}
        st, out = call(mod, d, str(r.choice(['--make-example-from-db', '--mdb'])), given)
        sdir = os.path.join(d, 'pytornado', 'settings')
        sf = sorted(os.listdir(sdir)) if os.path.isdir(sdir) else []
        if st or len(sf) != 1:
            ctx.fail('project from the database', ctx.current, 'one project', [st, sf, out[-300:]], 'db')
            continue
        s = ns.load(os.path.join(sdir, sf[0]))
        ac = na.load(s)
        w = files[n]
        if ac.uid != w.get('uid') or [x['uid'] for x in w['wings']] != list(ac.wings) or \
                [[q['uid'] for q in x['segments']] for x in w['wings']] != [list(x.segments) for x in ac.wings.values()] or \
                any(not np.allclose(np.asarray(q['vertices'][k], float), ac.wings[x['uid']].segments[q['uid']].vertices[k]) for x in w['wings'] for q in x['segments'] for k in q['vertices']):
            ctx.fail('aircraft of the project', ctx.current, [w.get('uid'), [x['uid'] for x in w['wings']]], [ac.uid, list(ac.wings)], 'db aircraft')
    for bad in ('nothing', names[0][:-1], names[0] + 'x', names[-1].upper() + '_'):
        if bad in names:
            continue
        d = M.scratch()
        ctx.count()
        ctx.current = {'options': ['--mdb', bad]}
        st, out = call(mod, d, '--mdb', bad)
        if not st or BF.tree(d):
            ctx.fail('unknown aircraft', ctx.current, 'error and nothing made', [st, sorted(BF.tree(d))], 'unknown')

    # ----- projects
    for t in range(10 * ctx.scale):
        d = M.scratch()
        for s in ('aircraft', 'settings', 'state'):
            os.makedirs(os.path.join(d, s))
        content = {'uid': 'a', 'refs': {'area': 2.0, 'span': 2.0, 'chord': 1.0, 'gcenter': [0, 0, 0], 'rcenter': [0, 0, 0]},
                   'wings': [{'uid': 'w', 'symmetry': 0, 'segments': [{'uid': 's', 'vertices': {'a': [0, 0, 0], 'b': [0, 2, 0], 'c': [1, 2, 0], 'd': [1, 0, 0]}, 'airfoils': {'inner': 'NACA0012', 'outer': 'NACA0012'}}], 'controls': []}]}
        aero = {'airspeed': 30.0, 'density': 1.2, 'alpha': 2.0, 'beta': 0.0, 'rate_P': 0.0, 'rate_Q': 0.0, 'rate_R': 0.0}
        case = ('case', 'b.c')[t % 2]
        for p, o in (('aircraft/a.json', content), ('state/s.json', {'aero': aero}), ('settings/%s.json' % case, {'aircraft': 'a.json', 'state': 's.json', 'vlm_autopanels_c': 1, 'vlm_autopanels_s': 2, 'save_results': {'panelwise': False, 'global': True, 'matrix_system': False, 'aeroperformance': False}})):
            with open(os.path.join(d, p), 'w') as fp:
                json.dump(o, fp)
        sf = os.path.join('settings', case + '.json')
        keep = {k: v for k, v in BF.tree(d).items()}
        old = os.path.join(d, '_results', case + '_000', 'old.dat')
        os.makedirs(os.path.dirname(old))
        open(old, 'w').write('old')
        new = os.path.join(d, '_results', case + '_000', 'global.json')
        kind = t % 5
        opts = [['--run', sf], ['--run', sf, '--clean'], ['-r', sf, '--clean-only'], [('--clean', '--clean-only', '-c')[t % 3]], [['--run', sf, '--make-example'], ['--cpacs2json', 'aircraft/a.json', '--run', sf, '--clean'], ['--run', sf, '--clean', '--clean-only']][t % 3]][kind]
        if kind < 2:
            opts.append('-q')
        ctx.count()
        ctx.current = info = {'options': opts}
        st, out = call(mod, d, *opts)
        want = [(0, True, True), (0, False, True), (0, False, False), (1, True, False), (1, True, False)][kind]
        got = (1 if st else 0, os.path.exists(old), os.path.exists(new))
        if got != want:
            ctx.fail('command line', info, dict(zip(('error', 'old results kept', 'new results'), want)), dict(zip(('error', 'old results kept', 'new results'), got), status=st), 'project %d' % kind)
        after = BF.tree(d)
        for k in keep:
            if not k.endswith('/') and after.get(k, 0) != keep[k]:
                ctx.fail('input files of the project', info, 'unchanged', k, 'touched')
        if kind in (3, 4) and os.path.exists(os.path.join(d, 'pytornado')):
            ctx.fail('contradicting options', info, 'nothing is done', 'template made', 'made')

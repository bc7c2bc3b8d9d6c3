#!/opt/venv/bin/python
"""check.py <PROPERTY>: discharge the contracts of the property on /repo's current tree.

Deductive part: every obligation generated from the current source must be discharged.
Bounded part (labelled so, never counted as proved): the real code is executed on generated
inputs against the same specification, to turn a failed obligation into a concrete input."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if __name__ == '__main__' and os.path.realpath(sys.prefix) != '/opt/venv':
    # the interpreter and the libraries the code under verification runs with
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, VERIF)
if VT not in sys.path:
    sys.path.append(VT)      # z3 only; everything else comes from the build's environment
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
REPO = os.environ.get('PYTORNADO_REPO', '/repo')
CHECKER = 'python3-vt check.py %s  (vcg: symbolic VC generation over the clang AST / the CPython execution of /repo; back ends: polynomial normal form, z3 %s)'

TRUST_C = ['clang 18 parses the C++ sources as the build compiler does',
           'vcg (own VC generator): C++ semantics of the subset used; cross-checked by the bounded runs of the compiled extension']
TRUST_P = ['vcg.pysym (own VC generator): functions of /repo are executed by CPython itself on symbolic values; loops over unbounded sequences are cut at contracts']
TRUST_A = ['z3 and the polynomial normaliser vcg.terms/vcg.prover']


def build_scratch(scratch):
    """copy of the library with a freshly compiled extension; /repo itself is not touched"""
    lib = os.path.join(scratch, 'lib')
    shutil.copytree(os.path.join(REPO, 'src/lib/pytornado'), os.path.join(lib, 'pytornado'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    if os.path.isdir(os.path.join(REPO, 'src/bin')):
        shutil.copytree(os.path.join(REPO, 'src/bin'), os.path.join(scratch, 'bin'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    from vcg.cfront import includes
    aero = os.path.join(lib, 'pytornado/aero')
    cpps = sorted(f for f in os.listdir(aero) if f.endswith('.cpp'))
    ps = []
    for f in cpps:
        ps.append(subprocess.Popen(['g++', '-O1', '-fPIC', '-w', '-c', f, '-o', f[:-4] + '.o'] + includes(), cwd=aero,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    errs = []
    for p in ps:
        o, _ = p.communicate(timeout=300)
        if p.returncode:
            errs.append(o[-1500:])
    if not errs:
        suf = subprocess.run([VENV, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True).stdout.strip()
        p = subprocess.run(['g++', '-shared', '-o', 'c_vlm' + suf] + [f[:-4] + '.o' for f in cpps], cwd=aero, capture_output=True, text=True)
        if p.returncode:
            errs.append(p.stderr[-1500:])
    return lib, errs


def start_battery(prop, names, lib, scratch, seed, tier, hard):
    out = os.path.join(scratch, 'battery_%d.json' % hard)
    env = dict(os.environ, PYTHONPATH=lib + ':' + os.path.join(VERIF, 'battery'), MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', HOME=scratch, BATTERY_SCRATCH=scratch)
    cwd = os.path.join(scratch, 'cwd%d' % hard)
    os.makedirs(cwd, exist_ok=True)
    log = open(os.path.join(scratch, 'battery_%d.log' % hard), 'w')
    p = subprocess.Popen([VENV, os.path.join(VERIF, 'battery', 'run.py'), prop, ','.join(names), str(seed), tier, str(hard), out],
                         env=env, cwd=cwd, stdout=log, stderr=subprocess.STDOUT)
    return p, out, log.name


def wait_battery(b, limit):
    p, out, log = b
    try:
        p.wait(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = 'timeout'
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        res = {'evaluations': 0, 'failures': [], 'per_check': {}, 'samples': [], 'partial': True}
    res['rc'] = rc
    if rc != 0:
        try:
            res['log'] = open(log).read()[-2000:]
        except OSError:
            pass
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from registry import PROPS
    P = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        rc = decide(prop, P, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def decide(prop, P, tier, seed, scratch, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    from vcg.harness import run_groups
    lib, errs = build_scratch(scratch)
    os.environ['VERIF_LIB'] = lib
    b = None
    if P['battery'] and not errs:
        b = start_battery(prop, P['battery'], lib, scratch, seed, tier, 0)
    groups = run_groups(P['groups'], limit=P.get('limit', 400), nproc=6)
    failed, total, ok, by, solver = [], 0, 0, {}, 0.0
    funs, notes = set(), []
    for g in groups:
        funs |= set(g['functions'])
        notes += g['notes']
        if g['error']:
            total += 1
            failed.append({'name': 'verification conditions of %s' % g['spec'], 'backend': 'front end', 'detail': g['error']})
        for o in g['obls']:
            total += 1
            solver += o.get('t', 0)
            if o['ok']:
                ok += 1
                by[o['backend']] = by.get(o['backend'], 0) + 1
            else:
                failed.append(o)
    if errs:
        total += 1
        failed.append({'name': 'compilation of the extension', 'backend': 'g++', 'detail': '\n'.join(errs)})
    res = wait_battery(b, 300 if tier == 'quick' else 3000) if b else None
    if failed and b and not res['failures'] and not errs:
        # an obligation failed: search harder for a concrete failing input
        res2 = wait_battery(start_battery(prop, P['battery'], lib, scratch, seed, tier, 1), 150)
        res['failures'] = res2['failures']
        res['evaluations'] += res2['evaluations']
    fails = list(res['failures']) if res else []
    if res and isinstance(res['rc'], int) and res['rc'] < 0:
        fails.append({'check': 'crash', 'key': 'crash', 'what': 'the real code crashed (signal %d)' % -res['rc'], 'input': 'seed %d' % seed, 'got': res.get('log', '')[-500:]})
    elif res and res['rc'] != 0:
        total += 1
        failed.append({'name': 'bounded executions finish', 'backend': 'battery', 'detail': str(res['rc']) + ' ' + res.get('log', '')[-600:]})
    known = load_known(prop)
    lines, viol = [], []
    seen_known = set()
    for f in fails:
        k = match_known(known, f)
        if k is None:
            viol.append(f)
        elif k['id'] not in seen_known:
            seen_known.add(k['id'])
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, prop + '.json')
    rc = 0
    if viol or failed:
        rc = 1
        doc = {'property': prop, 'failed_obligations': [{k: v for k, v in o.items() if k in ('name', 'backend', 'detail', 'goal')} for o in failed[:40]],
               'failing_inputs': viol[:5], 'how_to_replay': 'inputs are complete: battery check and arguments; VERIF_SEED=%d %s check.py %s' % (seed, 'python3-vt', prop)}
        with open(replay, 'w') as fh:
            json.dump(doc, fh, indent=1, default=str)
        for o in failed[:10]:
            print('FAILED OBLIGATION %s [%s] %s' % (o['name'], o.get('backend'), (o.get('detail') or '').strip().replace('\n', ' | ')[-400:]))
        for f in viol[:3]:
            print('FAILING INPUT %s' % json.dumps(f, default=str)[:800])
        line = 'VIOLATION property=%s replay=%s' % (prop, replay)
        if not viol:
            line += ' no-failing-input-found'
        lines.append(line)
    for l in lines:
        print(l)
    cov = {'obligations': total, 'discharged': ok, 'checker_cmd': CHECKER % (prop, z3v()),
           'trusted_base': list(P['trusted']) + TRUST_A, 'functions_under_contract': sorted(funs), 'discharged_by': by,
           'solver_time_s': round(solver, 2), 'groups': {g['spec']: len(g['obls']) for g in groups},
           'samples': [o['name'] for g in groups for o in g['obls'] if o['ok']][:8]}
    if notes:
        cov['notes'] = sorted(set(notes))[:20]
    if res:
        cov['bounded'] = {'label': 'bounded: executions of the real code on generated inputs; not counted as proved',
                          'evaluations': res['evaluations'], 'per_check': res.get('per_check', {}), 'finished': res['rc'] == 0}
        if res.get('log'):
            cov['bounded']['log'] = res['log'][-600:]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': P['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + (len(failed) if not viol else 0)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d bounded executions, %.1f s' % (prop, ok, total, res['evaluations'] if res else 0, time.time() - t0))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.jsonl')):
            if l.strip():
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    except OSError:
        pass
    return out


def match_known(known, f):
    for k in known:
        if k.get('check') == f.get('check') and k.get('key') == f.get('key'):
            return k
    return None


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

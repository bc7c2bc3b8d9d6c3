"""Runs contract groups: VC generation in a forked process, obligations discharged in
parallel forked workers.  Anything that is not a discharged obligation is a failure."""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def _generate(spec):
    """-> (obligations [(name, facts, goal)], functions)"""
    mod, fun = spec.split(':')
    m = importlib.import_module(mod)
    r = getattr(m, fun)()
    rs = r if isinstance(r, (list, tuple)) else [r]
    obls, funs, notes = [], [], []
    for x in rs:
        ex = getattr(x, 'ex', x)
        obls += [(o.name, o.facts, o.goal) for o in ex.obls]
        funs += list(getattr(x, 'functions', None) or ([x.fname] + sorted(getattr(ex, 'inlined', ()))))
        notes += list(getattr(ex, 'warn', ()) or ())
    return obls, sorted(set(funs)), notes


def _worker(obls, idxs, fd, deadline, per):
    from vcg.prover import Prover, flat
    pr = Prover()
    out = os.fdopen(fd, 'w')
    signal.signal(signal.SIGALRM, _alarm)
    for i in idxs:
        name, facts, goal = obls[i]
        t = time.time()
        rec = {'i': i, 'name': name}
        try:
            if t > deadline:
                raise Timeout()
            signal.alarm(int(max(1, min(per, deadline - t))))
            r = pr.prove(flat(facts), goal)
            rec.update(ok=bool(r.ok), backend=r.backend, detail=None if r.ok else str(r.detail or '')[:3000])
            if not r.ok:
                rec['goal'] = repr(goal)[:1500]
        except Timeout:
            rec.update(ok=False, backend='timeout', detail='no proof within the time limit')
        except Exception as e:
            rec.update(ok=False, backend='error', detail=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1000:])
        finally:
            signal.alarm(0)
        rec['t'] = round(time.time() - t, 4)
        out.write(json.dumps(rec) + '\n')
        out.flush()
    out.close()


def _group(spec, select_, fd, deadline, nproc, per):
    out = os.fdopen(fd, 'w')
    res = {'spec': spec, 'obls': [], 'functions': [], 'notes': [], 'error': None}
    t0 = time.time()
    try:
        obls, funs, notes = _generate(spec)
        res['functions'], res['notes'] = funs, notes
        if select_:
            obls = [o for o in obls if select_(o[0])]
        res['gen_s'] = round(time.time() - t0, 2)
        # vacuity: the preconditions must be satisfiable
        from vcg.prover import Prover, flat
        from vcg.terms import FALSE
        seen = set()
        pr = Prover()
        for nm, facts, goal in obls[:1] + obls[-1:]:
            fs = flat(facts)
            k = tuple(f.id for f in fs)
            if k in seen or len(fs) > 60:
                continue
            seen.add(k)
            if pr.smt(fs, FALSE, False, 2.0).ok:
                res['obls'].append({'name': 'preconditions of %s are satisfiable' % nm, 'ok': False, 'backend': 'z3', 't': 0, 'detail': 'contradictory preconditions'})
        k = max(1, min(nproc, (len(obls) + 19) // 20))
        pipes = []
        for w in range(k):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _worker(obls, range(w, len(obls), k), wr, deadline, per)
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append((pid, r))
        got = {}
        for pid, r in pipes:
            f = os.fdopen(r)
            while True:
                left = deadline + 5 - time.time()
                rd, _, _ = select.select([f], [], [], max(0.1, left))
                if not rd:
                    os.kill(pid, signal.SIGKILL)
                    break
                line = f.readline()
                if not line:
                    break
                # drain everything that is buffered
                rec = json.loads(line)
                got[rec['i']] = rec
                for line in f:
                    rec = json.loads(line)
                    got[rec['i']] = rec
                break
            os.waitpid(pid, 0)
        for i, (nm, facts, goal) in enumerate(obls):
            res['obls'].append(got.get(i) or {'name': nm, 'ok': False, 'backend': 'timeout', 'detail': 'worker ended', 't': 0})
        if not obls:
            res['error'] = 'no obligations generated'
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    out.write(json.dumps(res))
    out.close()


def run_groups(groups, limit=300, per=60, nproc=4):
    """groups: [(spec, select)] -> list of results"""
    deadline = time.time() + limit
    ps = []
    for spec, sel in groups:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                _group(spec, sel, w, deadline, nproc, per)
            finally:
                os._exit(0)
        os.close(w)
        ps.append((pid, r, spec))
    out = []
    for pid, r, spec in ps:
        buf = b''
        while True:
            left = deadline + 20 - time.time()
            rd, _, _ = select.select([r], [], [], max(0.1, left))
            if not rd:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                break
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        try:
            out.append(json.loads(buf))
        except ValueError:
            out.append({'spec': spec, 'obls': [], 'functions': [], 'notes': [], 'error': 'verification of this group did not finish'})
    return out

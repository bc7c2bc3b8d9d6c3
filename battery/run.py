"""bounded executions of the real code: run.py PROP check,check SEED TIER HARD OUT"""
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings
import logging

import numpy as np

prop, names, seed, tier, hard, out = sys.argv[1:7]
seed, hard = int(seed), int(hard)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


HERE = os.path.dirname(os.path.abspath(__file__))


class Fail(Exception):
    pass


class Ctx:
    """one battery run"""

    def __init__(self):
        self.failures, self.evals, self.per = [], 0, {}
        self.samples = []
        self.scale = (4 if hard else 1) * (6 if tier == 'thorough' else 1)
        self.start = time.time()
        self.budget = 60 if tier == 'quick' else 600
        self.name = '?'
        self.current = None

    def rng(self, salt=0):
        return np.random.default_rng([seed + 1000 * hard, abs(hash_(self.name)) % 100003, salt])

    def count(self, n=1):
        self.evals += n
        self.per[self.name] = self.per.get(self.name, 0) + n

    def fail(self, what, inp, expected=None, got=None, key=None):
        self.failures.append({'check': self.name, 'key': key or what, 'what': what, 'input': jsonable(inp), 'expected': jsonable(expected), 'got': jsonable(got)})
        if len([f for f in self.failures if f['check'] == self.name]) >= 3:
            raise Fail()

    def spent(self):
        return time.time() - self.start > self.budget


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:500]


def main():
    ctx = Ctx()
    harness = []
    np.seterr(all='ignore')
    for nm in names.split(','):
        mod, fun = nm.split(':')
        ctx.name = nm
        ctx.current = None
        random.seed(seed)
        np.random.seed(seed)
        try:
            m = importlib.import_module(mod)
            getattr(m, fun)(ctx)
        except Fail:
            pass
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            inner = tb.tb_frame.f_code.co_filename
            if os.path.dirname(os.path.abspath(inner)) == HERE and not getattr(e, 'real', False):
                harness.append(traceback.format_exc()[-1500:])    # the battery itself does not fit the code any more: no failing input
                continue
            ctx.failures.append({'check': nm, 'key': 'exception', 'what': 'the code under test raised an unexpected error', 'input': jsonable(ctx.current) if ctx.current is not None else 'seed %d' % seed,
                                 'expected': 'no error', 'got': traceback.format_exc()[-1500:]})
    json.dump({'evaluations': ctx.evals, 'failures': ctx.failures, 'per_check': ctx.per, 'samples': ctx.samples}, open(out, 'w'), default=str)
    if harness:
        print('\n'.join(harness))
        sys.exit(3)


main()

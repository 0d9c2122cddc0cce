"""Common loop of the refuters: execute the real code on CPython against an independent oracle."""
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
if VENV not in sys.path:
    sys.path.append(VENV)


class Mismatch(Exception):
    def __init__(self, what, **info):
        self.what, self.info = what, info
        Exception.__init__(self, what)


def require(cond, what, **info):
    if not cond:
        raise Mismatch(what, **info)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.samples = []

    def case(self, key, sample=None):
        self.evaluations += 1
        if len(self.seen) < 200000:
            self.seen.add(hash(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(str(sample)[:300])


def loop(prop, fixed, randoms, seed, seconds, worker, rule):
    """fixed: list of callables(stats) run first (worker 0 runs all, others a share); randoms: callables(rng, stats)."""
    t0 = time.time()
    st = Stats()
    rng = random.Random('%s/%s/%s' % (prop, seed, worker))
    fail = None
    cur = None

    def failure(m, where):
        d = {'what': m.what, 'signature': '%s: %s' % (prop, m.what), 'case': where}
        for k, v in m.info.items():
            d[k] = v if isinstance(v, str) else repr(v)
        return d
    try:
        for f in fixed:
            cur = f.__name__
            f(st)
            if time.time() - t0 > seconds and worker:
                break
        i = 0
        while randoms and time.time() - t0 < seconds:
            f = randoms[i % len(randoms)]
            i += 1
            cur = f.__name__
            f(rng, st)
    except Mismatch as m:
        fail = failure(m, cur)
    return dict(evaluations=st.evaluations, distinct=len(st.seen), samples=st.samples, rule=rule, failure=fail)


def tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:]

"""Results are values: what one evaluation returned is not altered by anything evaluated afterwards,
and an evaluation does not depend on what was evaluated before it."""
import copy
import numpy as np
import pandas as pd
import models as M, omp, engine
from props.c01 import finish
from props.c04 import warm

ID = 'C05'
LEVEL = 'exploration'
BUDGET = {'quick': (1500, 60), 'thorough': (60000, 1500)}
REAL = ['larch.Model', 'larch.numba.Model', 'larch.DataFrames']
STUB = ['OpenMP runtime: libsimomp (seeded, preemptive)', 'numba parallel backend: libsimpool (seeded division and order of work)']
ASSUMPTIONS = ['results are examined through the public interface; in-place changes made by the caller to a returned array are not part of the property']
KEY_MEASURE = 'distinct hashes of schedule and work division of a run'
SHRINK_LISTS = (('ops',),)


def generate(rng, i, tier):
    numba = rng.random() < 0.5
    s = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8, 13]))
    kinds = engine.KINDS_NUMBA + ['quantity'] * bool(s['q_ca']) if numba else engine.KINDS_NATIVE
    ops = engine.gen_ops(rng, s, rng.randint(3, 8), kinds, numba=numba)
    for op in ops:
        if op['k'] in ('ll2', 'bhhh3') and not numba and rng.random() < 0.5:
            op['persist'] = 0xffff
    return {'spec': s, 'numba': int(numba), 'sched': omp.gen_sched(rng), 'autoscale': int(rng.random() < 0.2 and bool(s['wt'])), 'ops': ops}


def freeze(v):
    """an independent copy of a result"""
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return (type(v).__name__, np.array(v.values, copy=True), list(v.index))
    if isinstance(v, np.ndarray):
        return ('array', np.array(v, copy=True), None)
    return ('value', copy.deepcopy(v), None)


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if a[0] != b[0] or a[2] != b[2]:
        return False
    if isinstance(a[1], np.ndarray):
        return a[1].shape == b[1].shape and np.array_equal(np.asarray(a[1]), np.asarray(b[1]), equal_nan=a[1].dtype.kind == 'f')
    return a[1] == b[1] or a[1] != a[1]


def run(case, world):
    s = case['spec']
    numba = bool(case['numba'])
    omp.start(case['sched'])
    ref = M.Ref(s)
    import larch, larch.numba as ln
    m = M.make_model(s, cls=ln.Model if numba else larch.Model, d=ref.d, autoscale=bool(case.get('autoscale')))
    S = engine.Session(m, s, ref, numba=numba, tag='numba engine' if numba else 'compiled engine')
    held = []
    for i, op in enumerate(case['ops']):
        got = S.do(world, op)
        held.append((i, op, got, freeze(got)))
        for j, o, live, frozen in held:
            world.check(same(freeze(live), frozen), 'an earlier result changed',
                        lambda: '%s: the result of call %d (%s) was altered by call %d (%s)' % (S.tag, j, o['k'], i, op['k']))
    world.count('results-held', len(held))


simplify = engine.simplify_common

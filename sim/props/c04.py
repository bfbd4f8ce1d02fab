"""numba engine: values do not depend on how the cases are divided among workers, nor on what was evaluated before."""
import numpy as np
import models as M, omp, engine
from props.c01 import finish

ID = 'C04'
LEVEL = 'exploration'
BUDGET = {'quick': (1600, 60), 'thorough': (60000, 1500)}
REAL = ['larch.numba.Model compiled by numba from the current tree', 'larch.DataFrames', 'numpy, pandas']
STUB = ['numba parallel backend: libsimpool divides and orders the work by seed (chunks run to completion, one at a time)',
        'OpenMP runtime: libsimomp']
ASSUMPTIONS = ['work chunks handed out by the numba runtime are executed one after another in any order and any division; '
               'instruction-level interleaving of two chunks is not simulated (each chunk writes its own rows)',
               'the reference model (plain numpy, complex-step derivatives) states what the values are']
KEY_MEASURE = 'distinct hashes of the sequence of (worker, first row, last row) chunks executed'
SHRINK_LISTS = (('ops',),)


def warm():
    omp.install_pool()
    import larch, larch.numba as ln, random
    omp.start({'on': 0})
    for nested in (True, False):
        for fmt in ('ca', 'ce'):
            s = M.gen_spec(random.Random(3), fmt=fmt, n_alts=4, n_cases=3)
            m = M.make_model(s, cls=ln.Model)
            m.loglike2_bhhh(); m.probability(); m.utility()


def generate(rng, i, tier):
    s = M.gen_spec(rng, **({'n_cases': rng.choice([55, 90, 300])} if rng.random() < 0.1 else {}))
    ops = engine.gen_ops(rng, s, rng.randint(2, 6), engine.KINDS_NUMBA, numba=True, threads=False)
    engine.add_extremes(rng, s, ops, ('prob', 'logsums'))
    return {'spec': s, 'sched': omp.gen_sched(rng), 'autoscale': int(rng.random() < 0.3 and bool(s['wt'])), 'ops': ops}


def run(case, world):
    import larch.numba as ln
    s = case['spec']
    omp.start(case['sched'])
    ref = M.Ref(s)
    m = M.make_model(s, cls=ln.Model, d=ref.d, autoscale=bool(case.get('autoscale')))
    S = engine.Session(m, s, ref, numba=True, tag='numba engine')
    for op in case['ops']:
        S.do(world, op)


simplify = engine.simplify_common

"""Compiled engine: likelihood, gradient and BHHH do not depend on how the team of threads is scheduled."""
import models as M, omp, engine

ID = 'C01'
LEVEL = 'exploration'
BUDGET = {'quick': (1200, 45), 'thorough': (60000, 1500)}
REAL = ['larch.Model (controller, mnl, nl, dataframes compiled from the current tree)', 'larch.DataFrames', 'numpy, pandas, BLAS']
STUB = ['OpenMP runtime: libsimomp runs each team on one OS thread with a seeded scheduler preempting at memory accesses']
ASSUMPTIONS = ['threads interleave at the granularity of single memory accesses (sequential consistency); weak-memory reorderings are not simulated',
               'the reference model (plain numpy, complex-step derivatives) states what the values are']
KEY_MEASURE = 'distinct hashes of the complete thread-switch sequence of a run'
SHRINK_LISTS = (('ops',),)
schedule_log = True


def warm():
    import larch, numpy, pandas


def generate(rng, i, tier):
    s = M.gen_spec(rng, cnl=True, **({'n_cases': rng.choice([21, 55, 90])} if tier == 'thorough' and rng.random() < 0.3 else {}))
    return {'spec': s, 'sched': omp.gen_sched(rng), 'autoscale': int(rng.random() < 0.3 and bool(s['wt'])),
            'ops': engine.gen_ops(rng, s, rng.randint(2, 5), ['ll', 'dll', 'll2', 'bhhh3', 'bhhh', 'logsums'], slices=False)}


def run(case, world):
    s = case['spec']
    omp.start(case['sched'])
    ref = M.Ref(s)
    m = M.make_model(s, d=ref.d, autoscale=bool(case.get('autoscale')))
    S = engine.Session(m, s, ref, tag='compiled engine')
    for op in case['ops']:
        S.do(world, op)


def finish(case, world):
    omp.stop(world)


simplify = engine.simplify_common

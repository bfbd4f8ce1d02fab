"""Compiled engine: parts of the sample. A slice uses exactly its cases, and parts add up to the whole."""
import numpy as np
import models as M, omp, engine
from core import Violation
from props.c01 import LEVEL, ASSUMPTIONS, KEY_MEASURE, SHRINK_LISTS, schedule_log, warm, finish, REAL, STUB

ID = 'C03'
BUDGET = {'quick': (2500, 45), 'thorough': (60000, 1500)}


def generate(rng, i, tier):
    s = M.gen_spec(rng, cnl=True, n_cases=rng.choice([2, 3, 5, 8, 13, 21, 34]) if tier == 'quick' else rng.choice([2, 5, 13, 34, 90]))
    ops = engine.gen_ops(rng, s, rng.randint(2, 5), ['ll', 'dll', 'll2', 'bhhh3', 'casewise', 'dcasewise', 'part', 'part', 'jumble'])
    for op in ops:
        if op['k'] == 'part':
            op['how'] = rng.choice(['ranges', 'steps', 'leave', 'keep'])
            n = s['n_cases']
            op['cuts'] = sorted(rng.sample(range(0, n + 1), min(n + 1, rng.randint(1, 4))))
            op['n'] = rng.randint(2, 5)
    return {'spec': s, 'sched': omp.gen_sched(rng), 'autoscale': int(rng.random() < 0.3 and bool(s['wt'])), 'ops': ops}


def parts(op, n):
    if op['how'] == 'ranges':
        c = sorted({0, n} | {x for x in op['cuts'] if x <= n})
        return [{'start_case': a, 'stop_case': b} for a, b in zip(c, c[1:])], None
    if op['how'] == 'steps':
        return [{'start_case': j, 'step_case': op['n']} for j in range(min(op['n'], n))], None
    if op['how'] == 'keep':
        return [{'keep_only': j, 'subsample': op['n']} for j in range(op['n'])], None
    # leaving out one part is the whole without keeping only it
    return [{'leave_out': j, 'subsample': op['n']} for j in range(op['n'])], op['n'] - 1


def run(case, world):
    s = case['spec']
    omp.start(case['sched'])
    ref = M.Ref(s)
    m = M.make_model(s, d=ref.d, autoscale=bool(case.get('autoscale')))
    S = engine.Session(m, s, ref, tag='compiled engine')
    for op in case['ops']:
        if op['k'] == 'part':
            if op.get('nt') is not None:
                m.n_threads = op['nt']
            xa = S.setx(op)
            if xa is not None:
                m.set_values(xa)
            ps, mult = parts(op, s['n_cases'])
            whole = m.loglike2_bhhh()
            tot = [0.0, 0.0, 0.0]
            for p in ps:
                r = m.loglike2_bhhh(**p)
                tot = [tot[0] + r.ll, tot[1] + np.asarray(r.dll), tot[2] + np.asarray(r.bhhh)]
                tot2 = m.loglike(**p)
                S.expect(world, 'loglike of a part', tot2, r.ll, op)
            k = mult or 1
            S.expect(world, 'parts add up: loglike', tot[0], whole.ll * k, op)
            S.expect(world, 'parts add up: gradient', tot[1], np.asarray(whole.dll) * k, op)
            S.expect(world, 'parts add up: bhhh', tot[2], np.asarray(whole.bhhh) * k, op)
            S.expect(world, 'loglike', whole.ll, ref.full(S.xvec(), want=1)['ll'], op)
            world.note('part', op['how'], len(ps))
            world.count('partitions')
        elif op['k'] == 'jumble':
            # the same evaluation before and after an evaluation of a part
            a = m.loglike()
            m.loglike2(start_case=s['n_cases'] // 2, stop_case=s['n_cases'])
            b = m.loglike()
            S.expect(world, 'loglike after evaluating a part', b, a, op, rtol=1e-9, atol=1e-9)
        else:
            S.do(world, op)


simplify = engine.simplify_common

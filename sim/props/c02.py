"""Compiled engine: values reported case by case belong to the case they are reported for."""
import numpy as np
import models as M, omp, engine
from props.c01 import LEVEL, ASSUMPTIONS, KEY_MEASURE, SHRINK_LISTS, schedule_log, warm, finish, REAL, STUB

ID = 'C02'
BUDGET = {'quick': (2500, 45), 'thorough': (60000, 1500)}


def generate(rng, i, tier):
    s = M.gen_spec(rng, cnl=True, **({'n_cases': rng.choice([21, 55, 90])} if tier == 'thorough' and rng.random() < 0.3 else {}))
    ops = engine.gen_ops(rng, s, rng.randint(2, 5), ['prob', 'prob', 'logsums', 'utility', 'casewise', 'dcasewise', 'dprob', 'prob_df', 'util_df'], slices=False)
    engine.add_extremes(rng, s, ops, ('prob', 'prob_df', 'logsums', 'util_df'))
    for op in ops:
        if op['k'] in ('prob', 'prob_df') and rng.random() < 0.5:
            op['sl'] = {k: v for k, v in engine.gen_slice(rng, s['n_cases'], cv=False).items()}
        if op['k'] == 'util_df':
            op['form'] = rng.choice(['names', True])
        if op['k'] == 'prob_df':
            op['form'] = rng.choice(['names', True, 'idco', 'idca', 'idce'])
    return {'spec': s, 'sched': omp.gen_sched(rng), 'autoscale': int(rng.random() < 0.3 and bool(s['wt'])), 'ops': ops}


def run(case, world):
    s = case['spec']
    omp.start(case['sched'])
    ref = M.Ref(s)
    m = M.make_model(s, d=ref.d, autoscale=bool(case.get('autoscale')))
    S = engine.Session(m, s, ref, tag='compiled engine')
    for op in case['ops']:
        if op['k'] == 'util_df':
            xa = S.setx(op)
            if xa is not None:
                m.set_values(xa)
            got = m.utility(return_dataframe=op['form'])
            u = ref.utility(S.xvec())
            world.check([int(c) for c in got.index] == [int(c) for c in ref.d.caseids], 'labels of the utility table', lambda: repr(list(got.index)[:9]))
            for i, a in enumerate(s['alts']):
                col = got['a%d' % a if op['form'] == 'names' else a]
                S.expect(world, 'utility under its label', np.where(ref.d.av[:, i] != 0, np.asarray(col), 0), np.where(ref.d.av[:, i] != 0, u[:, i], 0), op)
            world.count('calls:util_df')
        elif op['k'] == 'prob_df':
            labelled(S, world, op)
        else:
            S.do(world, op)


def labelled(S, world, op):
    """A labelled table of probabilities: every number under the label it belongs to."""
    m, ref, s = S.m, S.ref, S.s
    if op.get('nt') is not None:
        m.n_threads = op['nt']
    kw = {}
    xa = S.setx(op)
    if xa is not None:
        kw['x'] = xa
    sl = op.get('sl') or {}
    got = m.probability(return_dataframe=op['form'], **kw, **sl)
    p = ref.probability(S.xvec())
    rows = ref.rows(**engine.ref_slice(sl))
    cid = {int(c): r for r, c in enumerate(ref.d.caseids)}
    names = {('a%d' % a): i for i, a in enumerate(s['alts'])}
    codes = {a: i for i, a in enumerate(s['alts'])}
    world.count('calls:prob_df')
    world.note('prob_df', op['form'], sorted(sl.items()))
    if op['form'] in ('idca', 'idce'):
        want = {(int(ref.d.caseids[r]), a): p[r, i] for r in rows for i, a in enumerate(s['alts'])
                if op['form'] == 'idca' or ref.d.av[r, i]}
        have = {(int(c), a): v for (c, a), v in got.items()}
        world.check(set(have) == set(want), 'labels of the probability table', lambda: '%r: got %d labels %r, expected %d' % (
            op, len(have), sorted(have)[:5], len(want)))
        for k in want:
            world.check(abs(have[k] - want[k]) < 1e-6, 'probability under its label', lambda: '%r %r %r' % (k, have[k], want[k]))
        return
    world.check(list(got.index) == [int(ref.d.caseids[r]) for r in rows], 'labels of the probability table',
                lambda: '%r: index %r rows %r' % (op, list(got.index)[:10], rows[:10]))
    lab = names if op['form'] == 'names' else codes
    world.check(set(got.columns) == set(lab), 'labels of the probability table', lambda: '%r' % list(got.columns))
    for c, r in zip(got.index, rows):
        for a, i in lab.items():
            world.check(abs(got.at[c, a] - p[cid[int(c)], i]) < 1e-6, 'probability under its label', lambda: '%r %r %r %r' % (c, a, got.at[c, a], p[r, i]))


simplify = engine.simplify_common

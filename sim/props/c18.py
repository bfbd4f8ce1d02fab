"""Models that share data do not disturb one another, or the data, in any interleaving of their edits and evaluations."""
import copy, random, warnings
import numpy as np
import models as M, omp, engine
from props import c06

ID = 'C18'
LEVEL = 'exploration'
BUDGET = {'quick': (1400, 35), 'thorough': (40000, 1500)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.DataFrames as data and as data service', 'parameter frame, linear functions, nesting tree']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool']
ASSUMPTIONS = ['models take turns call by call in one Python thread (the compiled engine runs its team inside a call)']
KEY_MEASURE = 'distinct sequences of (model, kind of edit or evaluation) of a run'
SHRINK_LISTS = (('steps',),)
warm = c06.warm
DATA = ('dseed', 'n_cases', 'case_step', 'case_base', 'case_order', 'alt_mixed', 'wt', 'avail', 'chosen', 'no_co')


def generate(rng, i, tier):
    base = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8, 13]))
    base['no_co'] = 0
    specs = [base]
    for _ in range(rng.choice([1, 1, 2])):
        s = M.gen_spec(rng, alts=base['alts'], fmt=base['fmt'])
        for f in DATA:
            s[f] = base[f]
        specs.append(s)
    steps = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        j = rng.randrange(len(specs))
        if r < 0.3:
            st = c06.gen_edit(rng, base)
        elif r < 0.4:
            st = {'e': rng.choice(['reshare', 'reload', 'scale', 'unscale', 'copy', 'drop', 'max'])}
            st['j'] = rng.randrange(len(specs))
        else:
            st = c06.gen_eval(rng, ['ll', 'dll', 'll2', 'bhhh3', 'prob', 'logsums', 'utility'])
        st['m'] = j
        steps.append(st)
    for j in range(len(specs)):
        steps.append(dict(c06.gen_eval(rng, ['ll2', 'bhhh3', 'dll', 'll', 'prob']), m=j))
    return {'specs': specs, 'numba': [int(rng.random() < 0.35) for _ in specs], 'how': rng.choice(['same', 'same', 'service', 'mixed']), 'sched': omp.gen_sched(rng), 'steps': steps}


def snap(d):
    out = {}
    for k in ('data_co', 'data_ca', 'data_ce', 'data_av', 'data_ch'):
        v = getattr(d, k)
        out[k] = None if v is None else v.copy(deep=True)
    return out


def run(case, world):
    import pandas as pd
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    Hs = []
    shared = M.make_dataframes(case['specs'][0])
    before = snap(shared)
    for j, s in enumerate(case['specs']):
        H = c06.History({'spec': s, 'numba': case['numba'][j]}, world)
        if case['how'] == 'same' or (case['how'] == 'mixed' and j % 2 == 0):
            H.m.dataframes = shared
        else:
            H.m.load_data(shared)
        Hs.append(H)
    seq = []
    service = [not (case['how'] == 'same' or (case['how'] == 'mixed' and j % 2 == 0)) for j in range(len(Hs))]
    scaled = False
    for st in case['steps']:
        H = Hs[st['m']]
        e = st.get('e')
        if e in ('reshare', 'reload'):
            H.s = dict(H.s, **{f: case['specs'][0][f] for f in DATA}, fmt=case['specs'][0]['fmt'])
            if H.s['fmt'] == 'ce' and H.s['q_ca']:
                H.m.quantity_ca = None; H.s['q_ca'] = []
            service[st['m']] = e == 'reload'
            if e == 'reshare':
                H.m.dataframes = shared
            else:
                H.m.load_data(shared)
            seq.append((st['m'], e))
            continue
        if e in ('scale', 'unscale'):
            if shared.data_wt is not None:
                if e == 'scale':
                    shared.autoscale_weights()
                else:
                    shared.unscale_weights()
                seq.append((0, e))
                scaled = True
            continue
        if e == 'copy':
            if H.numba:
                continue
            c = H.m.copy()
            c.dataframes = shared
            try:
                c.set_values(0.3)
                c.loglike2()
            except Exception as x:
                world.note('copy', type(x).__name__)
            seq.append((st['m'], e))
            continue
        if e == 'drop':
            c = M.make_model(case['specs'][st['j']], dfs=shared)
            c.loglike2()
            del c
            seq.append((st['j'], e))
            continue
        if e == 'max':
            ref = H.ref()
            free = [n for n in ref.names if not H.hold[n]]
            if not free or st['m'] == st['j']:
                continue
            try:
                H.m.maximize_loglike(method='l-bfgs-b', quiet=True, options={'maxiter': 2})
            except Exception as x:
                world.note('max', type(x).__name__)
            for n in ref.names:
                H.val[n] = float(H.m.pf.loc[n, 'value'])
            if any(abs(v) > 15 or (n.startswith('mu_') and v < 0.05) for n, v in H.val.items()):
                H.m.set_values(dict.fromkeys(free, 0.5))
                H.val.update(dict.fromkeys(free, 0.5))
            seq.append((st['m'], e))
            continue
        if e:
            if H.edit(st):
                world.count('edits:' + e)
                seq.append((st['m'], e))
            if e == 'data':
                service[st['m']] = False
            elif service[st['m']]:
                H.m.load_data(shared)
            continue
        ref = H.ref()
        if not ref.names:
            continue
        S = engine.Session(H.m, ref.s, ref, numba=H.numba, tag='model %d after %s (%s engine)' % (st['m'], seq, 'numba' if H.numba else 'compiled'))
        S.cur = H.val
        op = {'k': st['k']}
        if 'xs' in st:
            v = H.values(st['xs'], ref.names)
            v = {n: (H.val[n] if H.hold[n] else x) for n, x in v.items()}
            if st['xf'] == 'part':
                v = {n: x for i, (n, x) in enumerate(v.items()) if i % 2} or v
            op['x'] = v
            op['xf'] = st['xf']
            if st['xf'] == 'array':
                for n in H.m.pf.index:
                    H.val.setdefault(n, float(H.m.pf.loc[n, 'value']))
                    H.hold.setdefault(n, int(H.m.pf.loc[n, 'holdfast']))
        S.do(world, op)
        seq.append((st['m'], 'eval'))
        for k, G in enumerate(Hs):
            pv = dict(G.m.pf['value'])
            for n in G.ref().names:
                if n in pv:
                    world.check(abs(pv[n] - G.val[n]) < 1e-12, 'value of a parameter', lambda: 'model %d, %s is %r, expected %r after %s' % (k, n, pv[n], G.val[n], seq))
    after = snap(shared)
    for k, v in before.items():
        if k == 'data_ch' and scaled:
            continue  # weights inside choices are moved out when weights are scaled
        same = (v is None) == (after[k] is None) or k == 'data_co'
        if v is not None and after[k] is not None:
            same = v.equals(after[k])
        world.check(same, 'shared data changed', lambda: '%s of the shared data is changed after %s' % (k, seq))
    world.key(tuple(seq))


def simplify(case):
    if len(case['specs']) > 2:
        c = copy.deepcopy(case)
        c['specs'].pop(); c['numba'].pop()
        c['steps'] = [s for s in c['steps'] if s['m'] < 2 and s.get('j', 0) < 2]
        yield c
    for n in (1, 2):
        if n < case['specs'][0]['n_cases']:
            c = copy.deepcopy(case)
            for s in c['specs']:
                s['n_cases'] = n
            yield c
    for k, v in (('wt', None), ('avail', 1.0), ('chosen', 'one'), ('case_order', 'up'), ('fmt', 'ca')):
        if case['specs'][0][k] != v:
            c = copy.deepcopy(case)
            for s in c['specs']:
                s[k] = v
            yield c
    for j, s in enumerate(case['specs']):
        for k, v in (('nests', []), ('q_ca', []), ('u_co', {})):
            if s[k] != v and (k != 'u_co' or s['u_ca']):
                c = copy.deepcopy(case)
                c['specs'][j][k] = v
                if k == 'q_ca':
                    c['specs'][j]['q_scale'] = None
                M.prune(c['specs'][j])
                yield c
        if case['numba'][j]:
            c = copy.deepcopy(case); c['numba'][j] = 0
            yield c
    if case['how'] != 'same':
        c = copy.deepcopy(case); c['how'] = 'same'
        yield c
    for i, e in enumerate(case['steps']):
        if 'xs' in e and 'k' in e and 'e' not in e:
            c = copy.deepcopy(case); c['steps'][i].pop('xs')
            yield c

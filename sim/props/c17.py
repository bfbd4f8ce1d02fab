"""A group of models is the sum of its members with common parameters, after any history of changes and evaluations."""
import copy, random, warnings
import numpy as np
import models as M, omp, engine
from props.c16 import spec_names, rename

ID = 'C17'
LEVEL = 'exploration'
BUDGET = {'quick': (700, 35), 'thorough': (20000, 1500)}
REAL = ['larch.ModelGroup', 'larch.Model (compiled engine), larch.numba.Model, as members', 'larch.DataFrames', 'larch.model.optimization, scipy.optimize']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool']
ASSUMPTIONS = ['a parameter that is held is held through the group, not through a member only; values are set through the group']
KEY_MEASURE = 'distinct sequences of (kind of change or evaluation) of a run'
SHRINK_LISTS = (('steps',),)
CPU_LIMIT = 60


def warm():
    import props.c04 as c04
    c04.warm()
    import larch.model.model_group, scipy.optimize


def generate(rng, i, tier):
    K = rng.choice([1, 2, 2, 2, 3])
    ms = []
    for k in range(1, K + 2):
        s = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8, 13]), nested=rng.random() < 0.3, quantity=rng.random() < 0.3)
        s['no_co'] = 0
        rename(s, k, rng)
        s['numba'] = int(rng.random() < 0.25)
        ms.append(s)
    params = {}
    for s in ms:
        for n, q in s['params'].items():
            params.setdefault(n, q)
    for s in ms:
        s['params'] = {n: params[n] for n in s['params']}
    steps = [gen_step(rng, K + 1, ms) for _ in range(rng.randint(3, 10))]
    steps.append({'k': rng.choice(['ll', 'll2', 'dll'])})
    return {'members': ms, 'first': K, 'params': params, 'how': rng.choice(['list', 'append', 'nested']), 'sched': omp.gen_sched(rng), 'steps': steps}


def gen_step(rng, K, ms):
    k = rng.choice(['ll', 'll', 'll2', 'll2', 'dll', 'parts', 'member', 'value', 'value', 'values', 'values', 'hold', 'term', 'data', 'max', 'null', 'add', 'remove', 'swap', 'best'])
    e = {'k': k}
    if k in ('ll', 'll2', 'dll', 'values', 'parts'):
        if rng.random() < 0.5 or k == 'values':
            e['xs'] = rng.getrandbits(32)
            e['xf'] = rng.choice(['dict', 'array', 'part'] + (['kw'] if k == 'values' else []))
    elif k in ('value', 'hold', 'member', 'term', 'data', 'add', 'remove', 'swap'):
        e['i'] = rng.randrange(20)
        e['v'] = round(rng.uniform(0.3, 0.95), 3)
        e['h'] = rng.randrange(2)
        if k == 'term':
            e['t'] = [rng.choice(['b_x1', 'n_1', 'n_2']), rng.choice(['x1', 'x2', 'x3']), rng.choice([1, 0.5])]
        if k == 'data':
            e['d'] = {'dseed': rng.getrandbits(40), 'n_cases': rng.choice([1, 2, 5, 8]), 'wt': rng.choice([None, 'real'])}
            e['h'] = rng.randrange(2)
    elif k == 'max':
        e['maxiter'] = rng.choice([1, 3, 30])
        e['method'] = rng.choice([None, 'slsqp', 'l-bfgs-b'])
    return e


def run(case, world):
    import larch
    import larch.numba as ln
    from larch import P, X
    from larch.model.model_group import ModelGroup
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    specs, params = copy.deepcopy(case['members']), copy.deepcopy(case['params'])
    cur = {n: q['value'] for n, q in params.items()}
    data = [M.Data(s) for s in specs]
    ms = []
    for s, d in zip(specs, data):
        m = (ln.Model if s['numba'] else larch.Model)()
        M.apply_spec(m, s)
        m.dataframes = M.make_dataframes(s, d, autoscale=bool(s['dseed'] & 1) and bool(s['wt']))
        ms.append(m)
    inside = list(range(case['first']))      # indexes of the members
    if case['how'] == 'list':
        g = ModelGroup([ms[i] for i in inside])
    elif case['how'] == 'nested':
        g = ModelGroup([ModelGroup([ms[i]]) for i in inside])
    else:
        g = ModelGroup([])
        for i in inside:
            g.append(ms[i])
    for n in sorted(params):
        if n in g.pf.index:
            q = params[n]
            g.set_value(n, value=q['value'], nullvalue=q['null'], initvalue=q['init'], holdfast=q['holdfast'])
        else:
            params[n].update(holdfast=0)
            cur[n] = 0.0
    seen = []

    known = set()

    def used():
        u = set()
        for i in inside:
            u |= spec_names(specs[i])
        for n in sorted(u - known):
            known.add(n)
            if n in params and n in g.pf.index and len(known) > 0:
                cur[n] = float(g.pf.loc[n, 'value'])
                params[n]['null'] = float(g.pf.loc[n, 'nullvalue'])
        return sorted(u)

    def full(want=3):
        used()
        out = {'ll': 0.0, 'parts': []}
        dll = {}
        for i in inside:
            s = dict(specs[i], params={n: {'value': cur[n], 'holdfast': params[n]['holdfast']} for n in spec_names(specs[i])})
            R = M.Ref(s, data[i])
            r = R.full(R.x0(), want=want)
            out['ll'] += r['ll']
            out['parts'].append(r['ll'])
            for n, v in zip(R.names, r['dll']):
                dll[n] = dll.get(n, 0.0) + v
        out['dll'] = np.array([dll.get(n, 0.0) for n in g.pf.index])
        return out

    def draw(e, partial):
        r = random.Random(e['xs'])
        out = {}
        for n in g.pf.index:
            v = round(r.uniform(0.35, 1.0), 4) if n.startswith('mu_') or n.startswith('q_theta') else round(r.uniform(-0.8, 0.8), 4)
            if not partial or r.random() < 0.5:
                out[n] = v
        return out

    def put(x):
        for n, v in x.items():
            if n not in params:
                params[n] = {'value': v, 'null': 0.0, 'init': 0.0, 'holdfast': 0}
            if not params[n]['holdfast']:
                cur[n] = v

    def arg(e):
        used()
        if 'xs' not in e:
            return {}
        x = draw(e, e['xf'] == 'part')
        put(x)
        if e['xf'] == 'array':
            return {'x': np.array([cur[n] for n in g.pf.index])}
        return {'x': x}

    def cmp(what, got, want, e, rtol=2e-6, atol=2e-7):
        world.count('compared')
        if not M.close(got, want, rtol, atol):
            world.check(False, what, '%s after %s\n larch    %s\n expected %s' % (what, {a: b for a, b in e.items() if a != 'xs'}, np.array2string(np.asarray(got, dtype=float), threshold=60), np.array2string(np.asarray(want, dtype=float), threshold=60)))
        world.check(True, what)
    tol = (2e-6, 2e-7)
    used()
    best = [-np.inf]

    def saw(ll):
        if best[0] is not None:
            best[0] = max(best[0], ll)
    for e in case['steps']:
        k = e['k']
        seen.append(k)
        world.note('step', k)
        nb = any(specs[i]['numba'] for i in inside)
        tol = (2e-5, 2e-5) if nb else (2e-6, 2e-7)
        if k in ('ll', 'll2', 'dll', 'parts'):
            if not inside:
                continue
            a = arg(e)
            w = full(1 if k in ('ll', 'parts') else 3)
            if k == 'll':
                cmp('loglike', g.loglike(**a), w['ll'], e, *tol)
            elif k == 'parts':
                got = g.loglike(persist=0x7fffffff if False else larch.model.persist_flags.PERSIST_PARTS, **a)
                cmp('loglike', got.ll, w['ll'], e, *tol)
                cmp('parts', got.ll_parts, w['parts'], e, *tol)
            elif k == 'll2':
                got = g.loglike2(**a)
                cmp('loglike', got.ll, w['ll'], e, *tol)
                world.check(list(got.dll.index) == list(g.pf.index), 'labels', 'gradient is labelled %s, parameters are %s' % (list(got.dll.index), list(g.pf.index)))
                cmp('gradient', got.dll, w['dll'], e, *tol)
            else:
                cmp('gradient', g.d_loglike(**a), w['dll'], e, *tol)
            saw(w['ll'])
        elif k == 'member':
            if not inside:
                continue
            j = e['i'] % len(inside)
            world.check(g[j] is ms[inside[j]], 'members', 'member %d is not the model put there' % j)
            world.check(len(g) == len(inside) and g.n_cases == sum(specs[i]['n_cases'] for i in inside), 'members', 'group has %d members, %d cases' % (len(g), g.n_cases))
            g.loglike()
            w = full(1)
            cmp('member loglike', g[j].loglike(), w['parts'][j], e, *tol)
            saw(w['ll'])
        elif k in ('value', 'hold'):
            u = used()
            if not u:
                continue
            n = u[e['i'] % len(u)]
            if k == 'value':
                g.set_value(n, e['v']); cur[n] = e['v']
            else:
                g.set_value(n, holdfast=e['h']); params[n]['holdfast'] = e['h']
        elif k == 'values':
            used()
            x = draw(e, e['xf'] in ('part', 'kw'))
            put(x)
            if e['xf'] == 'array':
                g.set_values(np.array([cur[n] for n in g.pf.index]))
            elif e['xf'] == 'kw':
                g.set_values(**x)
            else:
                g.set_values(x)
        elif k == 'null':
            if not inside:
                continue
            u = used()
            keep = dict(cur)
            for n in u:
                if not params[n]['holdfast']:
                    cur[n] = float(g.pf.loc[n, 'nullvalue'])
            w = full(1)
            cur.update(keep)
            cmp('loglike at null', g.loglike_null(use_cache=False), w['ll'], e, *tol)
            world.check(all(abs(g.pf.loc[n, 'value'] - cur[n]) < 1e-12 for n in u), 'values', 'null log likelihood moved the parameters')
            saw(w['ll'])
        elif k == 'term':
            if not inside:
                continue
            i = inside[e['i'] % len(inside)]
            t = e['t']
            nice = P(t[0]) * X(t[1]) * t[2] if t[2] != 1 else P(t[0]) * X(t[1])
            mod = ms[i]
            mod.utility_ca = mod.utility_ca + nice if specs[i]['u_ca'] else nice
            specs[i]['u_ca'] = specs[i]['u_ca'] + [t]
            params.setdefault(t[0], {'value': 0.0, 'null': 0.0, 'init': 0.0, 'holdfast': 0})
            cur.setdefault(t[0], 0.0)
            best[0] = -np.inf
        elif k == 'data':
            if not inside:
                continue
            i = inside[e['i'] % len(inside)]
            specs[i].update(e['d'])
            data[i] = M.Data(specs[i])
            ms[i].dataframes = M.make_dataframes(specs[i], data[i], autoscale=bool(e['h']) and bool(specs[i]['wt']))
            best[0] = -np.inf
        elif k == 'add':
            out = [i for i in range(len(ms)) if i not in inside]
            if not out:
                continue
            i = out[e['i'] % len(out)]
            if e['h']:
                g.append(ms[i]); inside.append(i)
            else:
                g.insert(0, ms[i]); inside.insert(0, i)
            best[0] = -np.inf
        elif k == 'remove':
            if len(inside) < 2:
                continue
            j = e['i'] % len(inside)
            del g[j]
            del inside[j]
            best[0] = -np.inf
        elif k == 'swap':
            out = [i for i in range(len(ms)) if i not in inside]
            if not out or not inside:
                continue
            j = e['i'] % len(inside)
            g[j] = ms[out[0]]
            inside[j] = out[0]
            best[0] = -np.inf
        elif k == 'max':
            u = used()
            if not inside or all(params[n]['holdfast'] for n in u):
                continue
            before = full(1)['ll']
            res = g.maximize_loglike(method=e['method'], quiet=True, options={'maxiter': e['maxiter']})
            for n in u:
                v = float(g.pf.loc[n, 'value'])
                if params[n]['holdfast']:
                    world.check(v == cur[n], 'held', '%s is held but moved from %r to %r' % (n, cur[n], v))
                cur[n] = v
            for n in g.pf.index:
                cur[n] = float(g.pf.loc[n, 'value'])
            if any(abs(v) > 15 or ((n.startswith('mu_') or n.startswith('q_theta')) and v < 0.05) for n, v in cur.items()):
                world.count('parameters ran away')
                break
            after = full(1)['ll']
            cmp('reported loglike', res['loglike'], after, e, 1e-5, 1e-5)
            world.check(after >= before - 1e-5 * (1 + abs(before)), 'worse', 'estimation left a worse fit: %r after %r' % (after, before))
            best[0] = None
        elif k == 'best':
            if not inside:
                continue
            g.loglike()
            saw(full(1)['ll'])
            b = g._get_cached_loglike_values()['best']
            if best[0] is not None and np.isfinite(best[0]):
                world.check(abs(b - best[0]) < 1e-5 * (1 + abs(best[0])), 'best', 'best on record is %r, best seen is %r' % (b, best[0]))
    world.key(tuple(seen))


def simplify(case):
    for j, s in enumerate(case['members']):
        for n in (1, 2):
            if n < s['n_cases']:
                c = copy.deepcopy(case)
                c['members'][j]['n_cases'] = n
                yield c
        for k, v in (('wt', None), ('avail', 1.0), ('chosen', 'one'), ('case_order', 'up'), ('fmt', 'ca'), ('numba', 0), ('nests', []), ('q_ca', []), ('u_co', {})):
            if s[k] != v and (k != 'u_co' or s['u_ca']):
                c = copy.deepcopy(case)
                c['members'][j][k] = v
                if k == 'q_ca':
                    c['members'][j]['q_scale'] = None
                c['members'][j]['params'] = {n: q for n, q in s['params'].items() if n in spec_names(c['members'][j])}
                keep = {n for s2 in c['members'] for n in spec_names(s2)}
                c['params'] = {n: q for n, q in c['params'].items() if n in keep}
                yield c
    if case['first'] > 1:
        c = copy.deepcopy(case); c['first'] -= 1
        yield c
    if case['how'] != 'list':
        c = copy.deepcopy(case); c['how'] = 'list'
        yield c
    for i, e in enumerate(case['steps']):
        if e.get('xs') and e['k'] != 'values':
            c = copy.deepcopy(case); c['steps'][i].pop('xs')
            yield c

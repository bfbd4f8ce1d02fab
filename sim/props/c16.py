"""A latent class model is the mixture of its classes, after any history of changes and evaluations."""
import copy, random, warnings
import numpy as np
import models as M, omp, engine

ID = 'C16'
LEVEL = 'exploration'
BUDGET = {'quick': (600, 35), 'thorough': (20000, 1500)}
REAL = ['larch.model.latentclass.LatentClassModel', 'larch.Model (compiled engine) of the classes and of class membership', 'larch.DataFrames', 'larch.model.optimization, scipy.optimize']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)']
ASSUMPTIONS = ['all classes have the same alternatives and the same data; class membership depends on attributes of the case only']
KEY_MEASURE = 'distinct sequences of (kind of change or evaluation) of a run'
SHRINK_LISTS = (('steps',),)
CPU_LIMIT = 60


def warm():
    import larch, larch.model.latentclass, scipy.optimize


def rename(s, k, rng):
    """Some parameters belong to one class, others are shared."""
    ren = {n: (n if rng.random() < 0.4 else '%s_k%d' % (n, k)) for n in s['params']}
    for t in s['u_ca'] + s['q_ca'] + [t for ts in s['u_co'].values() for t in ts]:
        t[0] = ren[t[0]]
    for n in s['nests']:
        n['param'] = ren[n['param']]
    if s['q_scale']:
        s['q_scale'] = ren[s['q_scale']]
    s['params'] = {ren[n]: q for n, q in s['params'].items()}


def gen_term(rng, k):
    return ['c_%s' % rng.choice(['g', 'h', str(k)]), rng.choice(['1', 'z1', 'z2']), rng.choice([1, 1, 0.5])]


def merge(classes, member):
    params = {}
    for s in classes:
        for n, q in s['params'].items():
            params.setdefault(n, q)
    for ts in member.values():
        for t in ts:
            params.setdefault(t[0], {'value': 0.0, 'null': 0.0, 'init': 0.0, 'holdfast': 0, 'min': None, 'max': None})
    return params


def generate(rng, i, tier):
    base = M.gen_spec(rng, nested=rng.random() < 0.4)
    base['no_co'] = 0
    K = rng.choice([1, 2, 2, 2, 3])
    classes = []
    for k in range(1, K + 1):
        s = M.gen_spec(rng, alts=base['alts'], fmt=base['fmt'], nested=rng.random() < 0.3, quantity=rng.random() < 0.3)
        for f in ('dseed', 'n_cases', 'case_step', 'case_base', 'case_order', 'alt_mixed', 'wt', 'avail', 'chosen', 'no_co'):
            s[f] = base[f]
        rename(s, k, rng)
        classes.append(s)
    member = {}
    for k in range(1, K + 1):
        if k > 1 or rng.random() < 0.2:
            member[str(k)] = [gen_term(rng, k) for _ in range(rng.randint(1, 3))]
    params = merge(classes, member)
    for n in sorted(params):
        if n.startswith('c_'):
            params[n]['value'] = round(rng.uniform(-1, 1), 4)
            params[n]['holdfast'] = int(rng.random() < 0.1)
    steps = [gen_step(rng, classes, params, base) for _ in range(rng.randint(3, 9))]
    steps.append({'k': rng.choice(['ll', 'll2', 'bhhh', 'prob'])})
    return {'classes': classes, 'member': member, 'params': params, 'load': rng.choice(['set', 'load', 'load-raw', 'auto']), 'sched': omp.gen_sched(rng), 'steps': steps}


def gen_step(rng, classes, params, base):
    k = rng.choice(['ll', 'll', 'll2', 'll2', 'bhhh', 'prob', 'prob', 'dprob', 'member', 'class', 'value', 'value', 'values', 'hold', 'term', 'mterm', 'data', 'max', 'null', 'dll', 'probdf'])
    e = {'k': k}
    if k in ('ll', 'll2', 'bhhh', 'prob', 'dprob', 'member', 'probdf', 'dll'):
        e['s'] = engine.gen_slice(rng, base['n_cases'], cv=False) if rng.random() < 0.5 and k != 'dll' else {}
        if rng.random() < 0.5:
            e['xs'] = rng.getrandbits(32)
            e['xf'] = rng.choice(['dict', 'array', 'part'])
    elif k in ('value', 'hold', 'class'):
        e['i'] = rng.randrange(20)
        e['v'] = round(rng.uniform(0.3, 0.95), 3)
        e['h'] = rng.randrange(2)
    elif k == 'values':
        e['xs'] = rng.getrandbits(32)
        e['xf'] = rng.choice(['dict', 'array', 'part', 'kw'])
    elif k == 'term':
        e['c'] = rng.randrange(len(classes))
        e['t'] = [rng.choice(['b_x1', 'n_1', 'n_2']), rng.choice(['x1', 'x2', 'x3']), rng.choice([1, 0.5])]
    elif k == 'mterm':
        e['c'] = rng.randint(1, len(classes))
        e['t'] = gen_term(rng, e['c'])
    elif k == 'data':
        e['d'] = {'dseed': rng.getrandbits(40), 'n_cases': rng.choice([1, 2, 5, 8, 13]), 'wt': rng.choice([None, 'real'])}
        e['how'] = rng.choice(['set', 'load', 'load-raw'])
    elif k == 'max':
        e['maxiter'] = rng.choice([1, 3, 30])
        e['method'] = rng.choice([None, 'slsqp', 'bhhh'])
    return e


class RefL(M.Ref):
    def __init__(self, classes, member, params, d):
        self.s = dict(classes[0], params=params)
        self.d = d
        self.names = sorted(params)
        self.holdfast = np.array([params[n]['holdfast'] for n in self.names], dtype=bool)
        self.k = [M.Ref(s, d) for s in classes]
        self.member = member

    def pi(self, p, r):
        u = []
        for k in range(1, len(self.k) + 1):
            u.append(sum((p[n] * sc * (1.0 if v == '1' else self.d.z[v][r]) for n, v, sc in self.member.get(str(k), ())), 0.0))
        e = [np.exp(z) for z in u]
        t = sum(e)
        return [z / t for z in e]

    def case(self, p, r):
        tot = 0
        for w, k in zip(self.pi(p, r), self.k):
            tot = tot + w * np.exp(k.case(p, r)[2])
        with np.errstate(divide='ignore'):
            out = np.array([np.log(z) if z != 0 else -np.inf for z in tot], dtype=complex)
        return None, None, out, None, None


def frames(s, d, autoscale=False):
    return M.make_dataframes(s, d, autoscale=autoscale)


def run(case, world):
    import larch
    from larch import P, X
    from larch.model.latentclass import LatentClassModel
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    classes, member, params = copy.deepcopy(case['classes']), copy.deepcopy(case['member']), copy.deepcopy(case['params'])
    K = len(classes)
    cur = {n: q['value'] for n, q in params.items()}
    nice = lambda t: (P(t[0]) if t[1] == '1' else P(t[0]) * X(t[1])) * t[2] if t[2] != 1 else (P(t[0]) if t[1] == '1' else P(t[0]) * X(t[1]))
    base = classes[0]
    d = M.Data(base)
    dfs = frames(base, d)
    ds = None if case['load'] in ('set', 'auto') else dfs
    ks = {}
    for i, s in enumerate(classes):
        m = larch.Model(dataservice=ds)
        M.apply_spec(m, s)
        if ds is not None and s['wt']:
            m.weight_co_var = 'wt' if False else m.weight_co_var
        ks[i + 1] = m
    km = larch.Model(dataservice=ds, alts=list(range(1, K + 1))) if ds is not None else larch.Model()
    for k, ts in member.items():
        u = None
        for t in ts:
            u = nice(t) if u is None else u + nice(t)
        km.utility_co[int(k)] = u
    m = LatentClassModel(km, ks)

    def attach(how, dfs):
        if how == 'set':
            m.dataframes = dfs
        elif how == 'auto':
            dfs.autoscale_weights() if dfs.data_wt is not None else None
            m.dataframes = dfs
        else:
            m.load_data(dataservice=dfs, autoscale_weights=(how == 'load'))
    attach(case['load'], dfs)
    m.unmangle()
    names = sorted(params)
    world.check(sorted(m.pf.index) == names, 'parameters', 'the parameters are %s, not %s' % (sorted(m.pf.index), names))
    for n in names:
        q = params[n]
        m.set_value(n, value=q['value'], nullvalue=q['null'], initvalue=q['init'], holdfast=q['holdfast'])
    seen = []

    def away():
        return any(abs(v) > 15 or (n.startswith('mu_') and v < 0.05) for n, v in cur.items())

    def used():
        return sorted({n for s in classes for n in spec_names(s)} | {t[0] for ts in member.values() for t in ts})

    def ref():
        pp = {}
        for n in used():
            pp[n] = {'value': cur[n], 'holdfast': params[n]['holdfast'], 'null': 0, 'init': 0}
        for s in classes:
            s['params'] = {n: pp[n] for n in spec_names(s)}
        return RefL(classes, member, pp, d)

    def draw(e, partial):
        r = random.Random(e['xs'])
        out = {}
        for n in m.pf.index:
            v = round(r.uniform(0.35, 1.0), 4) if n.startswith('mu_') or n.startswith('q_theta') else round(r.uniform(-0.8, 0.8), 4)
            if not partial or r.random() < 0.5:
                out[n] = v
        return out

    def arg(e):
        if 'xs' not in e:
            return {}
        x = draw(e, e['xf'] == 'part')
        if e['xf'] == 'array':
            for n in x:                    # a vector sets every free parameter
                if params[n]['holdfast']:
                    x[n] = cur[n]
            cur.update(x)
            return {'x': np.array([x[n] for n in m.pf.index])}
        for n, v in x.items():
            if not params[n]['holdfast']:
                cur[n] = v
        return {'x': x}

    def cmp(what, got, want, e, rtol=2e-6, atol=2e-7):
        world.count('compared')
        if not M.close(got, want, rtol, atol):
            world.check(False, what, '%s after %s\n larch    %s\n expected %s' % (what, {a: b for a, b in e.items() if a != 'xs'}, np.array2string(np.asarray(got, dtype=float), threshold=60), np.array2string(np.asarray(want, dtype=float), threshold=60)))
        world.check(True, what)
    rows = lambda R, e: R.rows(**engine.ref_slice(e.get('s', {})))
    for e in case['steps']:
        k = e['k']
        seen.append(k)
        world.note('step', k)
        s_ = dict(e.get('s', {}))
        if s_.get('start_case', 0) >= d.caseids.size or s_.get('stop_case', 0) > d.caseids.size:
            s_ = {}
            e = dict(e, s={})
        if k == 'll':
            a = arg(e); R = ref()
            got = m.loglike(**a, **s_)
            cmp('loglike', got, R.full(R.x0(), want=1, **engine.ref_slice(s_))['ll'], e)
        elif k in ('ll2', 'bhhh', 'dll'):
            a = arg(e)
            R = ref()
            want = R.full(R.x0(), **engine.ref_slice(s_))
            if k == 'dll':
                cmp('gradient', m.d_loglike(**a), M.reorder(R, m, want['dll']), e)
                continue
            got = (m.loglike2 if k == 'll2' else m.loglike2_bhhh)(**a, **s_)
            cmp('loglike', got.ll, want['ll'], e)
            cmp('gradient', got.dll, M.reorder(R, m, want['dll']), e)
            if k == 'bhhh':
                cmp('bhhh', got.bhhh, M.reorder(R, m, want['bhhh']), e)
        elif k in ('prob', 'probdf'):
            a = arg(e); R = ref()
            got = m.probability(**a, **s_, **({'return_dataframe': True} if k == 'probdf' else {}))
            rr = rows(R, e)
            cmp('probability', np.asarray(got), R.probability(R.x0())[rr], e)
            if k == 'probdf':
                world.check(list(got.index) == list(d.caseids[rr]) and list(got.columns) == list(base['alts']), 'labels', 'probabilities are labelled %s %s' % (list(got.index), list(got.columns)))
        elif k == 'dprob':
            a = arg(e); R = ref(); rr = rows(R, e)
            got = np.asarray(m.d_probability(**a, **s_))
            x = R.x0().astype(complex)
            want = np.zeros((len(rr), len(base['alts']), len(R.names)))
            for j in range(len(R.names)):
                if R.holdfast[j]:
                    continue
                y = x.copy(); y[j] += 1e-30j
                for i, r in enumerate(rr):
                    want[i, :, j] = np.exp(R.case(R.pdict(y), r)[2]).imag / 1e-30
            where = {n: i for i, n in enumerate(R.names)}
            want = np.concatenate([want, np.zeros(want.shape[:2] + (1,))], axis=2)[:, :, [where.get(n, len(R.names)) for n in m.pf.index]]
            cmp('d_probability', got, want, e)
        elif k == 'member':
            a = arg(e); R = ref(); rr = rows(R, e)
            got = m.class_membership_probability(**a, **s_)
            p = R.pdict(R.x0())
            cmp('membership', np.asarray(got), np.array([R.pi(p, r) for r in rr]).real.reshape(len(rr), K), e)
            world.check(list(got.index) == list(d.caseids[rr]), 'labels', 'class membership is labelled %s' % list(got.index))
        elif k == 'class':
            R = ref(); i = e['i'] % K
            Rk = M.Ref(dict(classes[i], params={n: {'value': cur[n], 'holdfast': 0} for n in spec_names(classes[i])}), d)
            cmp('class loglike', m._k_models[i + 1].loglike(), Rk.full(Rk.x0(), want=1)['ll'], e)
        elif k in ('value', 'hold'):
            n = used()[e['i'] % len(used())]
            if k == 'value':
                m.set_value(n, e['v']); cur[n] = e['v']
            else:
                m.set_value(n, holdfast=e['h']); params[n]['holdfast'] = e['h']
        elif k == 'values':
            x = draw(e, e['xf'] in ('part', 'kw'))
            if e['xf'] == 'array':
                for n in x:
                    if params[n]['holdfast']:
                        x[n] = cur[n]
                m.set_values(np.array([x[n] for n in m.pf.index]))
                cur.update(x)
            else:
                m.set_values(**x) if e['xf'] == 'kw' else m.set_values(x)
                for n, v in x.items():
                    if not params[n]['holdfast']:
                        cur[n] = v
        elif k == 'null':
            R = ref()
            y = np.array([cur[n] if params[n]['holdfast'] else params[n]['null'] for n in R.names])
            got = m.loglike_null(use_cache=not any(params[n]['holdfast'] for n in used()) and 'hold' not in seen)
            cmp('loglike at null', got, R.full(y, want=1)['ll'], e)
        elif k in ('term', 'mterm'):
            t = e['t']
            if k == 'term':
                s = classes[e['c']]
                mod = m._k_models[e['c'] + 1]
                if s['u_ca']:
                    mod.utility_ca = mod.utility_ca + nice(t)
                else:
                    mod.utility_ca = nice(t)
                s['u_ca'] = s['u_ca'] + [t]
            else:
                u = member.get(str(e['c']))
                if u:
                    m._k_membership.utility_co[e['c']] = m._k_membership.utility_co[e['c']] + nice(t)
                else:
                    m._k_membership.utility_co[e['c']] = P(t[0]) * X('1') * t[2] if t[1] == '1' else nice(t)
                member[str(e['c'])] = (u or []) + [t]
            params.setdefault(t[0], {'value': 0.0, 'null': 0.0, 'init': 0.0, 'holdfast': 0})
            cur.setdefault(t[0], 0.0)
            attach(case['load'] if case['load'] != 'auto' else 'set', frames(base, d))
            m.unmangle(True)
        elif k == 'data':
            for s in classes:
                s.update(e['d'])
            d = M.Data(base)
            attach(e['how'], frames(base, d))
        elif k == 'max':
            R = ref()
            if R.holdfast.all():
                continue
            before = R.full(R.x0(), want=1)['ll']
            omp.calls() if hasattr(omp, 'calls') else None
            try:
                res = m.maximize_loglike(method=e['method'], quiet=True, options={'maxiter': e['maxiter']})
            except Exception as x:
                world.note('max', type(x).__name__)
                for n in used():
                    cur[n] = float(m.pf.loc[n, 'value'])
                world.count('estimation refused')
                seen.append(type(x).__name__)
                if away():
                    break
                if type(x).__name__ in ('BHHHSimpleStepFailure', 'LinAlgError', 'ValueError'):
                    R = ref()
                    cmp('loglike', m.loglike(), R.full(R.x0(), want=1)['ll'], e)
                    continue
                raise
            for n in used():
                v = float(m.pf.loc[n, 'value'])
                if params[n]['holdfast']:
                    world.check(v == cur[n], 'held', '%s is held but moved from %r to %r' % (n, cur[n], v))
                cur[n] = v
            R = ref()
            if away():
                world.count('parameters ran away')
                break
            after = R.full(R.x0(), want=1)['ll']
            cmp('reported loglike', res['loglike'], after, e, 1e-6, 1e-6)
            world.check(after >= before - 1e-6 * (1 + abs(before)), 'worse', 'estimation left a worse fit: %r after %r' % (after, before))
    world.key(tuple(seen))


def spec_names(s):
    u = {t[0] for t in s['u_ca']} | {t[0] for ts in s['u_co'].values() for t in ts} | {t[0] for t in s['q_ca']} | {n['param'] for n in s['nests']}
    if s['q_scale'] and s['q_ca']:
        u.add(s['q_scale'])
    return u


def simplify(case):
    for n in (1, 2, 3):
        if n < case['classes'][0]['n_cases']:
            c = copy.deepcopy(case)
            for s in c['classes']:
                s['n_cases'] = n
            for e in c['steps']:
                if 's' in e:
                    e['s'] = {}
            yield c
    for k, v in (('wt', None), ('avail', 1.0), ('chosen', 'one'), ('case_order', 'up'), ('fmt', 'ca')):
        if case['classes'][0][k] != v:
            c = copy.deepcopy(case)
            for s in c['classes']:
                s[k] = v
            yield c
    for k, v in (('nests', []), ('q_ca', []), ('u_co', {})):
        for i, s in enumerate(case['classes']):
            if s[k] != v and (k != 'u_co' or s['u_ca']):
                c = copy.deepcopy(case)
                c['classes'][i][k] = v
                if k == 'q_ca':
                    c['classes'][i]['q_scale'] = None
                keep = {n for s in c['classes'] for n in spec_names(s)} | {t[0] for ts in c['member'].values() for t in ts}
                c['params'] = {n: q for n, q in c['params'].items() if n in keep}
                yield c
    if len(case['classes']) > 1:
        c = copy.deepcopy(case)
        K = len(c['classes'])
        c['classes'].pop()
        c['member'].pop(str(K), None)
        c['steps'] = [e for e in c['steps'] if e['k'] not in ('term', 'mterm')]
        keep = {n for s in c['classes'] for n in spec_names(s)} | {t[0] for ts in c['member'].values() for t in ts}
        c['params'] = {n: q for n, q in c['params'].items() if n in keep}
        yield c
    if case['load'] != 'set':
        c = copy.deepcopy(case); c['load'] = 'set'
        yield c
    for i, e in enumerate(case['steps']):
        for f in ('xs', 's'):
            if e.get(f) and e['k'] != 'values':
                c = copy.deepcopy(case); c['steps'][i].pop(f)
                if f == 's':
                    c['steps'][i]['s'] = {}
                yield c

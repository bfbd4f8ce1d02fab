"""Copies of a model (copy, pickle, restart from a file, construction from a model) are complete and independent."""
import copy, os, pickle, random, warnings
import numpy as np
import models as M, omp, engine
import props.c06 as c06

ID = 'C10'
LEVEL = 'exploration'
BUDGET = {'quick': (500, 40), 'thorough': (60000, 1200)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.DataFrames', 'pickle and file round trips on the real filesystem (scratch)']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool',
        'crash of the process: every live object is dropped and only the file survives, cut at a seeded byte for a torn write']
ASSUMPTIONS = ['a copy made by pickling carries no data; the same data are attached again before it is evaluated']
KEY_MEASURE = 'distinct sequences of (kind of copy, edit or evaluation) of a run'
SHRINK_LISTS = (('steps',),)
WAYS = ['pickle', 'pickle', 'copy', 'copy', 'model', 'deepcopy', 'restart', 'restart', 'load']
ATTR = ['choice_ca_var', 'choice_any', 'weight_co_var', 'availability_var', 'availability_any', 'logsum_parameter']


def warm():
    c06.warm()


def generate(rng, i, tier):
    numba = int(rng.random() < 0.35)
    s = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8]), **({'n_alts': rng.choice([3, 4, 5])} if rng.random() < 0.6 else {}))
    s['no_co'] = 0
    kinds = ['ll', 'dll', 'll2', 'bhhh3', 'prob', 'logsums', 'utility']
    steps = []
    for _ in range(rng.randint(0, 3)):
        steps.append(edit(rng, s))
    for c in range(rng.choice([1, 1, 2, 3])):
        steps.append({'c': rng.choice(WAYS), 'on': rng.randrange(4), 'cut': round(rng.random(), 4), 'attach': int(rng.random() < 0.8)})
        for _ in range(rng.randint(1, 5)):
            st = edit(rng, s) if rng.random() < 0.6 else c06.gen_eval(rng, kinds)
            st['on'] = rng.randrange(4)
            steps.append(st)
    return {'spec': s, 'numba': numba, 'start': int(rng.random() < 0.8), 'sched': omp.gen_sched(rng), 'steps': steps}


def edit(rng, s):
    r = rng.random()
    if r < 0.1:
        return {'p': 'title', 'v': 'Model of run %d' % rng.randrange(1000)}
    if r < 0.2:
        return {'p': 'constraint', 'i': rng.randrange(12), 'j': rng.randrange(12), 'v': round(rng.uniform(0.2, 3), 2)}
    if r < 0.28:
        return {'p': 'result', 'v': rng.randrange(100)}
    if r < 0.36:
        return {'p': 'cov'}
    if r < 0.44:
        return {'p': 'bounds', 'i': rng.randrange(12), 'v': round(rng.uniform(1, 9), 2)}
    e = c06.gen_edit(rng, s)
    while e['e'] in ('badterm', 'badx', 'baddata', 'badbatch'):
        e = c06.gen_edit(rng, s)
    return e


class History(c06.History):
    extra = None

    def clone(self, m):
        h = object.__new__(History)
        h.world, h.numba, h.m = self.world, self.numba, m
        h.s, h.val, h.hold, h.init, h.seen = copy.deepcopy((self.s, self.val, self.hold, self.init, self.seen))
        h.extra = copy.deepcopy(self.extra)
        h.ready = False
        return h

    def attach(self):
        if not self.ready:
            self.m.dataframes = M.make_dataframes(self.s)
            self.ready = True

    def prop(self, e):
        """attributes which do not take part in evaluation but belong to the model"""
        m, x = self.m, self.extra
        u = self.used()
        if e['p'] == 'title':
            m.title = e['v']
        elif e['p'] == 'constraint':
            from larch.model.constraints import RatioBound
            if len(u) < 2:
                return False
            a, b = u[e['i'] % len(u)], u[e['j'] % len(u)]
            if a == b:
                return False
            m.set_value(b, minimum=0)
            m.constraints.append(RatioBound(a, b, min_ratio=e['v'], max_ratio=e['v'] + 4))
        elif e['p'] == 'result':
            import larch.util as lu
            m._most_recent_estimation_result = lu.dictx(loglike=-1.0 * e['v'], message='done', dashboard=[e['v']])
        elif e['p'] == 'cov':
            if not self.ready or not u:
                return False
            try:
                m.calculate_parameter_covariance()
            except np.linalg.LinAlgError:
                pass
            # the step of the finite differences is a known finding of C09
            for n, v in m.pf['value'].items():
                if n in self.val and abs(v - self.val[n]) < 1e-6:
                    self.val[n] = float(v)
        elif e['p'] == 'bounds':
            if not u or u[e['i'] % len(u)] not in m.pf.index:
                return False
            n = u[e['i'] % len(u)]
            if any(getattr(c, 'p_den', None) == n for c in m.constraints):
                return False      # the sign of the denominator of a ratio must stay known
            m.set_value(n, minimum=-e['v'], maximum=e['v'])
        return True


def describe(m, deep=True):
    """everything a user can read of a model that does not need data"""
    d = {'title': m.title, 'parameters': m.pf.drop(columns=['note', 'best'], errors='ignore').astype(object).to_dict('index'),
         'order of parameters': list(m.pf.index), 'utility_ca': str(m.utility_ca), 'quantity_ca': str(m.quantity_ca), 'quantity_scale': str(m.quantity_scale),
         'utility_co': {a: str(f) for a, f in m.utility_co.items() if len(f)},
         'constraints': [str(c) for c in m.constraints],
         'bounds and constraints': [str(c) for c in m._get_bounds_constraints()]}
    for a in ATTR:
        d[a] = str(getattr(m, a))
    r = m._most_recent_estimation_result
    d['estimation result'] = None if r is None else {k: str(v) for k, v in r.items() if k != 'dashboard'}
    d['covariance'] = {k: np.array(v) for k, v in m._matrixes.items()}
    try:
        g = m.graph
    except Exception:
        g = None
    if g is not None:
        d['nesting'] = (sorted(g.nodes), sorted(map(tuple, g.edges)), sorted((n, str(g.nodes[n].get('parameter'))) for n in g.nodes),
                        sorted((n, str(g.nodes[n].get('name'))) for n in g.nodes), list(g.standard_sort))
    return d


def compare(world, what, a, b):
    for k in a:
        x, y = a[k], b[k]
        if k == 'covariance':
            ok = set(x) == set(y) and all(np.array_equal(x[n], y[n], equal_nan=True) for n in x)
        elif k == 'parameters':
            ok = set(x) == set(y) and all(x[n].keys() == y[n].keys() and all(same(x[n][c], y[n][c]) for c in x[n]) for n in x)
        else:
            ok = x == y
        world.check(ok, '%s: %s' % (what, k), lambda: '%s\n before %s\n after  %s' % (k, x, y))


def same(a, b):
    return a is b or a == b or (a != a and b != b)


def duplicate(world, H, st):
    import larch
    m, way = H.m, st['c']
    before = describe(m)
    res = m._most_recent_estimation_result
    kept = None if res is None else sorted(res)
    if way == 'pickle':
        m2 = pickle.loads(pickle.dumps(m))
    elif way == 'copy':
        m2 = m.copy()
    elif way == 'deepcopy':
        m2 = copy.deepcopy(m)
    elif way == 'model':
        m2 = type(m)(model=m)
    else:
        path = os.path.join(world.scratch, 'model.pkl')
        blob = m.dumps()
        n = int(len(blob) * st['cut'])
        if way == 'restart':
            with open(path, 'wb') as f:
                f.write(blob[:n])
            world.fault('torn write of a saved model')
            try:
                with open(path, 'rb') as f:
                    bad = pickle.load(f)
            except Exception:
                world.check(True, 'torn file')
            else:
                world.check(False, 'torn file loaded', 'a file cut at byte %d of %d was loaded as %r' % (n, len(blob), bad))
        with open(path, 'wb') as f:
            f.write(blob)
        if way == 'load':
            m2 = type(m).load(path)
        else:
            with open(path, 'rb') as f:
                m2 = pickle.load(f)
            world.fault('restart of the process from a saved model')
    world.count('copies:' + way)
    compare(world, 'original changed by copying', before, describe(m))
    res = m._most_recent_estimation_result
    world.check((None if res is None else sorted(res)) == kept, 'original changed by copying: estimation result', lambda: '%s: %s before, %s after' % (way, kept, sorted(res)))
    world.check(type(m2) is type(m), 'type of the copy', lambda: '%s' % type(m2))
    new = H.clone(m2)
    if way == 'model':
        new.ready = H.ready
    # pickled models carry no data, and the nesting of a copy without data is defined by the same alternatives
    after = describe(m2)
    if 'nesting' not in after:
        before.pop('nesting', None)
    compare(world, 'copy differs from the original', before, after)
    return new


def evaluate(world, H, st, seq):
    ref = H.ref()
    if not ref.names:
        return
    H.attach()
    S = engine.Session(H.m, ref.s, ref, numba=H.numba, tag='after %s (%s engine)' % (seq, 'numba' if H.numba else 'compiled'))
    S.cur = H.val
    op = {'k': st['k']}
    if 'xs' in st:
        v = H.values(st['xs'], ref.names)
        v = {n: (H.val[n] if H.hold[n] else x) for n, x in v.items()}
        if st['xf'] == 'part':
            v = {n: x for i, (n, x) in enumerate(v.items()) if i % 2} or v
        op['x'] = v
        op['xf'] = st['xf']
        if st['xf'] == 'array':
            for n in H.m.pf.index:
                H.val.setdefault(n, float(H.m.pf.loc[n, 'value']))
                H.hold.setdefault(n, int(H.m.pf.loc[n, 'holdfast']))
    S.do(world, op)


def run(case, world):
    warnings.simplefilter('ignore')
    omp.start(case['sched'])
    H = History(case, world)
    H.ready, H.extra = True, {}
    hs, seq = [H], []
    if case.get('start'):
        H.m.loglike2()
    for st in case['steps']:
        n = st.get('on', 0) % len(hs)
        H = hs[n]
        others = [(h, describe(h.m)) for h in hs if h is not H]
        if 'c' in st:
            new = duplicate(world, H, st)
            if st.get('attach'):
                new.attach()
            if st['c'] == 'restart':
                hs[n] = new
            else:
                hs.append(new)
            seq.append('%s of model %d' % (st['c'], n))
        elif 'p' in st:
            if H.prop(st):
                seq.append('%s of model %d' % (st['p'], n))
        elif 'e' in st:
            if st['e'] == 'data':
                H.ready = True
            elif 'bad' in st['e']:
                H.attach()
            if H.edit(st):
                world.count('edits:' + st['e'])
                seq.append('%s of model %d' % (st['e'], n))
        else:
            evaluate(world, H, st, seq)
            seq.append('evaluation of model %d' % n)
        for h, d in others:
            compare(world, 'another copy changed', d, describe(h.m))
    for n, H in enumerate(hs):
        evaluate(world, H, {'k': 'bhhh3'}, seq + ['final evaluation of model %d' % n])
        pv = dict(H.m.pf['value'])
        for p in H.used():
            world.check(abs(pv[p] - H.val[p]) < 1e-12, 'value of a parameter', lambda: 'after %s: model %d: %s is %r, expected %r' % (seq, n, p, pv[p], H.val[p]))
    world.key(tuple(x.split(' of ')[0] for x in seq))


finish = c06.finish


def simplify(case):
    yield from c06.simplify(case)

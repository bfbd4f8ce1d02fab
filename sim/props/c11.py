"""Constraints and bounds apply to the parameters they name after any history of edits, copies and failures."""
import copy, random, warnings
import numpy as np
import models as M, omp
import props.c06 as c06, props.c10 as c10

ID = 'C11'
LEVEL = 'exploration'
BUDGET = {'quick': (300, 40), 'thorough': (40000, 1200)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.model.constraints', 'scipy.optimize', 'pickle round trips']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool']
ASSUMPTIONS = ['a ratio is constrained only while its denominator is bounded to one sign, as the documentation requires',
               'an estimation that its optimiser does not report as successful may end anywhere']
KEY_MEASURE = 'distinct sequences of (kind of edit, copy, constraint or check) of a run'
SHRINK_LISTS = (('steps',),)


def warm():
    c06.warm()


def gen_c(rng):
    k = rng.choice(['ratio', 'ratio', 'order', 'order', 'fixed'])
    lo = rng.choice([None, 0.4, 0.75, 1.0, -0.5, 0.0, 2.0])
    hi = rng.choice([None, 2.5, 4.0, 1.0]) if lo is None or lo < 1 else rng.choice([None, 3.0, 5.5])
    if lo is None and hi is None:
        hi = 1.5
    return {'k': k, 'i': rng.randrange(12), 'j': rng.randrange(12), 'lo': lo, 'hi': hi, 'neg': int(rng.random() < 0.2), 'str': int(rng.random() < 0.4)}


def generate(rng, i, tier):
    numba = int(rng.random() < 0.3)
    s = M.gen_spec(rng, n_cases=rng.choice([2, 3, 5, 8, 13]), **({'n_alts': rng.choice([3, 4, 5])} if rng.random() < 0.6 else {}))
    s['no_co'] = 0
    steps = [{'c': gen_c(rng)}]
    est = not numba and rng.random() < 0.5
    if est:
        for q in s['params'].values():
            q['holdfast'] = 0
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.2:
            steps.append({'c': gen_c(rng), 'how': rng.choice(['append', 'append', 'insert', 'set', 'assign'])})
        elif r < 0.3:
            steps.append({'dc': rng.randrange(8)})
        elif r < 0.38:
            steps.append({'bad': rng.choice(['type', 'unbounded', 'noparam'])})
        elif r < 0.46:
            steps.append({'copy': rng.choice(['pickle', 'copy', 'model'])})
        elif r < (0.7 if est else 0.5):
            steps.append({'fit': rng.choice(['slsqp', 'slsqp', 'cobyla', 'trust-constr']), 'mi': rng.choice([2, 8, 25])})
        elif r < (0.73 if est else 0.6):
            steps.append({'ev': 1})
        else:
            e = c06.gen_edit(rng, s)
            while e['e'] in ('badterm', 'badx', 'baddata', 'badbatch', 'unused', 'data') or (est and e['e'] in ('hold', 'lock')):
                e = c06.gen_edit(rng, s)
            steps.append(e)
            steps.append({'check': rng.getrandbits(30)})
    steps.append({'check': rng.getrandbits(30)})
    return {'spec': s, 'numba': numba, 'sched': omp.gen_sched(rng), 'steps': steps}


class Bound:
    """what a constraint means, by name"""
    def __init__(self, k, a, b, lo, hi, den=0):
        self.k, self.a, self.b, self.lo, self.hi, self.den = k, a, b, lo, hi, den

    def names(self):
        return {self.a, self.b} if self.k != 'fixed' else {self.a}

    def margins(self, v):
        if self.k == 'order':
            return [v[self.b] - v[self.a]]
        if self.k == 'fixed':
            return ([v[self.a] - self.lo] if self.lo is not None else []) + ([self.hi - v[self.a]] if self.hi is not None else [])
        sg = 1 if self.den >= 0 else -1
        return ([sg * (v[self.a] - self.lo * v[self.b])] if self.lo is not None else []) + ([sg * (self.hi * v[self.b] - v[self.a])] if self.hi is not None else [])

    def desc(self):
        return '%s %s %s %s %s' % (self.k, self.a, self.b, self.lo, self.hi)


def add(H, bounds, st, world, seq):
    from larch.model.constraints import RatioBound, OrderingBound, FixedBound
    c, m = st['c'], H.m
    u = H.used()
    if not u:
        return
    a, b = u[c['i'] % len(u)], u[c['j'] % len(u)]
    if c['k'] != 'fixed' and a == b:
        return
    den = {x.b: x.den for x in bounds if x.k == 'ratio'}
    if c['k'] == 'ratio':
        lo = float(m.pf.loc[b, 'minimum']) if b in m.pf.index else -np.inf
        sg = den.get(b) or (-1 if c['neg'] and np.isinf(lo) else 1)
        bound = Bound('ratio', a, b, c['lo'], c['hi'], sg)
        m.set_value(b, **({'minimum': 0} if sg > 0 else {'maximum': 0}))
        obj = RatioBound(a, b, min_ratio=c['lo'], max_ratio=c['hi'])
        if c['str'] and (c['lo'] is None or c['hi'] is None):
            obj = '%s/%s %s %s' % (a, b, '<=' if c['lo'] is None else '>=', c['hi'] if c['lo'] is None else c['lo'])
    elif c['k'] == 'order':
        bound = Bound('order', a, b, None, None)
        obj = OrderingBound(a, b)
        if c['str']:
            obj = ['%s <= %s' % (a, b), '%s >= %s' % (b, a)][c['neg']]
    else:
        bound = Bound('fixed', a, None, c['lo'], c['hi'])
        obj = FixedBound(a, c['lo'], c['hi'])
        if c['str']:
            obj = '%s >= %s' % (a, c['lo']) if c['hi'] is None else '%s <= %s' % (a, c['hi']) if c['lo'] is None else '%s <= %s <= %s' % (c['lo'], a, c['hi'])
    if isinstance(obj, str) and '#' in obj:
        return
    dup = [x for x in bounds if x.desc() == bound.desc()]
    how = st.get('how', 'append')
    if how == 'append':
        m.constraints.append(obj)
        new = bounds + [bound]
    elif how == 'insert':
        m.constraints.insert(0, obj)
        new = [bound] + bounds
    elif how == 'set':
        if not bounds:
            return
        i = c['i'] % len(bounds)
        m.constraints[i] = obj
        new = bounds[:i] + [bound] + bounds[i + 1:]
    else:
        if isinstance(obj, str):
            return
        m.constraints = [obj]
        bounds[:] = [bound]
        seq.append('assign')
        return
    # a duplicate is not added
    if not dup:
        bounds[:] = new
    seq.append(how + ' ' + bound.k)


def check(world, H, bounds, seed, seq):
    m = H.m
    tag = 'after %s' % seq
    world.check(len(m.constraints) == len(bounds), 'number of constraints', lambda: '%s: %s, expected %s' % (tag, list(m.constraints), [b.desc() for b in bounds]))
    for dc, b in zip(m.constraints, bounds):
        world.check(set(dc.get_parameters()) == b.names(), 'parameters of a constraint', lambda: '%s: %s expected %s' % (tag, dc, b.desc()))
    r = random.Random(seed)
    H.used()
    m.unmangle()
    for trial in range(3):
        v = {n: round(r.uniform(-2, 2), 3) for n in m.pf.index}
        for b in bounds:
            if b.k == 'ratio':
                v[b.b] = abs(v[b.b]) * (1 if b.den > 0 else -1)
        if trial == 2 and bounds:
            # on a boundary
            b = r.choice(bounds)
            if b.k == 'order':
                v[b.a] = v[b.b]
            elif b.k == 'ratio':
                v[b.a] = v[b.b] * (b.lo if b.lo is not None else b.hi)
            else:
                v[b.a] = b.lo if b.lo is not None else b.hi
        x = np.array([v[n] for n in m.pf.index])
        cons = m.get_all_contraints()[:len(bounds)]
        world.check(len(cons) == len(bounds), 'constraints of the model', lambda: '%s: %s' % (tag, cons))
        for c, b in zip(cons, bounds):
            want = min(b.margins(v))
            got = c.fun(x)
            world.count('constraints-evaluated')
            same = (got > 1e-9) == (want > 1e-9) and (got < -1e-9) == (want < -1e-9)
            world.check(same, 'constraint evaluated for other parameters', lambda: '%s: %s at %s gives %r, margin is %r' % (tag, c, v, got, want))
            world.check(bool(c.is_binding(x)) == (abs(got) < c.binding_tol), 'binding', '')
            if abs(want) > 1e-2:
                world.check(not c.is_binding(x), 'binding', lambda: '%s: %s is said to bind at %s (margin %r)' % (tag, c, v, want))
            if abs(want) < 1e-9:
                world.check(bool(c.is_binding(x)), 'binding', lambda: '%s: %s is said not to bind at %s (margin %r)' % (tag, c, v, want))
            ms = sorted(b.margins(v))
            if len(ms) == 1 or ms[1] - ms[0] > 1e-1:
                j = c.jac(x)
                for i, n in enumerate(m.pf.index):
                    y = x.copy(); y[i] += 1e-5
                    d = (c.fun(y) - got) / 1e-5
                    world.check(abs(d - j[i]) < 1e-3 * max(1, abs(d)), 'derivative of a constraint', lambda: '%s: %s with respect to %s: %r, expected %r' % (tag, c, n, j[i], d))
        ok_ = all(min(b.margins(v)) > 1e-6 for b in bounds)
        bad = any(min(b.margins(v)) < -1e-6 for b in bounds)
        for d in m._get_constraints('slsqp'):
            bad_ = d['fun'](x) < -1e-7
            if ok_:
                world.check(not bad_, 'constraint for the optimiser', lambda: '%s at %s' % (tag, v))
        if bad:
            world.check(any(d['fun'](x) < 0 for d in m._get_constraints('SLSQP')), 'constraint for the optimiser', lambda: '%s at %s' % (tag, v))
        lin = m._get_constraints('trust-constr')
        lb = [(np.asarray(l.A) @ x, l.lb, l.ub) for l in lin]
        sat = all(np.all(ax >= lo - 1e-9) and np.all(ax <= hi + 1e-9) for ax, lo, hi in lb)
        if ok_ or bad:
            world.check(sat == ok_, 'constraint for the optimiser', lambda: '%s: linear constraints at %s: %s' % (tag, v, lb))
        if H.numba:
            held = dict(H.val)
            # values within the bounds of the parameters
            keep = m.pf['value'].copy()
            m.set_values(v)
            now = {n: float(m.pf.loc[n, 'value']) for n in m.pf.index}
            over = any(now[n] > m.pf.loc[n, 'maximum'] or now[n] < m.pf.loc[n, 'minimum'] for n in now)
            marg = [min(b.margins(now)) for b in bounds] or [1]
            msg = m.constraint_violation(on_violation='return')
            if over or min(marg) < -1e-6:
                world.check(msg != '', 'violated constraint not reported', lambda: '%s at %s' % (tag, now))
            elif min(marg) > 1e-6:
                world.check(msg == '', 'constraint reported as violated', lambda: '%s at %s: %s' % (tag, now, msg))
            if bounds:
                penalty(world, m, bounds, now, tag)
            m.set_values(dict(keep), respect_holdfast=False)
            H.val.update(held)


def penalty(world, m, bounds, now, tag):
    m.unmangle()
    m.constraint_intensity, m.constraint_sharpness = 2.0, 3.0
    try:
        for (pen, dpen, bind), b in zip(m._constraint_funcs, bounds):
            x = np.array([now[n] for n in m.pf.index], dtype=np.float64)
            p, d = pen(x, 2.0, 3.0), dpen(x, 2.0, 3.0)
            world.count('penalties')
            for i, n in enumerate(m.pf.index):
                world.check(n in b.names() or d[i] == 0, 'penalty on another parameter', lambda: '%s: %s pushes %s' % (tag, b.desc(), n))
            if min(b.margins(now)) > 0.3:
                world.check(np.all(np.abs(d) < 1.0e1), 'penalty of a satisfied constraint', lambda: '%s: %s %r' % (tag, b.desc(), d))
            if min(b.margins(now)) < -1e-3:
                # following the derivative must lead back to the feasible side
                y = {n: now[n] + 1e-7 * d[i] for i, n in enumerate(m.pf.index)}
                world.check(min(b.margins(y)) > min(b.margins(now)), 'penalty does not push towards the feasible side', lambda: '%s: %s at %s: %s' % (tag, b.desc(), now, d))
    finally:
        m.constraint_intensity, m.constraint_sharpness = 0.0, 0.0


def run(case, world):
    import larch
    from larch.model.constraints import RatioBound
    warnings.simplefilter('ignore')
    omp.start(case['sched'])
    H = c10.History(case, world)
    H.ready, H.extra = True, {}
    bounds, seq = [], []
    for st in case['steps']:
        if 'c' in st:
            add(H, bounds, st, world, seq)
        elif 'dc' in st:
            if bounds:
                i = st['dc'] % len(bounds)
                del H.m.constraints[i]
                del bounds[i]
                seq.append('delete')
        elif 'bad' in st:
            u = [n for n in H.used() if n not in {x.b for x in bounds} and np.isinf(H.m.pf['minimum'].get(n, 0)) and np.isinf(H.m.pf['maximum'].get(n, 0))]
            if st['bad'] == 'type':
                obj = 3
            elif st['bad'] == 'noparam' or len(u) < 2:
                obj = RatioBound('no_such', 'parameter', 0.5)
            else:
                obj = RatioBound(u[0], u[1], min_ratio=0.5)
            try:
                H.m.constraints.append(obj)
            except (TypeError, KeyError, ValueError):
                world.fault('rejected constraint: ' + st['bad'])
            else:
                world.check(False, 'constraint that cannot be applied was accepted', '%s' % obj)
            seq.append('rejected')
        elif 'copy' in st:
            way = st['copy']
            import pickle
            m2 = pickle.loads(pickle.dumps(H.m)) if way == 'pickle' else H.m.copy() if way == 'copy' else type(H.m)(model=H.m)
            ready = H.ready and way == 'model'
            H = H.clone(m2)
            H.ready = ready
            H.attach()
            world.fault('model replaced by its copy')
            seq.append(way)
        elif 'fit' in st:
            fit(world, H, bounds, st, seq)
        elif 'ev' in st:
            c10.evaluate(world, H, {'k': 'bhhh3'}, seq)
            seq.append('evaluation')
        elif 'check' in st:
            check(world, H, bounds, st['check'], seq)
        elif 'e' in st:
            names = {n for b in bounds for n in b.names()}
            keep = copy.deepcopy(H.s)
            if H.edit(st):
                world.count('edits:' + st['e'])
                seq.append(st['e'])
    world.key(tuple(seq))


def fit(world, H, bounds, st, seq):
    m = H.m
    ref = H.ref()
    if not ref.names or H.numba or any(n not in m.pf.index for b in bounds for n in b.names()):
        return
    if m.dataframes is None:
        return
    free = [n for n in m.pf.index if not m.pf.loc[n, 'holdfast']]
    if len(free) != len(m.pf):
        return
    # bounded, so that the estimation has a solution
    for n in m.pf.index:
        lo, hi = float(m.pf.loc[n, 'minimum']), float(m.pf.loc[n, 'maximum'])
        m.set_value(n, minimum=max(lo, -6 if not n.startswith(('mu_', 'q_theta')) else 0.05), maximum=min(hi, 6 if not n.startswith(('mu_', 'q_theta')) else 1.0))
    try:
        r = m.maximize_loglike(method=st['fit'], quiet=True, final_screen_update=False, options={'maxiter': st['mi']})
    except (np.linalg.LinAlgError, ValueError):  # raised by the optimiser where the loglikelihood is not finite
        r = {}
    for n in m.pf.index:
        if n in H.val:
            H.val[n] = float(m.pf.loc[n, 'value'])
    seq.append(st['fit'])
    if r.get('success') and r.get('x') is not None and st['fit'] != 'cobyla':
        v = dict(m.pf['value'])
        world.count('constrained-estimations')
        for b in bounds:
            world.check(min(b.margins(v)) > -1e-3, 'estimate violates a constraint', lambda: 'after %s: %s at %s: %s' % (seq, b.desc(), v, r.get('message')))


finish = c06.finish


def simplify(case):
    yield from c06.simplify(case)

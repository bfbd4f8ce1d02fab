"""Estimation: the result describes the model it leaves behind, and an interrupted estimation does no harm."""
import copy, random, sys, warnings
import numpy as np
import models as M, omp

ID = 'C08'
LEVEL = 'fault injection'
BUDGET = {'quick': (900, 70), 'thorough': (20000, 1500)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.model.optimization, larch.numba.optimization', 'scipy.optimize']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool', 'interrupts: raised by the harness at a chosen evaluation or traced line']
ASSUMPTIONS = ['an interruption is an exception raised at the start or end of an evaluation, in the progress callback, or at a line of the numba engine\'s Python code']
KEY_MEASURE = 'distinct (engine, method, outcome, kind and place of the interruption) of a run'
SHRINK_LISTS = ()
CPU_LIMIT = 60

METHODS = [None, None, 'bhhh', 'bhhh', 'slsqp', 'l-bfgs-b', 'bfgs', 'cg', 'nelder-mead', 'powell', 'trust-constr', 'tnc']
BOUNDED = ('slsqp', 'l-bfgs-b', 'tnc')  # trust-constr may leave the bounds by design
ERRORS = {'kbd': KeyboardInterrupt, 'rt': RuntimeError, 'mem': MemoryError, 'os': OSError}


def warm():
    import props.c04 as c04
    c04.warm()
    import scipy.optimize


def generate(rng, i, tier):
    numba = int(rng.random() < 0.45)
    s = M.gen_spec(rng, n_cases=rng.choice([12, 21, 34, 55]), n_alts=rng.choice([2, 3, 4]), nested=rng.random() < 0.25, quantity=rng.random() < 0.3)
    if s['wt'] == 'zeros':
        s['wt'] = None
    bounds = {}
    for n, q in s['params'].items():
        if q['holdfast'] == 0 and rng.random() < 0.15 and q.get('min') is None:
            q['min'], q['max'] = round(q['value'] - rng.uniform(0.05, 1), 3), round(q['value'] + rng.uniform(0.05, 1), 3)
    s['no_co'] = 0
    c = {'spec': s, 'numba': numba, 'sched': omp.gen_sched(rng), 'sched2': omp.gen_sched(rng), 'method': rng.choice(METHODS), 'nt': rng.choice([1, 2, 3, 7, -1]),
         'maxiter': rng.choice([None, None, None, 1, 2, 5]), 'leave': rng.random() < 0.12, 'jump': rng.choice([0, 0, 0, 0, 1, 2]), 'start': rng.choice(['as-is', 'null', 'good']),
         'cap': int(rng.random() < 0.3), 'fault': None}
    if rng.random() < 0.6:
        f = {'err': rng.choice(list(ERRORS)), 'where': rng.choice(['before', 'after', 'after', 'callback', 'line'] if numba else ['before', 'after', 'after', 'callback'])}
        f['at'] = int(2 ** rng.uniform(0, 6)) if f['where'] != 'line' else int(2 ** rng.uniform(0, 12))
        if f['where'] == 'callback':
            f['at'] = rng.randint(1, 4)
        c['fault'] = f
    return c


class Stop:
    """Counts evaluations (or traced lines) and interrupts the chosen one."""
    def __init__(self, f, world):
        self.f, self.world, self.n, self.fired, self.armed = f, world, 0, False, False
        self.lines = 0
        self.lls = []

    def hit(self, where, what):
        if not self.armed or not self.f or self.fired or self.f['where'] != where:
            return
        self.n += 1
        if self.n == self.f['at']:
            self.fired = True
            self.world.fault('%s raised %s %s' % (self.f['err'], where, what))
            raise ERRORS[self.f['err']]('injected')

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not (fn.endswith('larch/numba/model.py') or fn.endswith('larch/numba/optimization.py')):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and self.armed and not self.fired:
            self.lines += 1
            if self.lines == self.f['at']:
                self.fired = True
                self.world.fault('%s raised at a line of the numba engine' % self.f['err'])
                self.world.note('line', frame.f_code.co_name, frame.f_lineno)
                raise ERRORS[self.f['err']]('injected')
        return self.local


def subclass(base, stop):
    class Watched(base):
        pass

    def wrap(name):
        orig = getattr(base, name)

        def f(self, *a, **k):
            stop.hit('before', 'an evaluation')
            r = orig(self, *a, **k)
            full = len(a) <= 1 and not any(z in k and k[z] not in (None, -1, 0, 1) for z in ('start_case', 'stop_case', 'step_case')) and k.get('leave_out', -1) in (-1, None) and k.get('keep_only', -1) in (-1, None)
            if stop.armed and full and name != 'd_loglike':
                ll = float(r if name == 'loglike' else r.ll)
                stop.lls.append(ll)
            stop.hit('after', 'an evaluation')
            return r
        f.__name__ = name
        return f
    for n in ('loglike', 'd_loglike', 'loglike2', 'loglike2_bhhh'):
        setattr(Watched, n, wrap(n))
    return Watched


def build(case, world, stop=None):
    import larch
    if case['numba']:
        import larch.numba as ln
        base = ln.Model
    else:
        base = larch.Model
    m = M.make_model(case['spec'], cls=subclass(base, stop) if stop else base)
    if not case['numba']:
        m.n_threads = case['nt']
    if case['cap']:
        m.set_cap(6)
    return m


def kwargs(case):
    k = {'quiet': True}
    if case['method']:
        k['method'] = case['method']
    if case['maxiter']:
        k['maxiter'] = case['maxiter']
    if case['jump']:
        k['jumpstart'] = case['jump']
    if case['leave']:
        k.update(leave_out=1, subsample=3)
    return k


def part(case):
    return dict(leave_out=1, subsample=3) if case['leave'] else {}


def run(case, world):
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    s = case['spec']
    ref = M.Ref(s)
    names = ref.names
    free = [n for n, h in zip(names, ref.holdfast) if not h]
    if not free:
        return
    stop = Stop(case['fault'], world)
    m = build(case, world, stop)
    if case['start'] == 'null':
        m.set_values('null')
    elif case['start'] == 'good':
        m.set_values({n: s['params'][n]['value'] * 0.5 for n in free if s['params'][n].get('min') is None})
    rk = part(case)
    tag = '%s engine, method %s' % ('numba' if case['numba'] else 'compiled', case['method'])
    vals = lambda mm: {n: float(mm.pf.loc[n, 'value']) for n in names}
    LL = lambda v, **k: ref.full(np.array([v[n] for n in names]), want=1, **k)['ll']
    v0 = vals(m)
    bound = {n: (float(m.pf.loc[n, 'minimum']), float(m.pf.loc[n, 'maximum'])) for n in names}
    inside = all(not (b[0] > v0[n]) and not (b[1] < v0[n]) for n, b in bound.items())
    ll0 = LL(v0, **rk)
    prior = m._most_recent_estimation_result if hasattr(m, '_most_recent_estimation_result') else None
    stop.armed = True
    if case['fault'] and case['fault']['where'] == 'line':
        sys.settrace(stop.trace)
    err = r = None
    kw = kwargs(case)
    if case['fault'] and case['fault']['where'] == 'callback':
        # the caller's progress display fails
        from larch.model import optimization as O
        orig = O.ModelDashboard.update

        def update(self, *a, **k):
            stop.hit('callback', 'the progress display')
        O.ModelDashboard.update = update
        kw['quiet'] = False
    try:
        r = m.maximize_loglike(**kw)
    except BaseException as e:
        err = e
    finally:
        sys.settrace(None)
        stop.armed = False
    world.note('estimated', type(err).__name__, stop.fired, sorted(vals(m).items()))
    vstop = vals(m)
    for n in names:
        if ref.holdfast[names.index(n)]:
            world.check(vstop[n] == v0[n], 'parameter held fixed was changed', lambda: '%s: %s from %r to %r' % (tag, n, v0[n], vstop[n]))
        world.check(np.isfinite(vstop[n]), 'value of a parameter is not finite', lambda: '%s: %s' % (tag, n))
    outcome = 'failed' if err is not None else 'returned'
    if stop.fired:
        outcome = 'interrupted'
        world.check(err is not None or case['fault']['where'] == 'callback' and False, 'interruption swallowed', lambda: '%s: %s raised %s, estimation returned %r' % (
            tag, case['fault']['err'], case['fault']['where'], dict(r)))
        world.check(isinstance(err, ERRORS[case['fault']['err']]), 'interruption replaced by another error', lambda: '%s: %r' % (tag, err))
    elif err is not None:
        world.check(isinstance(err, (ValueError, FloatingPointError, np.linalg.LinAlgError)), 'estimation failed', lambda: '%s: %r' % (tag, err))
        world.count('gave-up:%s' % type(err).__name__)
    best = float(m._get_cached_loglike_values()['best'])
    reached = [x for x in stop.lls if np.isfinite(x)]
    pen = case['numba'] and float(getattr(m, 'constraint_intensity', 0) or 0)
    if reached and not pen:
        # nothing reached so far is lost (the interrupted evaluation may not have been recorded)
        sure = reached[:-1] if stop.fired else reached
        if sure:
            world.check(best >= max(sure) - 1e-6 * (1 + abs(best)), 'best log likelihood lost', lambda: '%s: %r reached, %r recorded' % (tag, max(sure), best))
    if np.isfinite(best):
        vb = {n: float(m.pf.loc[n, 'best']) for n in names}
        lb = LL(vb)
        world.check(abs(lb - best) <= 1e-5 * (1 + abs(best)), 'best parameters are not those of the best log likelihood', lambda: '%s: %r vs %r' % (tag, best, lb))
    # the model that is left behind evaluates what it holds
    wild = ran_away(vstop)
    if not wild:
        got = m.loglike()
        want = LL(vstop)
        world.check(abs(got - want) <= 1e-5 * (1 + abs(want)), 'model left inconsistent', lambda: '%s, %s: loglike() is %r but its parameters give %r' % (tag, outcome, got, want))
        g = np.asarray(m.d_loglike())
        wg = M.reorder(ref, m, ref.full(np.array([vstop[n] for n in names]), want=2)['dll'])
        world.check(np.allclose(g, wg, rtol=1e-4, atol=1e-4 * (1 + np.abs(wg).max())), 'model left inconsistent', lambda: '%s, %s: gradient %r but its parameters give %r' % (tag, outcome, g, wg))
    if r is not None:
        describe(case, world, m, r, tag, names, ref, v0, ll0, vstop, bound, inside, LL, rk)
        outcome = 'converged' if success(r) else 'returned'
    else:
        mr = getattr(m, '_most_recent_estimation_result', None)
        world.check(mr is None or mr is prior, 'interrupted estimation recorded as a result', lambda: '%s: %r' % (tag, mr))
    world.key((case['numba'], case['method'], outcome, case['fault'] and case['fault']['where'], case['fault'] and case['fault']['err']))
    world.count('outcome:' + outcome)
    # afterwards an estimation reaches what an undisturbed one reaches, on another schedule
    if stop.fired or (r is not None and case['sched2'].get('on')):
        again(case, world, m, v0, names, ref, LL, rk, tag, wild)


def ran_away(x):
    # so far out that the engines' exponentials overflow
    return any(not abs(v) <= 15 or (n.startswith('mu') and v < 0.05) for n, v in x.items())


def success(r):
    return bool(r.get('success', False)) or str(r.get('message', '')).startswith('Optimization terminated successfully')


def describe(case, world, m, r, tag, names, ref, v0, ll0, vstop, bound, inside, LL, rk):
    method = str(r['method'])
    last = method.split('|')[-1].split('->')[-1].lower()
    world.check('loglike' in r and 'x' in r, 'result lacks the log likelihood or the parameters', lambda: '%s: %r' % (tag, dict(r)))
    x = {n: float(r['x'][n]) for n in names}
    tag = '%s (%s)' % (tag, method)
    if ran_away(x):
        world.count('ran away')
        return
    for n in names:
        world.check(abs(x[n] - vstop[n]) <= 1e-9 * (1 + abs(x[n])), 'model does not hold the reported parameters', lambda: '%s: %s is %r in the result, %r in the model' % (tag, n, x[n], vstop[n]))
        if ref.holdfast[names.index(n)]:
            world.check(x[n] == v0[n], 'parameter held fixed is reported with another value', lambda: '%s: %s %r %r' % (tag, n, v0[n], x[n]))
        elif inside and last in BOUNDED:
            a, b = bound[n]
            world.check(not (x[n] < a - 1e-6) and not (x[n] > b + 1e-6), 'parameter outside its bounds', lambda: '%s: %s=%r not in %r' % (tag, n, x[n], bound[n]))
    lx = LL(x, **rk)
    world.check(abs(r['loglike'] - lx) <= 1e-5 * (1 + abs(lx)), 'reported log likelihood is not that of the reported parameters', lambda: '%s: reported %r, parameters give %r' % (tag, r['loglike'], lx))
    if success(r) and inside:
        world.check(r['loglike'] >= ll0 - 1e-6 * (1 + abs(ll0)), 'worse than where it started', lambda: '%s: from %r to %r' % (tag, ll0, r['loglike']))
    if 'd_loglike' in r and last in ('l-bfgs-b', 'bfgs', 'cg', 'tnc'):
        g = ref.full(np.array([x[n] for n in names]), want=2, **rk)['dll']
        got = np.array([float(r['d_loglike'][n]) for n in names])
        world.check(np.allclose(got, g, rtol=1e-3, atol=1e-3 * (1 + np.abs(g).max())), 'reported gradient is not that of the reported parameters', lambda: '%s: %r vs %r' % (tag, got, g))
    tw = float(m.total_weight())
    world.check(abs(r['logloss'] * tw + r['loglike']) <= 1e-6 * (1 + abs(r['loglike'])), 'log loss', lambda: '%s: %r %r %r' % (tag, r['logloss'], tw, r['loglike']))
    world.check(r['n_cases'] == case['spec']['n_cases'], 'number of cases', lambda: repr(r['n_cases']))
    keep = r['x'].copy()
    m.set_values({n: v0[n] + 0.125 for n in names if not ref.holdfast[names.index(n)]})
    m.loglike2()
    world.check(keep.equals(r['x']), 'result changed by later use of the model', lambda: tag)
    m.set_values({n: vstop[n] for n in names})
    if success(r) and not case['maxiter'] and inside:
        optimum(case, world, r, x, tag, names, ref, bound, LL, rk, last)


def optimum(case, world, r, x, tag, names, ref, bound, LL, rk, last):
    """a result reported as successful cannot be improved much along the scoring direction"""
    if case['spec']['nests'] or case['spec']['q_ca']:
        return
    if last == 'trust-constr' and any(np.isfinite(v) for b in bound.values() for v in b):
        return
    xv = np.array([x[n] for n in names])
    f = ref.full(xv, **rk)
    fr = [i for i, n in enumerate(names) if not ref.holdfast[i]
          and not (last in BOUNDED and (x[n] - bound[n][0] < 1e-4 or bound[n][1] - x[n] < 1e-4))]
    if not fr:
        return
    g = np.asarray(f['dll'])[fr]
    B = np.asarray(f['bhhh'])[np.ix_(fr, fr)]
    d = np.linalg.pinv(B, rcond=1e-8) @ g
    gain = 0
    for t in (1.0, 0.5, 0.25, 0.05):
        y = xv.copy()
        y[fr] += t * d
        if last in BOUNDED:
            y = np.clip(y, [bound[n][0] if bound[n][0] == bound[n][0] else -np.inf for n in names], [bound[n][1] if bound[n][1] == bound[n][1] else np.inf for n in names])
        gain = max(gain, ref.full(y, want=1, **rk)['ll'] - f['ll'])
    world.check(gain <= 0.05, 'successful estimation is not at an optimum', lambda: '%s: log likelihood %r can be improved by %r; %s; gradient %s, bhhh %s, x %s' % (tag, f['ll'], gain, r.get('message'), g, B.tolist(), x))
    world.count('optima verified')


def again(case, world, m, v0, names, ref, LL, rk, tag, wild):
    c = dict(case, fault=None, jump=0, maxiter=None)
    omp.start(case['sched2'])
    fresh = build(c, world)
    kw = kwargs(c)
    z = {n: v0[n] for n in names}
    m.set_values(z)
    fresh.set_values(z)
    out = []
    for mm in (m, fresh):
        try:
            out.append(mm.maximize_loglike(**kw))
        except Exception as e:
            out.append(None)
    a, b = out
    world.check((a is None) == (b is None), 'estimation after an interruption behaves differently', lambda: '%s: %r vs %r' % (tag, a, b))
    if a is None or not (success(a) and success(b)):
        return
    world.count('estimated again')
    if any(abs(float(v)) > 15 for v in list(a['x']) + list(b['x'])) or case['spec']['nests'] or case['spec']['q_ca']:
        return
    world.check(abs(a['loglike'] - b['loglike']) <= 0.02 + 1e-5 * abs(b['loglike']), 'estimation after an interruption reaches something else',
                lambda: '%s: %r, undisturbed %r' % (tag, a['loglike'], b['loglike']))


def finish(case, world):
    from props.c01 import finish as f
    f(case, world)


def simplify(case):
    if case['fault']:
        c = copy.deepcopy(case); c['fault'] = None
        yield c
    for s in M.shrink_spec(case['spec']):
        if s['n_cases'] >= 4:
            c = copy.deepcopy(case); c['spec'] = s
            yield c
    for k, v in (('cap', 0), ('leave', False), ('jump', 0), ('maxiter', None), ('start', 'as-is'), ('nt', 1)):
        if case[k] != v:
            c = copy.deepcopy(case); c[k] = v
            yield c
    for k in ('sched', 'sched2'):
        if case[k].get('on'):
            c = copy.deepcopy(case); c[k] = {'on': 0}
            yield c

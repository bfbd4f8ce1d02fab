"""Analysing a model (null and constants-only log likelihood, likelihood ratios, second derivatives, covariance, gradient checks,
statistics) gives the right figures and leaves the model as it was, also when it is interrupted."""
import copy, random, warnings
import numpy as np
import models as M, omp, engine
from props import c06, c08
from props.c06 import warm, finish

ID = 'C09'
LEVEL = 'fault injection'
BUDGET = {'quick': (1000, 60), 'thorough': (30000, 1500)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.DataFrames', 'parameter frame and covariance code']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool', 'interrupts: raised by the harness at a chosen evaluation']
ASSUMPTIONS = ['an interruption is an exception raised at the start or end of an evaluation made by the analysis', 'null values of parameters do not change after they have been used']
KEY_MEASURE = 'distinct sequences of (edit, analysis, interrupted analysis) of a run'
SHRINK_LISTS = (('steps',),)
EDITS = ('ca+', 'ca-', 'co', 'co+', 'codel', 'data', 'data', 'nest', 'unnest', 'mu', 'q', 'q-', 'values', 'values', 'hold', 'nt', 'unused')
ANALYSES = ['null', 'null', 'nil', 'const', 'rho', 'rhonil', 'ratio', 'ratios', 'ratio-to', 'd2', 'll3', 'check', 'cov', 'cov', 'stats', 'summary']


def generate(rng, i, tier):
    numba = int(rng.random() < 0.4)
    s = M.gen_spec(rng, n_cases=rng.choice([3, 5, 8, 13, 21]))
    s['no_co'] = 0
    if s['wt'] == 'zeros':
        s['wt'] = 'real'
    steps = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.3:
            e = {'e': None}
            while e['e'] not in EDITS:
                e = c06.gen_edit(rng, s)
            steps.append(e)
        else:
            a = {'a': rng.choice(ANALYSES), 'i': rng.randrange(8), 'v': round(rng.uniform(0.3, 0.9), 3)}
            if rng.random() < 0.35:
                a['fault'] = {'err': rng.choice(list(c08.ERRORS)), 'where': rng.choice(['before', 'after']), 'at': rng.choice([1, 1, 2, 2, 3, 5, 8])}
            if a['a'] in ('cov', 'stats') and not numba and rng.random() < 0.15:
                a['prior'] = 1
            steps.append(a)
    if not any('a' in st for st in steps):
        steps.append({'a': 'cov', 'i': 0, 'v': 0.5})
    return {'spec': s, 'numba': numba, 'start': int(rng.random() < 0.7), 'sched': omp.gen_sched(rng), 'steps': steps}


class Analysed(c06.History):
    def __init__(self, case, world):
        import larch
        self.stop = c08.Stop(None, world)
        if case['numba']:
            import larch.numba as ln
            base = ln.Model
        else:
            base = larch.Model
        self.cls = c08.subclass(base, self.stop)
        keep = M.make_model
        try:
            M.make_model = lambda s, cls=None, **k: keep(s, cls=self.cls, **k)
            super().__init__(case, world)
        finally:
            M.make_model = keep
        self.seq = []

    def frame(self):
        m = self.m
        m.unmangle()
        return {c: dict(m.pf[c]) for c in ('value', 'holdfast', 'minimum', 'maximum', 'nullvalue', 'initvalue')}

    def x(self, ref):
        return np.array([self.val[n] for n in ref.names])

    def nullvals(self, ref):
        nv = dict(self.m.pf['nullvalue'])
        return np.array([self.val[n] if self.hold[n] else float(nv[n]) for n in ref.names])

    def same(self, before, tag, failed, kind=None):
        after = self.frame()
        if kind in ('d2', 'll3', 'cov') and before['value'].keys() == after['value'].keys():
            # known finding: the last step of the finite differencing (1.5e-8, one parameter) stays in the parameters
            moved = [n for n, v in before['value'].items() if v != after['value'][n]]
            if len(moved) == 1 and abs(after['value'][moved[0]] - before['value'][moved[0]]) < 2e-8:
                self.world.check(not self.case.get('strict_step'), 'finite difference step left in the parameters', lambda: '%s: value of %s' % (tag, moved[0]))
                self.world.count('finite difference step put back')
                self.m.set_values({moved[0]: before['value'][moved[0]]})
                after = self.frame()
        for c in before:
            for n, v in before[c].items():
                w = after[c].get(n)
                eq = (v == w) or (v != v and w != w)
                self.world.check(eq, 'analysis changed the model', lambda: '%s: %s of %s was %r and is %r' % (tag, c, n, v, w))

    def edit(self, e):
        done = super().edit(e)
        if any(self.hold.values()) or e['e'] == 'hold':
            # what held parameters keep while the others are null changes without the model or its data changing
            if self.m.dataframes is not None:
                self.m.loglike_null(use_cache=False)
        return done

    def analyse(self, st):
        m, w, k = self.m, self.world, st['a']
        ref = self.ref()
        u = ref.names
        free = [n for n in u if not self.hold[n]]
        if not u:
            return
        # "no most recent estimation" is fine for every analysis
        before = self.frame()
        if not all(n in before['value'] for n in u):
            return
        x = self.x(ref)
        ll = ref.full(x, want=1)['ll']
        if not np.isfinite(ll):
            return
        pick = u[st['i'] % len(u)]
        tag = '%s, %s engine, after %s' % (k, 'numba' if self.numba else 'compiled', self.seq)
        # a parameter frame can hold parameters of earlier structures: those have no effect
        self.stop.f, self.stop.n, self.stop.fired, self.stop.armed = st.get('fault'), 0, False, True
        err = got = None
        near = lambda a, b, t=1e-5: abs(float(a) - float(b)) <= t * (1 + abs(float(b)))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = self.call(k, pick, st)
        except BaseException as e:
            err = e
        self.stop.armed = False
        fired = self.stop.fired
        self.seq.append(k + ('!' if fired else ''))
        w.count('analyses:' + k)
        w.note(k, fired, type(err).__name__)
        if fired:
            w.check(err is not None, 'interruption swallowed', lambda: '%s returned %r' % (tag, got))
        elif err is not None:
            if isinstance(err, ZeroDivisionError) and k in ('rho', 'rhonil'):
                pass
            else:
                if isinstance(err, KeyboardInterrupt):
                    raise err
                raise err
        self.same(before, tag + (' (interrupted)' if fired else ''), fired, k)
        now = m.loglike()
        w.check(near(now, ll), 'analysis left the model evaluating something else', lambda: '%s: loglike() was %r and is %r' % (tag, ll, now))
        if err is not None:
            return
        # the figures
        E = lambda what, g, v, t=1e-5: w.check(near(g, v, t), 'figure: ' + what, lambda: '%s: %r, expected %r' % (tag, g, v))
        nll = ref.full(self.nullvals(ref), want=1)['ll']
        nil = self.nil(ref)
        if k == 'null':
            E('log likelihood at null values', got, nll)
        elif k == 'nil':
            E('log likelihood without a model', got, nil)
        elif k == 'const':
            w.check(got >= nil - 1e-4 * (1 + abs(nil)) and got <= 1e-6, 'figure: log likelihood with constants only', lambda: '%s: %r, without a model %r' % (tag, got, nil))
            best = self.constants(ref)
            if best is not None:
                w.check(got >= best - 0.05 - 1e-4 * abs(best), 'figure: log likelihood with constants only', lambda: '%s: %r, attainable %r' % (tag, got, best))
        elif k == 'rho' and nll != 0:
            E('rho squared', got, 1 - ll / nll)
        elif k == 'rhonil' and nil != 0:
            E('rho squared', got, 1 - ll / nil)
        elif k in ('ratio', 'ratio-to'):
            y = x.copy()
            y[u.index(pick)] = float(before['nullvalue'][pick]) if k == 'ratio' else st['v']
            alt = ref.full(y, want=1)['ll']
            E('likelihood ratio', got, ll - alt if y[u.index(pick)] != x[u.index(pick)] else 0.0, 1e-4)
        elif k == 'ratios':
            for n in u:
                if not self.hold[n]:
                    y = x.copy()
                    y[u.index(n)] = float(before['nullvalue'][n])
                    E('likelihood ratio', got[n], ll - ref.full(y, want=1)['ll'], 1e-4)
        elif k in ('d2', 'll3'):
            H = M.reorder(ref, m, self.hessian(ref, x))
            g = np.asarray(got if k == 'd2' else got['d2ll'], dtype=float)
            w.check(g.shape == H.shape and np.allclose(g, H, rtol=2e-3, atol=2e-3 * (1 + np.abs(H).max())), 'figure: second derivative', lambda: '%s:\n%s\nexpected\n%s' % (tag, g, H))
            if k == 'll3':
                E('log likelihood', got['ll'], ll)
        elif k == 'check':
            pass
        elif k == 'cov':
            self.covariance(ref, x, tag)

    def covariance(self, ref, x, tag):
        m, w = self.m, self.world
        fr = [i for i, n in enumerate(ref.names) if not self.hold[n]]
        if not fr:
            return
        for n in ref.names:
            # parameters at a bound are handled as constrained
            lo, hi, v = (float(m.pf.loc[n, c]) for c in ('minimum', 'maximum', 'value'))
            if abs(v - lo) < 1e-3 or abs(v - hi) < 1e-3:
                return
        if set(m.pf.index) != set(ref.names):
            return
        H = -self.hessian(ref, x)[np.ix_(fr, fr)]
        ev = np.linalg.eigvalsh(H)
        if abs(ev).max() == 0 or abs(ev).min() < 1e-3 * abs(ev).max():
            return
        inv = np.linalg.inv(H)
        B = np.asarray(ref.full(x)['bhhh'])[np.ix_(fr, fr)]
        C = np.zeros((len(ref.names),) * 2); R = C.copy()
        C[np.ix_(fr, fr)] = inv
        R[np.ix_(fr, fr)] = inv @ B @ inv
        C, R = M.reorder(ref, m, C), M.reorder(ref, m, R)
        for name, want, got in (('covariance', C, m.covariance_matrix), ('robust covariance', R, m.robust_covariance_matrix)):
            got = np.asarray(got, dtype=float)
            w.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-2, atol=1e-2 * np.abs(want).max()), 'figure: ' + name, lambda: '%s:\n%s\nexpected\n%s' % (tag, got, want))
        names = list(m.pf.index)
        for n in ref.names:
            i = names.index(n)
            if not self.hold[n] and C[i, i] > 0:
                se = float(m.pf.loc[n, 'std_err'])
                w.check(abs(se - C[i, i] ** 0.5) <= 1e-2 * C[i, i] ** 0.5, 'figure: standard error', lambda: '%s: %s %r, expected %r' % (tag, n, se, C[i, i] ** 0.5))
        w.count('covariances verified')

    def hessian(self, ref, x):
        K = len(x)
        H = np.zeros((K, K))
        for j in range(K):
            if ref.holdfast[j]:
                continue
            a, b = x.copy(), x.copy()
            a[j] += 1e-5; b[j] -= 1e-5
            H[j] = (np.asarray(ref.full(a, want=2)['dll']) - np.asarray(ref.full(b, want=2)['dll'])) / 2e-5
        return (H + H.T) / 2

    def nil(self, ref):
        d = ref.d
        n = (d.av != 0).sum(1)
        return float(-(d.wt * d.ch.sum(1) * np.log(n)).sum())

    def constants(self, ref):
        """what constants alone attain, when every alternative is always available"""
        d = ref.d
        if not (d.av != 0).all():
            return None
        w = (d.wt[:, None] * d.ch).sum(0)
        if (w <= 0).any():
            return None
        return float((w * np.log(w / w.sum())).sum())

    def call(self, k, pick, st):
        m = self.m
        if k == 'null':
            return m.loglike_null()
        if k == 'nil':
            return m.loglike_nil()
        if k == 'const':
            return m.loglike_constants_only()
        if k == 'rho':
            return m.rho_sq_null()
        if k == 'rhonil':
            return m.rho_sq_nil()
        if k == 'ratio':
            return m.likelihood_ratio(pick)
        if k == 'ratio-to':
            return m.likelihood_ratio(pick, ref_value=st['v'])
        if k == 'ratios':
            return m.likelihood_ratio()
        if k == 'd2':
            return m.d2_loglike()
        if k == 'll3':
            return m.loglike3()
        if k == 'check':
            return m.check_d_loglike(stylize=False)
        if k == 'cov':
            return m.calculate_parameter_covariance()
        if k == 'stats':
            return m.estimation_statistics()
        if k == 'summary':
            return m.parameter_summary()


def run(case, world):
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    H = Analysed(case, world)
    H.case = case
    if case.get('start'):
        H.m.loglike2()
    for st in case['steps']:
        if 'e' in st:
            if H.edit(st):
                H.seq.append(st['e'])
                world.count('edits:' + st['e'])
        else:
            H.analyse(st)
    world.key(tuple(H.seq))


def simplify(case):
    yield from c06.simplify(case)
    for i, st in enumerate(case['steps']):
        if st.get('fault'):
            c = copy.deepcopy(case); c['steps'][i]['fault'] = None
            yield c

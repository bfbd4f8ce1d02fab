"""The recorded best log likelihood and best parameters, over any history (compiled and numba engines)."""
import copy, warnings
import numpy as np
import models as M, omp, engine
from props import c06
from props.c06 import LEVEL, REAL, STUB, warm, finish, simplify

ID = 'C07'
BUDGET = {'quick': (1600, 60), 'thorough': (50000, 1500)}
ASSUMPTIONS = ['the best log likelihood is read through the cache the model prints in its reports, the best parameters through the parameter frame and set_values(\'best\')']
KEY_MEASURE = 'distinct sequences of (kind of edit, evaluation, estimation or restoration) of a run'
SHRINK_LISTS = (('steps',),)
FULL = ('ll', 'll2', 'bhhh3')
EDITS = ('ca', 'ca+', 'ca-', 'ca=', 'co', 'co+', 'co-', 'codel', 'data', 'nest', 'unnest', 'mu', 'q', 'q-', 'value', 'values', 'values', 'values', 'hold',
         'lock', 'null', 'init', 'batch', 'nt', 'badterm', 'badx', 'unused')


def generate(rng, i, tier):
    numba = int(rng.random() < 0.4)
    s = M.gen_spec(rng, n_cases=rng.choice([2, 3, 5, 8, 13]))
    s['no_co'] = 0
    kinds = ['ll', 'll', 'll2', 'll2', 'bhhh3', 'dll', 'prob', 'logsums', 'utility']
    steps = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < 0.22:
            e = {'e': None}
            while e['e'] not in EDITS:
                e = c06.gen_edit(rng, s)
            steps.append(e)
        elif r < 0.40:
            steps.append({'b': rng.choice(['look', 'restore', 'restore-by-x', 'rho', 'fit', 'fit', 'fitpart', 'cv', 'null', 'penal'])})
        else:
            op = c06.gen_eval(rng, kinds)
            if rng.random() < 0.75 and 'xs' not in op:
                op['xs'] = rng.getrandbits(32)
                op['xf'] = rng.choice(['dict', 'array', 'part'])
            if rng.random() < 0.4 and op['k'] in FULL + ('dll',):
                op['sl'] = engine.gen_slice(rng, s['n_cases'], True)
            steps.append(op)
    steps.append({'b': rng.choice(['look', 'restore'])})
    return {'spec': s, 'numba': numba, 'start': int(rng.random() < 0.8), 'sched': omp.gen_sched(rng), 'steps': steps}


class Best(c06.History):
    def __init__(self, case, world):
        super().__init__(case, world)
        self.floor = -np.inf     # greatest full-sample log likelihood returned since the model last changed
        self.seen_ll = []        # every full-sample log likelihood at a point that was visited
        self.seq = []

    def changed(self):
        self.floor = -np.inf

    def returned(self, ll):
        if np.isfinite(ll):
            self.floor = max(self.floor, float(ll))

    def best(self):
        return float(self.m._get_cached_loglike_values()['best'])

    def examine(self, where):
        """what the model says is best is a log likelihood of the whole sample, at the parameters it says"""
        w, b = self.world, self.best()
        tag = '%s, %s engine, after %s' % (where, 'numba' if self.numba else 'compiled', self.seq)
        tol = 1e-6 * (1 + abs(self.floor)) if np.isfinite(self.floor) else 0
        w.check(b >= self.floor - tol, 'best log likelihood lost', lambda: '%s: best is %r but %r was reached' % (tag, b, self.floor))
        f = self.m.pf
        if not np.isfinite(b):
            w.check('best' not in f.columns, 'best parameters without a best log likelihood', lambda: tag)
            return None
        w.check('best' in f.columns, 'best parameters missing', lambda: tag)
        ref = self.ref()
        if not all(n in f.index for n in ref.names):
            return None
        x = np.array([float(f.loc[n, 'best']) for n in ref.names])
        want = ref.full(x, want=1)['ll']
        if not np.isfinite(want) or not np.all(np.isfinite(x)):
            w.check(False, 'best parameters are not those of the best log likelihood', '%s: best %r, parameters %r' % (tag, b, x))
        w.check(abs(want - b) <= 2e-6 * (1 + abs(b)), 'best parameters are not those of the best log likelihood',
                lambda: '%s: recorded best %r, log likelihood of the recorded parameters %r' % (tag, b, want))
        w.count('best-examined')
        return b

    def bstep(self, st):
        m, w, k = self.m, self.world, st['b']
        if k == 'look':
            self.examine('looking')
        elif k in ('restore', 'restore-by-x'):
            b = self.examine('before restoring')
            if b is None or 'best' not in m.pf.columns:
                return
            x = dict(m.pf['best'])
            if k == 'restore':
                m.set_values('best')
                ll = m.loglike()
            else:
                ll = m.loglike('best')
            for n in list(self.val):
                if n in x and not self.hold[n]:
                    self.val[n] = float(x[n])
            now = dict(m.pf['value'])
            free = [n for n in self.used() if not self.hold[n]]
            w.check(all(abs(now[n] - x[n]) < 1e-12 for n in free), 'best parameters not restored', lambda: '%s: %s vs %s' % (k, now, x))
            if all(abs(x[n] - now[n]) < 1e-12 for n in self.used()):
                w.check(abs(ll - b) <= 2e-6 * (1 + abs(b)), 'best parameters do not reproduce the best log likelihood', lambda: '%r vs %r' % (ll, b))
            self.returned(ll)
        elif k == 'rho':
            if self.used():
                try:
                    m.rho_sq_null()
                except ZeroDivisionError:
                    w.count('null log likelihood is zero')
        elif k == 'null':
            if self.used():
                m.loglike_null(use_cache=False)
        elif k == 'penal':
            if self.numba:
                # a run with bounds pressed (constraints are on only inside an estimation)
                m.constraint_penalty()
        elif k in ('fit', 'fitpart', 'cv'):
            u = self.used()
            if not u or all(self.hold[n] for n in u):
                return
            r = None
            try:
                if k == 'cv':
                    m.cross_validate(cv=2, maxiter=2)
                else:
                    z = m.maximize_loglike(quiet=True, maxiter=3, **(dict(leave_out=st.get('fold', 0), subsample=3) if k == 'fitpart' else {}))
                    r = z if k == 'fit' else None
            except Exception as e:
                w.count('fit-raised:' + type(e).__name__)
            for n in u:
                self.val[n] = float(m.pf.loc[n, 'value'])
            if k != 'fit':
                r = None
            if r is not None and 'loglike' in r and np.isfinite(r['loglike']):
                w.count('fits')
                x = np.array([self.val[n] for n in self.ref().names])
                self.returned(self.ref().full(x, want=1)['ll'] if not self.numba else -np.inf)
        self.examine('after ' + k)
        if k in ('fit', 'fitpart', 'cv', 'restore', 'restore-by-x'):
            self.tame()

    def tame(self):
        """an estimation on few cases may run away; come back to where floating point is well behaved"""
        u = self.used()
        mus = {n['param'] for n in self.s['nests']} | {self.s['q_scale']}
        out = {n: self.val[n] for n in u if not (0.2 <= self.val[n] <= 1.5 if n in mus else abs(self.val[n]) <= 3)}
        for n in out:
            out[n] = 0.8 if n in mus else 0.25
        if out:
            self.m.set_values(out)
            self.put(out)


def run(case, world):
    warnings.simplefilter('ignore')
    omp.start(case['sched'])
    H = Best(case, world)
    if case.get('start'):
        H.returned(H.m.loglike2().ll)
        H.examine('first')
    for st in case['steps']:
        if 'b' in st:
            H.seq.append(st['b'])
            H.bstep(st)
            continue
        if 'e' in st:
            ok = H.edit(st)
            if ok:
                H.seq.append(st['e'])
                world.count('edits:' + st['e'])
                if st['e'] not in ('value', 'values', 'null', 'init', 'batch', 'nt', 'hold', 'lock'):
                    H.changed()
            continue
        ref = H.ref()
        if not ref.names:
            continue
        S = engine.Session(H.m, ref.s, ref, numba=H.numba, tag='after %s' % H.seq)
        S.cur = H.val
        op = {'k': st['k'], 'sl': st.get('sl') or {}}
        if 'xs' in st:
            v = {n: (H.val[n] if H.hold[n] else x) for n, x in H.values(st['xs'], ref.names).items()}
            if st['xf'] == 'part':
                v = {n: x for i, (n, x) in enumerate(v.items()) if i % 2} or v
            op['x'], op['xf'] = v, st['xf']
            if st['xf'] == 'array':
                for n in H.m.pf.index:
                    H.val.setdefault(n, float(H.m.pf.loc[n, 'value']))
                    H.hold.setdefault(n, int(H.m.pf.loc[n, 'holdfast']))
        got = S.do(world, op)
        H.seq.append(st['k'] + ('/part' if op['sl'] else ''))
        if st['k'] in FULL and not op['sl']:
            H.returned(got if st['k'] == 'll' else got.ll)
        if st['k'] in FULL + ('dll', 'prob', 'logsums', 'utility'):
            H.examine('after ' + st['k'])
    world.key(tuple(H.seq))

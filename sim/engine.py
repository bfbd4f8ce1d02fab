"""Calls on a model checked against the reference: shared by the engine properties."""
import copy
import numpy as np
import models as M


def gen_x(rng, s, spread=0.8):
    """New parameter values (holdfast parameters keep theirs)."""
    out = {}
    for n, q in sorted(s['params'].items()):
        if q['holdfast']:
            out[n] = q['value']
        elif n.startswith('mu_') or n == 'q_theta':
            out[n] = round(rng.uniform(0.35, 1.0), 4)
        else:
            w = min(spread, 3) if n.startswith('lq_') else spread
            out[n] = round(rng.uniform(-w, w), 4)
    return out


def gen_slice(rng, n, numba=False, cv=True):
    """Keyword arguments choosing part of the cases."""
    k = {}
    r = rng.random()
    if r < 0.35 or n < 2:
        return k
    if cv and r < 0.6:
        k['subsample'] = rng.randint(2, 5)
        k[rng.choice(['leave_out', 'keep_only'])] = rng.randrange(k['subsample'])
        if rng.random() < 0.4:
            k['start_case'] = rng.randrange(n)
        return k
    a = rng.randrange(n) if rng.random() < 0.7 else 0
    k['start_case'] = a
    if rng.random() < 0.7:
        k['stop_case'] = rng.randint(a, n)
    if rng.random() < 0.5:
        k['step_case'] = rng.randint(1, 4)
    return k


def ref_slice(k):
    m = {'start_case': 'start', 'stop_case': 'stop', 'step_case': 'step'}
    return {m.get(a, a): b for a, b in k.items()}


class Session:
    """A model with the parameter values the caller believes it has."""
    def __init__(self, m, spec, ref, numba=False, tag=''):
        self.m, self.s, self.ref, self.numba, self.tag = m, spec, ref, numba, tag
        self.cur = {n: q['value'] for n, q in spec['params'].items()}
        self.world = None

    def xvec(self):
        return np.array([self.cur[n] for n in self.ref.names])

    def setx(self, op):
        """argument for x, updating what we believe"""
        x = op.get('x')
        if x is None:
            return None
        x = {n: v for n, v in x.items() if n in self.s['params']}
        if op.get('xf') == 'array':
            self.cur.update(x)
            return np.array([self.cur[n] for n in self.m.pf.index])
        self.cur.update(x)
        return dict(x)

    def expect(self, world, what, got, want, op, rtol=2e-6, atol=2e-7):
        ok = M.close(got, want, rtol, atol)
        world.count('compared')
        if not ok:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            d = ''
            if g.shape == w.shape:
                bad = np.argwhere(~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
                d = 'first differences at %s' % bad[:4].tolist()
            world.check(False, what, '%s: %s after op %s\n larch    %s\n expected %s\n %s' % (
                self.tag, what, {k: v for k, v in op.items() if k != 'x'}, np.array2string(g, threshold=60), np.array2string(w, threshold=60), d))
        world.check(True, what)

    def order(self, vec):
        return M.reorder(self.ref, self.m, vec)

    # every operation: returns (kept result, how to recompute what it must equal)
    def do(self, world, op):
        m, ref, k = self.m, self.ref, op['k']
        sl = dict(op.get('sl') or {})
        if self.numba and k == 'prob':
            sl = {a: b for a, b in sl.items() if a in ('start_case', 'stop_case', 'step_case')}
        if op.get('nt') is not None and not self.numba:
            m.n_threads = op['nt']
        kw = {}
        xa = self.setx(op)
        if xa is not None:
            kw['x'] = xa
        rs = ref_slice(sl)
        world.note(k, sorted(sl.items()), op.get('nt'))
        world.count('calls:' + k)
        E = lambda name, got, want, **z: self.expect(world, '%s' % name, got, want, op, **z)
        rows = ref.rows(**rs)
        x = self.xvec()
        if k == 'll':
            got = m.loglike(**kw, **sl)
            E('loglike', got, ref.full(x, want=1, **rs)['ll'])
            return got
        if k == 'dll':
            got = m.d_loglike(**kw, **sl)
            E('d_loglike', got, self.order(ref.full(x, want=2, **rs)['dll']))
            return got
        if k in ('ll2', 'bhhh3'):
            persist = op.get('persist', 0)
            r = (m.loglike2 if k == 'll2' else m.loglike2_bhhh)(**kw, **sl, **({'persist': persist} if persist else {}))
            f = ref.full(x, **rs)
            E('loglike', r.ll, f['ll'])
            E('d_loglike', r.dll, self.order(f['dll']))
            if k == 'bhhh3':
                E('bhhh', r.bhhh, self.order(f['bhhh']))
            if persist and not self.numba:
                self.persisted(world, r, x, rs, rows, f, op)
            return r
        if k == 'bhhh':
            got = m.bhhh(**kw, **(sl if self.numba else {}))
            E('bhhh', got, self.order(ref.full(x, **(rs if self.numba else {}))['bhhh']))
            return got
        if k == 'prob':
            sl2 = {a: b for a, b in sl.items() if a.endswith('_case')}
            got = m.probability(**kw, **sl2)
            p = ref.probability(x)
            want = self.scatter(p, ref.rows(**ref_slice(sl2)), sl2)
            E('probability', self.only(np.asarray(got), ref.rows(**ref_slice(sl2)), sl2), want)
            return got
        if k == 'logsums':
            got = m.logsums(**kw)
            E('logsums', got, ref.logsums(x))
            return got
        if k == 'utility':
            # native utility() does not take part in setting x
            if kw:
                m.set_values(kw['x'])
            got = m.utility()
            u = ref.utility(x)
            g = np.asarray(got)[:, :u.shape[1]]
            E('utility', np.where(ref.d.av != 0, g, 0), np.where(ref.d.av != 0, u, 0))
            return got
        if k == 'quantity':
            got = m.quantity(**kw)
            p = ref.pdict(x)
            want = np.array([[float(np.real(ref.case(p, r)[4].get(a, 0))) for a in self.s['alts']] for r in range(self.s['n_cases'])])
            E('quantity', np.where(ref.d.av != 0, np.asarray(got)[:, :want.shape[1]], 0), np.where(ref.d.av != 0, want, 0))
            return got
        if k == 'casewise':
            if self.numba:
                got = m.loglike_casewise(**kw, **sl)
                f = ref.full(x, want=1, **rs)
                E('loglike of each case', got, [f['ll_casewise'][r] * ref.d.wt[r] for r in f['rows']])
                return got
            return self.do(world, dict(op, k='ll2', persist=0xffff))
        if k == 'dcasewise':
            if self.numba:
                got = m.d_loglike_casewise(**kw, **sl)
                f = ref.full(x, **rs)
                E('gradient of each case', got, np.array([self.order(f['dll_casewise'][r]) * ref.d.wt[r] for r in f['rows']]).reshape(len(f['rows']), len(ref.names)))
                return got
            return self.do(world, dict(op, k='bhhh3', persist=0xffff))
        if k == 'dprob':
            if self.numba:
                return None
            got = m.d_probability(**kw)
            want = self.dprob(x)
            g = np.asarray(got)[:, :len(self.s['alts']), :]
            E('derivative of probability', g, want)
            return got
        raise ValueError(k)

    def dprob(self, x):
        ref = self.ref
        out = np.zeros((self.s['n_cases'], len(self.s['alts']), len(ref.names)))
        for r in range(self.s['n_cases']):
            for j in range(len(ref.names)):
                if ref.holdfast[j]:
                    continue
                y = np.asarray(x, dtype=complex); y[j] += 1e-30j
                out[r, :, j] = np.exp(np.where(ref.d.av[r] != 0, ref.case(ref.pdict(y), r)[2], -np.inf)).imag / 1e-30
        ix = [ref.names.index(n) for n in self.m.pf.index]
        return out[:, :, ix]

    def dutil(self, x):
        """derivative of the utility of every available alternative"""
        ref = self.ref
        out = np.zeros((self.s['n_cases'], len(self.s['alts']), len(ref.names)))
        for j in range(len(ref.names)):
            if ref.holdfast[j]:
                continue
            y = np.asarray(x, dtype=complex); y[j] += 1e-30j
            pd = ref.pdict(y)
            for r in range(self.s['n_cases']):
                U = ref.case(pd, r)[0]
                out[r, :, j] = [np.imag(U[a]) / 1e-30 if ref.d.av[r, i] else 0 for i, a in enumerate(self.s['alts'])]
        ix = [ref.names.index(n) for n in self.m.pf.index]
        return out[:, :, ix]

    def scatter(self, p, rows, sl):
        return p[rows]

    def only(self, got, rows, sl):
        n = len(self.s['alts'])
        if got.shape[0] == len(rows):
            return got[:, :n]
        return got[rows, :n]

    def persisted(self, world, r, x, rs, rows, f, op):
        """pieces kept for every case belong to their case"""
        ref = self.ref
        E = lambda name, got, want, **z: self.expect(world, name, got, want, op, **z)
        N = self.s['n_cases']
        span = ref.rows(**{k: v for k, v in rs.items() if k in ('start', 'stop', 'step')})

        def sel(a):
            # kept arrays cover the slice; cases left out of a subsample keep their place in it
            a = np.asarray(a)
            if a.shape[0] == len(span):
                return a[[span.index(q) for q in rows]]
            return a[rows] if a.shape[0] == N else a
        av = ref.d.av[rows] != 0
        n = len(self.s['alts'])
        norm = float(self.m.dataframes.weight_normalization) if self.m.dataframes is not None else 1.0
        if 'probability' in r:
            E('probability', sel(np.asarray(r.probability))[:, :n], ref.probability(x)[rows])
        if 'utility' in r:
            u = ref.utility(x)[rows]
            E('utility', np.where(av, sel(np.asarray(r.utility))[:, :n], 0), np.where(av, u, 0))
        if 'exp_utility' in r and r.exp_utility is not None:
            u = ref.utility(x)[rows]
            E('exponential of utility', np.where(av, sel(np.asarray(r.exp_utility))[:, :n], 0), np.where(av, np.exp(u), 0))
        if 'dutility' in r and rows:
            du = sel(np.asarray(r.dutility))[:, :n, :]
            E('derivative of utility', np.where(av[:, :, None], du, 0), self.dutil(x)[rows])
        if 'quantity' in r and r.quantity is not None and self.s['q_ca']:
            q = sel(np.asarray(r.quantity))[:, :n]
            p = ref.pdict(x)
            want = np.array([[float(np.real(ref.case(p, i)[4].get(a, 0))) for a in self.s['alts']] for i in rows]).reshape(len(rows), n)
            E('quantity', np.where(av, q, 0), np.where(av, want, 0))
        if 'll_casewise' in r:
            got = sel(np.asarray(r.ll_casewise).reshape(-1))
            want = np.array([f['ll_casewise'][i] * ref.d.wt[i] for i in rows])
            E('loglike of each case', got * norm, want)
        if 'dll_casewise' in r:
            got = sel(np.asarray(r.dll_casewise))
            want = np.array([self.order(f['dll_casewise'][i]) * ref.d.wt[i] for i in rows]).reshape(len(rows), len(ref.names))
            E('gradient of each case', got, want)


KINDS_NATIVE = ['ll', 'dll', 'll2', 'bhhh3', 'bhhh', 'prob', 'logsums', 'utility', 'casewise', 'dcasewise', 'dprob']
KINDS_NUMBA = ['ll', 'dll', 'll2', 'bhhh3', 'bhhh', 'prob', 'logsums', 'utility', 'casewise', 'dcasewise']


def gen_ops(rng, s, n, kinds, numba=False, slices=True, threads=True):
    ops = []
    for _ in range(n):
        op = {'k': rng.choice(kinds)}
        if rng.random() < 0.7:
            op['x'] = gen_x(rng, s)
            op['xf'] = rng.choice(['dict', 'array'])
        if threads and rng.random() < 0.6:
            op['nt'] = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 17, 40, -1])
        if slices:
            sl = gen_slice(rng, s['n_cases'], numba)
            if sl:
                op['sl'] = sl
        if op['k'] in ('ll2', 'bhhh3') and rng.random() < 0.3:
            op['persist'] = 0xffff
        ops.append(op)
    return ops


def add_extremes(rng, s, ops, kinds):
    """Some evaluations at parameters whose exponentials are out of range of a float."""
    extreme = False
    for op in ops:
        if extreme and 'x' not in op:
            op['x'] = gen_x(rng, s)
        extreme = False
        if op['k'] in kinds and 'x' in op and rng.random() < 0.12:
            op['x'] = gen_x(rng, s, rng.choice([400, 900, 3000]))
            extreme = True


def simplify_common(case):
    """Smaller cases: fewer cases of data, simpler model, quieter schedule."""
    for s in M.shrink_spec(case['spec']):
        c = copy.deepcopy(case)
        c['spec'] = s
        yield c
    if case.get('sched', {}).get('on'):
        for ch in ({'on': 0}, dict(case['sched'], interval=0), dict(case['sched'], conflict_pct=0), dict(case['sched'], team_mode=1, team_arg=2),
                   dict(case['sched'], sched_mode=0, chunk=0)):
            if ch != case['sched']:
                c = copy.deepcopy(case); c['sched'] = ch
                yield c
    for i, op in enumerate(case.get('ops', ())):
        for drop in ('sl', 'nt', 'x', 'persist', 'xf'):
            if drop in op:
                c = copy.deepcopy(case); del c['ops'][i][drop]
                yield c

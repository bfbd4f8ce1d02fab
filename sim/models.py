"""Random model/data specifications, the larch objects built from them through the public
interface, and an independent reference model (plain numpy, complex-step derivatives)."""
import math
import numpy as np
import pandas as pd


def gen_spec(rng, **kw):
    """Draw a model and data specification (plain JSON)."""
    if kw.get('alts'):
        alts = list(kw['alts'])
        na = len(alts)
    else:
        na = kw.get('n_alts') or rng.choice([2, 2, 3, 3, 4, 5])
        base = rng.choice([1, 1, 10, 3])
        alts = sorted(rng.sample(range(base, base + 9), na))
    fmt = kw.get('fmt') or rng.choice(['ca', 'ca', 'ce'])
    s = {'dseed': rng.getrandbits(40), 'n_cases': kw.get('n_cases') or rng.choice([1, 2, 3, 5, 8, 13, 21, 34]),
         'alts': alts, 'fmt': fmt,
         'case_step': rng.choice([1, 1, 3]), 'case_base': rng.choice([0, 1, 100]), 'case_order': rng.choice(['up', 'up', 'up', 'down', 'mixed', 'each']),
         'alt_mixed': int(rng.random() < 0.3),
         'ca_vars': ['x%d' % i for i in range(1, 1 + rng.randint(1, 3))],
         'co_vars': ['z%d' % i for i in range(1, 1 + rng.randint(0, 2))]}
    params = {}

    def par(name, lo=-1.0, hi=1.0, null=0.0, hold=0.12, **k):
        if name not in params:
            params[name] = {'value': round(rng.uniform(lo, hi), 4), 'null': null, 'init': null, 'holdfast': int(rng.random() < hold),
                            'min': k.get('min'), 'max': k.get('max')}
        return name
    s['u_ca'] = []
    for v in s['ca_vars']:
        if rng.random() < 0.85:
            s['u_ca'].append([par('b_' + v), v, rng.choice([1, 1, 1, 0.5, -2.0])])
    if s['u_ca'] and rng.random() < 0.2:      # one parameter on two variables
        s['u_ca'].append([s['u_ca'][0][0], s['ca_vars'][-1], 0.25])
    s['u_co'] = {}
    for a in alts[1:] if rng.random() < 0.8 else alts:
        terms = []
        if s['co_vars'] or kw.get('asc', 1):
            if rng.random() < 0.7:
                terms.append([par('asc_%d' % a), '1', 1])
            for v in s['co_vars']:
                if rng.random() < 0.6:
                    terms.append([par('b_%s_%d' % (v, a)) if rng.random() < 0.7 else par('b_%s_g' % v), v, rng.choice([1, 1, 0.5])])
        if terms:
            s['u_co'][str(a)] = terms
    if not s['co_vars'] and fmt == 'ce':
        pass
    if not s['u_ca'] and not s['u_co']:
        s['u_ca'].append([par('b_x1'), 'x1', 1])
    s['q_ca'] = []
    s['q_scale'] = None
    if kw.get('quantity', True) and rng.random() < 0.3 and fmt == 'ca':
        for k in range(rng.randint(1, 2)):
            s['q_ca'].append([par('lq_%d' % (k if rng.random() < 0.8 else 0), hold=0.3 if k else 0.0), 'q%d' % k])
        if rng.random() < 0.6:
            s['q_scale'] = par('q_theta', 0.4, 1.0, 1.0, 0.1)
    s['nests'] = []
    if kw.get('nested', True) and na >= 3 and rng.random() < 0.55:
        pool = list(alts)
        code = 101
        while len(pool) >= 3 and len(s['nests']) < 3 and rng.random() < 0.75:
            k = rng.randint(2, len(pool) - 1)
            ch = sorted(rng.sample(pool, k))
            p = par('mu_%d' % code, 0.35, 1.0, 1.0, 0.1, min=0.001, max=1.0) if rng.random() < 0.8 or not s['nests'] else s['nests'][0]['param']
            s['nests'].append({'code': code, 'param': p, 'children': ch})
            shared = rng.choice(ch) if kw.get('cnl') and rng.random() < 0.35 else None     # may join a second nest (cross-nesting)
            pool = [c for c in pool if c not in ch or c == shared] + [code]
            code += 1
    s['wt'] = kw.get('wt') or rng.choice([None, None, 'real', 'int', 'zeros'])
    s['avail'] = rng.choice([1.0, 0.7, 0.5])
    s['chosen'] = rng.choice(['one', 'one', 'one', 'multi', 'some-none'])
    s['params'] = params
    s['no_co'] = int(not s['u_co'] and rng.random() < 0.5)
    return s


def shrink_spec(s):
    """Simpler specifications, most aggressive first."""
    import copy
    for n in sorted({1, 2, s['n_cases'] // 2, s['n_cases'] - 1}):
        if 0 < n < s['n_cases']:
            c = copy.deepcopy(s); c['n_cases'] = n
            yield c
    for k, v in (('case_order', 'up'), ('wt', None), ('avail', 1.0), ('chosen', 'one'), ('nests', []), ('q_ca', []), ('u_co', {})):
        if s.get(k, v) != v:
            c = copy.deepcopy(s); c[k] = v
            if k == 'q_ca':
                c['q_scale'] = None
            prune(c)
            if c['u_ca'] or c['u_co']:
                yield c
    for k in ('u_ca',):
        for i in range(len(s[k])):
            c = copy.deepcopy(s); del c[k][i]
            prune(c)
            if c['u_ca'] or c['u_co']:
                yield c


def prune(s):
    used = {t[0] for t in s['u_ca']} | {t[0] for ts in s['u_co'].values() for t in ts} | {t[0] for t in s['q_ca']}
    used |= {n['param'] for n in s['nests']}
    if s['q_scale']:
        used.add(s['q_scale'])
    s['params'] = {k: v for k, v in s['params'].items() if k in used}


class Data:
    """Arrays of a specification. Row r depends on (dseed, r) only, so fewer cases is a prefix."""
    def __init__(self, s):
        N, A = s['n_cases'], len(s['alts'])
        self.caseids = np.array([s['case_base'] + s['case_step'] * i for i in range(N)], dtype=np.int64)
        self.x = {v: np.zeros((N, A)) for v in ['x1', 'x2', 'x3', 'q0', 'q1']}
        self.z = {v: np.zeros(N) for v in ['z1', 'z2']}
        self.av = np.zeros((N, A), dtype=np.int8)
        self.ch = np.zeros((N, A))
        self.wt = np.ones(N)
        for r in range(N):
            g = np.random.Generator(np.random.PCG64([s['dseed'], r]))
            for v in ('x1', 'x2', 'x3'):
                self.x[v][r] = np.round(g.normal(size=A), 5)
            for v in ('q0', 'q1'):
                self.x[v][r] = np.round(g.uniform(0.2, 5, size=A), 5)
            for v in ('z1', 'z2'):
                self.z[v][r] = np.round(g.normal(), 5)
            av = (g.random(A) < s['avail']).astype(np.int8)
            pick = int(g.integers(A))
            av[pick] = 1
            self.av[r] = av
            u = g.random(A)
            if s['chosen'] == 'one' or (s['chosen'] == 'some-none' and (u[0] > 0.25 or r == 0)):
                self.ch[r, pick] = 1
            elif s['chosen'] == 'multi':
                w = np.round(u * av, 3)
                if w.sum() == 0:
                    w[pick] = 1
                self.ch[r] = w
            ww = g.random(2)
            if s['wt'] == 'real':
                self.wt[r] = round(0.1 + 3 * ww[0], 4)
            elif s['wt'] == 'int':
                self.wt[r] = 1 + int(ww[0] * 4)
            elif s['wt'] == 'zeros':
                self.wt[r] = 0 if ww[1] < 0.3 and r else round(0.1 + 2 * ww[0], 4)
        if s['fmt'] == 'ce' and N:
            # a tall table only knows the alternatives that appear in it
            self.av[0, :] = 1
        # in the tall layout an unavailable alternative has no row at all


class Ref:
    """Independent evaluation of the model. Works with complex parameters."""
    def __init__(self, s, data=None):
        self.s = s
        self.d = data or Data(s)
        self.names = sorted(s['params'])
        self.holdfast = np.array([s['params'][n]['holdfast'] for n in self.names], dtype=bool)
        self.order = None

    def x0(self):
        return np.array([self.s['params'][n]['value'] for n in self.names], dtype=float)

    def case(self, p, r):
        """(utility of every elemental, prob of every elemental, log prob, logsum, quantity) for one case."""
        s, d = self.s, self.d
        alts = s['alts']
        A = len(alts)
        U = {}
        Q = {}
        for i, a in enumerate(alts):
            u = 0
            for name, var, sc in s['u_ca']:
                u = u + p[name] * sc * d.x[var][r, i]
            for name, var, sc in s['u_co'].get(str(a), ()):
                u = u + p[name] * sc * (1.0 if var == '1' else d.z[var][r])
            if s['q_ca']:
                q = 0
                for name, var in s['q_ca']:
                    q = q + np.exp(p[name]) * d.x[var][r, i]
                Q[a] = q
                u = u + (p[s['q_scale']] if s['q_scale'] else 1.0) * np.log(q)
            U[a] = u
        parents = {}
        mu = {0: 1.0}
        kids = {0: []}
        for n in s['nests']:
            mu[n['code']] = p[n['param']]
            kids[n['code']] = list(n['children'])
            for c in n['children']:
                parents.setdefault(c, []).append(n['code'])
        for k in list(alts) + [n['code'] for n in s['nests']]:
            if k not in parents:
                parents[k] = [0]
                kids[0].append(k)
        lalpha = {k: -math.log(len(v)) for k, v in parents.items()}      # a node is split evenly among its parents
        avail = {a: bool(d.av[r, i]) for i, a in enumerate(alts)}
        V = {}

        def val(k):
            if k in V:
                return V[k]
            if k in U:
                V[k] = U[k] if avail[k] else None
                return V[k]
            vs = [(val(c), lalpha[c]) for c in kids[k]]
            vs = [v + l for v, l in vs if v is not None]
            if not vs:
                V[k] = None
                return None
            m = mu[k]
            if np.real(m) == 0:
                V[k] = max(vs, key=np.real)
                return V[k]
            mx = max(np.real(v) for v in vs)
            V[k] = m * np.log(sum(np.exp((v - mx) / m) for v in vs)) + mx
            return V[k]
        root = val(0)
        logp = np.full(A, -np.inf, dtype=complex)

        def lp(k):
            if k == 0:
                return 0
            ls = [lp(q) + (val(k) + lalpha[k] - val(q)) / mu[q] for q in parents[k]]
            if len(ls) == 1:
                return ls[0]
            mx = max(np.real(z) for z in ls)
            return mx + np.log(sum(np.exp(z - mx) for z in ls))
        for i, a in enumerate(alts):
            if avail[a]:
                logp[i] = lp(a)
        return U, V, logp, root, Q

    def pdict(self, x):
        return dict(zip(self.names, x))

    def rows(self, start=0, stop=-1, step=1, leave_out=-1, keep_only=-1, subsample=-1):
        N = self.s['n_cases']
        if stop is None or stop < 0:
            stop = N
        out = []
        for r in range(start, min(stop, N), step):
            if subsample > 1:
                if leave_out >= 0 and r % subsample == leave_out:
                    continue
                if keep_only >= 0 and r % subsample != keep_only:
                    continue
            out.append(r)
        return out

    def casewise(self, x):
        """log likelihood of each case, not weighted"""
        out = np.zeros(self.s['n_cases'])
        p = self.pdict(x)
        for r in range(len(out)):
            lp = self.case(p, r)[2].real
            ch = self.d.ch[r]
            out[r] = sum(c * l for c, l in zip(ch, lp) if c)
        return out

    def probability(self, x):
        p = self.pdict(x)
        return np.array([np.exp(self.case(p, r)[2].real) for r in range(self.s['n_cases'])])

    def logsums(self, x):
        p = self.pdict(x)
        return np.array([float(np.real(self.case(p, r)[3])) for r in range(self.s['n_cases'])])

    def utility(self, x):
        p = self.pdict(x)
        return np.array([[float(np.real(self.case(p, r)[0][a])) for a in self.s['alts']] for r in range(self.s['n_cases'])])

    def full(self, x, want=3, **sl):
        """dict of ll, dll, bhhh and casewise pieces over a slice of the cases"""
        rows = self.rows(**sl)
        K = len(self.names)
        x = np.asarray(x, dtype=complex)
        ll = 0.0
        dll = np.zeros(K)
        bh = np.zeros((K, K))
        llc = {}
        dllc = {}
        w = self.d.wt
        for r in rows:
            base = self.case(self.pdict(x), r)[2]
            ch = self.d.ch[r]
            act = [i for i in range(len(ch)) if ch[i]]
            l = sum(ch[i] * base[i].real for i in act)
            ll += w[r] * l if w[r] else 0.0
            llc[r] = l
            if want > 1:
                G = np.zeros((K, len(ch)))
                for k in range(K):
                    if self.holdfast[k]:
                        continue
                    y = x.copy(); y[k] += 1e-30j
                    lp = self.case(self.pdict(y), r)[2]
                    for i in act:
                        G[k, i] = lp[i].imag / 1e-30
                g = sum((ch[i] * G[:, i] for i in act), np.zeros(K))
                dllc[r] = g
                dll += w[r] * g
                for i in act:
                    bh += w[r] * ch[i] * np.outer(G[:, i], G[:, i])
        return dict(ll=ll, dll=dll, bhhh=bh, rows=rows, ll_casewise=llc, dll_casewise=dllc)


# ------------------------------------------------------------------ larch --
def frames(s, d):
    """The pandas tables a user would hand to larch."""
    N, A = s['n_cases'], len(s['alts'])
    idx = pd.MultiIndex.from_product([d.caseids, s['alts']], names=['caseid', 'altid'])
    xv = [v for v in ['x1', 'x2', 'x3', 'q0', 'q1']]
    tall = pd.DataFrame({v: d.x[v].reshape(-1).copy() for v in xv}, index=idx)
    co = pd.DataFrame({v: d.z[v] for v in ('z1', 'z2')}, index=pd.Index(d.caseids, name='caseid'))
    ch = pd.DataFrame(d.ch.copy(), index=pd.Index(d.caseids, name='caseid'), columns=s['alts'])
    av = pd.DataFrame(d.av.copy(), index=pd.Index(d.caseids, name='caseid'), columns=s['alts'])
    wt = pd.DataFrame({"wt": d.wt.copy()}, index=pd.Index(d.caseids, name='caseid')) if s['wt'] else None
    # rows in the order the user happens to have them
    how = s.get('case_order', 'up')

    def shuffled(df, k, per_alt=False):
        if df is None or how == 'up':
            return df
        g = np.random.Generator(np.random.PCG64([s['dseed'], 77 if how != 'each' else 78 + k]))
        order = np.arange(N)[::-1] if how == 'down' else g.permutation(N)
        if per_alt:
            inner = g.permutation(A) if s.get('alt_mixed') else np.arange(A)
            order = (order[:, None] * A + inner[None, :]).reshape(-1)
        return df.iloc[order]
    return shuffled(tall, 0, True), shuffled(co, 1), shuffled(ch, 2), shuffled(av, 3), shuffled(wt, 4)


def present(d, s, tall):
    """which rows of the tall table are of an available alternative"""
    row = {int(c): r for r, c in enumerate(d.caseids)}
    col = {a: i for i, a in enumerate(s['alts'])}
    return np.array([bool(d.av[row[int(c)], col[int(a)]]) for c, a in tall.index])


def make_dataframes(s, d=None, autoscale=False, ch=True):
    import larch
    d = d or Data(s)
    tall, co, chf, av, wt = frames(s, d)
    kw = {}
    if s['fmt'] == 'ce':
        kw['ce'] = tall[present(d, s, tall)]
    else:
        kw['ca'] = tall
        kw['av'] = av
    if not s.get('no_co'):
        kw['co'] = co
    if ch:
        kw['ch'] = chf
    if wt is not None:
        kw['wt'] = wt
    dfs = larch.DataFrames(alt_codes=s['alts'], alt_names=['a%d' % a for a in s['alts']], **kw)
    if s['fmt'] == 'ce':
        dfs.data_av = av
    if autoscale:
        dfs.autoscale_weights()
    return dfs


def apply_spec(m, s):
    """Write the specification into a larch model through its public attributes."""
    from larch import P, X
    u = None
    for name, var, sc in s['u_ca']:
        t = P(name) * X(var) * sc if sc != 1 else P(name) * X(var)
        u = t if u is None else u + t
    if u is not None:
        m.utility_ca = u
    for a, terms in s['u_co'].items():
        u = None
        for name, var, sc in terms:
            t = P(name) if var == '1' else P(name) * X(var)
            if sc != 1:
                t = t * sc
            u = t if u is None else u + t
        m.utility_co[int(a)] = u
    q = None
    for name, var in s['q_ca']:
        t = P(name) * X(var)
        q = t if q is None else q + t
    if q is not None:
        m.quantity_ca = q
        if s['q_scale']:
            m.quantity_scale = P(s['q_scale'])
    if s['nests']:
        m.initialize_graph(alternative_codes=s['alts'], alternative_names=['a%d' % a for a in s['alts']])
        for n in s['nests']:
            kids = []
            for c in n['children']:
                kids.append(n2code[c] if c > 100 and False else c)
            m.graph.add_node(n['code'], children=kids, parameter=n['param'], name='nest%d' % n['code'])


def set_params(m, s, values=None):
    for name, q in s['params'].items():
        kw = {'value': q['value'] if values is None else values[name], 'nullvalue': q['null'], 'initvalue': q['init'],
              'holdfast': q['holdfast']}
        if q.get('min') is not None:
            kw['minimum'] = q['min']
        if q.get('max') is not None:
            kw['maximum'] = q['max']
        m.set_value(name, **kw)


def make_model(s, cls=None, dfs=None, d=None, autoscale=False):
    import larch
    cls = cls or larch.Model
    m = cls()
    apply_spec(m, s)
    dfs = dfs if dfs is not None else make_dataframes(s, d, autoscale=autoscale)
    m.dataframes = dfs
    set_params(m, s)
    return m


def reorder(ref, m, vec):
    """Reference vector/matrix in the order of the model's parameters."""
    where = {n: i for i, n in enumerate(ref.names)}
    ix = [where.get(n, len(ref.names)) for n in m.pf.index]      # parameters the model no longer uses have zeros
    vec = np.asarray(vec)
    if vec.ndim == 1:
        return np.append(vec, 0.0)[ix]
    return np.pad(vec, ((0, 1), (0, 1)))[np.ix_(ix, ix)]


def close(a, b, rtol=1e-6, atol=1e-7):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return False
    if not ((a == b) | fa | (np.isnan(a) & np.isnan(b))).all():
        return False
    m = fa & fb
    return bool((np.abs(a[m] - b[m]) <= atol + rtol * np.abs(b[m])).all())

"""Any history of edits and evaluations evaluates like a freshly built model (compiled and numba engines)."""
import copy, random, warnings
import numpy as np
import models as M, omp, engine

ID = 'C06'
LEVEL = 'exploration'
BUDGET = {'quick': (1800, 60), 'thorough': (60000, 1500)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.DataFrames', 'parameter frame, linear functions, nesting tree']
STUB = ['OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool']
ASSUMPTIONS = ['edits go through the documented attributes and methods of the model; the parameter frame is not written behind the model\'s back']
KEY_MEASURE = 'distinct sequences of (kind of edit or evaluation) of a run'
SHRINK_LISTS = (('steps',),)


def warm():
    import props.c04 as c04
    c04.warm()


UTIL = ['b_x1', 'b_x2', 'b_x3', 'b_new', 'g_1', 'g_2', 'zz']


def gen_term_ca(rng):
    return [rng.choice(UTIL), rng.choice(['x1', 'x2', 'x3']), rng.choice([1, 1, 0.5, -2.0])]


def gen_term_co(rng):
    return [rng.choice(UTIL + ['asc_a', 'asc_b']), rng.choice(['1', 'z1', 'z2']), rng.choice([1, 1, 0.5])]


def gen_edit(rng, s):
    alts = s['alts']
    k = rng.choice(['ca', 'ca+', 'ca+', 'ca-', 'ca=', 'caparam-', 'cadata-', 'co', 'co', 'co+', 'co+', 'co-', 'codel', 'coall', 'q', 'q-', 'qscale', 'nest', 'nest', 'unnest', 'mu',
                    'data', 'data', 'value', 'values', 'values', 'hold', 'hold', 'lock', 'null', 'init', 'batch', 'unused', 'nt', 'insert', 'edge-', 'setframe',
                    'badterm', 'badx', 'baddata', 'badbatch'])
    e = {'e': k}
    if k in ('ca', 'coall'):
        e['t'] = [gen_term_ca(rng) for _ in range(rng.randint(1, 3))]
        if k == 'coall':
            e['t'] = {str(a): [gen_term_co(rng) for _ in range(rng.randint(1, 2))] for a in alts if rng.random() < 0.6}
    elif k in ('ca+', 'ca=', 'insert'):
        e['t'] = gen_term_ca(rng)
        e['how'] = rng.choice(['iadd', 'add', 'append', 'extend'])
        e['i'] = rng.randrange(4)
    elif k == 'ca-':
        e['i'] = rng.randrange(4)
    elif k == 'caparam-':
        e['n'] = rng.choice(UTIL)
    elif k == 'cadata-':
        e['n'] = rng.choice(['x1', 'x2', 'x3'])
    elif k == 'co':
        e['a'] = rng.choice(alts)
        e['t'] = [gen_term_co(rng) for _ in range(rng.randint(1, 2))]
    elif k == 'co+':
        e['a'] = rng.choice(alts)
        e['t'] = gen_term_co(rng)
        e['how'] = rng.choice(['iadd', 'add', 'append'])
    elif k in ('co-', 'codel'):
        e['a'] = rng.choice(alts)
        e['i'] = rng.randrange(3)
    elif k == 'q':
        e['t'] = [['lq_%d' % j, 'q%d' % j] for j in range(rng.randint(1, 2))]
    elif k == 'qscale':
        e['n'] = rng.choice(['q_theta', None])
    elif k == 'nest':
        e['r'] = [rng.random() for _ in range(8)]
        e['p'] = rng.choice(['mu_a', 'mu_b', 'mu_c'])
        e['how'] = rng.choice(['add', 'add', 'new'])
    elif k in ('unnest', 'mu', 'renest', 'edge-'):
        e['i'] = rng.randrange(4)
        e['p'] = rng.choice(['mu_a', 'mu_b', 'mu_c'])
    elif k == 'data':
        e['d'] = {'dseed': rng.getrandbits(40), 'n_cases': rng.choice([1, 2, 5, 8, 13]), 'avail': rng.choice([1.0, 0.6]),
                  'chosen': rng.choice(['one', 'multi']), 'wt': rng.choice([None, 'real']), 'case_order': rng.choice(['up', 'mixed']),
                  'fmt': rng.choice(['ca', 'ca', 'ce'])}
    elif k in ('value', 'hold', 'lock'):
        e['i'] = rng.randrange(20)
        e['v'] = round(rng.uniform(0.3, 0.95), 3)
        e['h'] = rng.randrange(2)
    elif k in ('values', 'batch', 'setframe', 'badbatch'):
        e['xs'] = rng.getrandbits(32)
        e['part'] = rng.choice([1.0, 0.5])
    elif k in ('badterm', 'badx', 'baddata'):
        e['k'] = rng.choice(['ll', 'll2', 'bhhh3'])
        e['a'] = rng.choice(alts)
        e['w'] = rng.choice(['ca', 'co'])
    elif k == 'nt':
        e['n'] = rng.choice([1, 2, 3, 5, 8, -1])
    return e


def generate(rng, i, tier):
    numba = int(rng.random() < 0.4)
    s = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8, 13]), **({'n_alts': rng.choice([3, 4, 5])} if rng.random() < 0.6 else {}))
    s['no_co'] = 0
    steps = []
    kinds = ['ll', 'dll', 'll2', 'bhhh3', 'prob', 'logsums', 'utility'] if not numba else ['ll', 'dll', 'll2', 'bhhh3', 'prob', 'logsums', 'utility']
    for _ in range(rng.randint(3, 9)):
        if rng.random() < 0.55:
            steps.append(gen_edit(rng, s))
        else:
            steps.append(gen_eval(rng, kinds))
    steps.append(gen_eval(rng, ['ll2', 'bhhh3', 'dll', 'll']))
    return {'spec': s, 'numba': numba, 'start': int(rng.random() < 0.8), 'sched': omp.gen_sched(rng), 'steps': steps}


def gen_eval(rng, kinds):
    op = {'k': rng.choice(kinds)}
    if rng.random() < 0.5:
        op['xs'] = rng.getrandbits(32)
        op['xf'] = rng.choice(['dict', 'array', 'part'])
    return op


class History:
    def __init__(self, case, world):
        import larch
        self.world = world
        self.numba = bool(case['numba'])
        self.s = copy.deepcopy(case['spec'])
        if self.numba:
            import larch.numba as ln
            cls = ln.Model
        else:
            cls = larch.Model
        self.m = M.make_model(self.s, cls=cls)
        self.val = {n: q['value'] for n, q in self.s['params'].items()}
        self.hold = {n: q['holdfast'] for n, q in self.s['params'].items()}
        self.init = {}
        self.seen = set(self.used())

    def used(self):
        s = self.s
        u = {t[0] for t in s['u_ca']} | {t[0] for ts in s['u_co'].values() for t in ts} | {t[0] for t in s['q_ca']}
        u |= {n['param'] for n in s['nests']}
        if s['q_scale'] and s['q_ca']:
            u.add(s['q_scale'])
        for n in u:
            if n not in self.val:
                self.val[n] = 1.0 if n.startswith('mu_') or n == 'q_theta' else 0.0
                self.hold[n] = 0
        return sorted(u)

    def values(self, seed, names):
        r = random.Random(seed)
        out = {}
        for n in names:
            v = round(r.uniform(0.35, 1.0), 4) if n.startswith('mu_') or n == 'q_theta' else round(r.uniform(-0.8, 0.8), 4)
            out[n] = v
        return out

    def put(self, vals):
        for n, v in vals.items():
            if not self.hold[n]:
                self.val[n] = v

    def ref(self):
        s = copy.deepcopy(self.s)
        s['params'] = {n: {'value': self.val[n], 'holdfast': self.hold[n], 'null': 0, 'init': 0} for n in self.used()}
        return M.Ref(s)

    # ------------------------------------------------------------- edits
    def edit(self, e):
        from larch import P, X
        m, s, k = self.m, self.s, e['e']
        nice = lambda t: (P(t[0]) if t[1] == '1' else P(t[0]) * X(t[1])) * t[2] if t[2] != 1 else (P(t[0]) if t[1] == '1' else P(t[0]) * X(t[1]))

        def lin(ts):
            u = None
            for t in ts:
                u = nice(t) if u is None else u + nice(t)
            return u
        comp = lambda t: nice(t) if t[1] != '1' else P(t[0]) * X('1') * t[2]
        if k == 'ca':
            m.utility_ca = lin(e['t']); s['u_ca'] = e['t']
        elif k == 'ca+':
            t = e['t']
            if e['how'] == 'iadd':
                m.utility_ca += nice(t)
            elif e['how'] == 'add':
                m.utility_ca = m.utility_ca + nice(t)
            elif e['how'] == 'append':
                m.utility_ca.append(nice(t))
            else:
                m.utility_ca.extend([nice(t)])
            s['u_ca'] = s['u_ca'] + [t]
        elif k == 'insert':
            m.utility_ca.insert(0, nice(e['t'])); s['u_ca'] = [e['t']] + s['u_ca']
        elif k == 'ca=':
            if not s['u_ca']:
                return False
            i = e['i'] % len(s['u_ca'])
            m.utility_ca[i] = nice(e['t']); s['u_ca'] = s['u_ca'][:i] + [e['t']] + s['u_ca'][i + 1:]
        elif k == 'ca-':
            if len(s['u_ca']) < 2:
                return False
            i = e['i'] % len(s['u_ca'])
            del m.utility_ca[i]; s['u_ca'] = s['u_ca'][:i] + s['u_ca'][i + 1:]
        elif k == 'caparam-':
            if not any(t[0] != e['n'] for t in s['u_ca']):
                return False
            m.utility_ca.remove_param(e['n']); s['u_ca'] = [t for t in s['u_ca'] if t[0] != e['n']]
        elif k == 'cadata-':
            if not any(t[1] != e['n'] for t in s['u_ca']):
                return False
            m.utility_ca.remove_data(e['n']); s['u_ca'] = [t for t in s['u_ca'] if t[1] != e['n']]
        elif k == 'co':
            m.utility_co[e['a']] = lin(e['t']); s['u_co'] = dict(s['u_co'], **{str(e['a']): e['t']})
        elif k == 'co+':
            a, t = e['a'], e['t']
            if e['how'] == 'iadd':
                m.utility_co[a] += nice(t)
            elif e['how'] == 'add':
                m.utility_co[a] = m.utility_co[a] + nice(t)
            else:
                m.utility_co[a].append(comp(t))
            s['u_co'] = dict(s['u_co'], **{str(a): s['u_co'].get(str(a), []) + [t]})
        elif k == 'co-':
            ts = s['u_co'].get(str(e['a']), [])
            if not ts:
                return False
            i = e['i'] % len(ts)
            del m.utility_co[e['a']][i]
            s['u_co'] = dict(s['u_co'], **{str(e['a']): ts[:i] + ts[i + 1:]})
        elif k == 'codel':
            if str(e['a']) not in s['u_co'] or not (s['u_ca'] or len(s['u_co']) > 1):
                return False
            del m.utility_co[e['a']]; s['u_co'] = {a: t for a, t in s['u_co'].items() if a != str(e['a'])}
        elif k == 'coall':
            if not (e['t'] or s['u_ca']):
                return False
            # a bare parameter is not a linear function: only functions of two terms or more
            t2 = {a: t for a, t in e['t'].items() if len(t) > 1}
            if not t2 and not s['u_ca']:
                return False
            m.utility_co = {int(a): lin(t) for a, t in t2.items()}
            s['u_co'] = t2
        elif k == 'q':
            if s['fmt'] != 'ca':
                return False
            m.quantity_ca = lin([[t[0], t[1], 1] for t in e['t']]); s['q_ca'] = e['t']
        elif k == 'q-':
            if not s['q_ca']:
                return False
            m.quantity_ca = None; s['q_ca'] = []
        elif k == 'qscale':
            if not s['q_ca']:
                return False
            m.quantity_scale = P(e['n']) if e['n'] else None; s['q_scale'] = e['n']
        elif k == 'nest':
            tops = self.tops()
            kids = [c for c, r in zip(tops, e['r']) if r < 0.5]
            if len(kids) < 2 or len(kids) == len(tops) or len(s['nests']) > 3:
                return False
            if e['how'] == 'add':
                code = max([100] + [n['code'] for n in s['nests']]) + 1
                m.graph.add_node(code, children=kids, parameter=e['p'], name='nest%d' % code)
            else:
                code = int(m.graph.new_node(children=kids, parameter=e['p'], name='nestnew'))
                if code in s['alts'] or code in [n['code'] for n in s['nests']]:
                    self.world.check(False, 'code of a new nest is already in use', str(code))
            s['nests'] = s['nests'] + [{'code': code, 'param': e['p'], 'children': kids}]
        elif k == 'unnest':
            if not s['nests']:
                return False
            n = s['nests'][e['i'] % len(s['nests'])]
            m.graph.remove_node(n['code'])
            s['nests'] = [dict(x, children=[c for c in x['children'] if c != n['code']] + (n['children'] if n['code'] in x['children'] else []))
                          for x in s['nests'] if x['code'] != n['code']]
        elif k == 'edge-':
            if not s['nests']:
                return False
            n = s['nests'][e['i'] % len(s['nests'])]
            if len(n['children']) < 2:
                return False
            c = n['children'][e['i'] % len(n['children'])]
            m.graph.remove_edge(n['code'], c)
            s['nests'] = [dict(x, children=[y for y in x['children'] if y != c]) if x['code'] == n['code'] else x for x in s['nests']]
        elif k in ('mu', 'renest'):
            if not s['nests']:
                return False
            n = s['nests'][e['i'] % len(s['nests'])]
            if k == 'mu':
                m.graph.add_node(n['code'], parameter=e['p'])
            else:
                m.graph.nodes[n['code']]['parameter'] = e['p']
            s['nests'] = [dict(x, param=e['p']) if x['code'] == n['code'] else x for x in s['nests']]
        elif k == 'data':
            s2 = dict(s, **e['d'])
            if s['q_ca']:
                s2['fmt'] = s['fmt']
            m.dataframes = M.make_dataframes(s2)
            self.s = s2
        elif k in ('value', 'hold', 'lock'):
            u = self.used()
            if not u:
                return False
            n = u[e['i'] % len(u)]
            if k == 'value':
                m.set_value(n, e['v']); self.val[n] = e['v']
            elif k == 'hold':
                m.set_value(n, holdfast=e['h']); self.hold[n] = e['h']
            else:
                m.lock_value(n, e['v']); self.val[n] = e['v']; self.hold[n] = 1
        elif k == 'values':
            u = [n for n in self.used()]
            v = self.values(e['xs'], u)
            if e['part'] < 1:
                v = {n: x for i, (n, x) in enumerate(v.items()) if i % 2}
            m.set_values(v); self.put(v)
        elif k == 'batch':
            v = self.values(e['xs'], self.used())
            with m.batch_update():
                for n, x in v.items():
                    m.set_value(n, x)
            self.val.update(v)
        elif k == 'badbatch':
            v = self.values(e['xs'], self.used())
            done = {}
            try:
                with m.batch_update():
                    for n, x in v.items():
                        m.set_value(n, x)
                        done[n] = x
                        if len(done) * 2 > len(v):
                            raise InterruptedError('in the middle of a batch')
            except InterruptedError:
                self.world.fault('exception inside a batch of updates')
            self.val.update(done)
        elif k == 'setframe':
            f = m.pf.copy()
            v = self.values(e['xs'], self.used())
            for n, x in v.items():
                f.loc[n, 'value'] = x
            m.set_frame(f)
            self.val.update(v)
        elif k in ('null', 'init'):
            col = 'nullvalue' if k == 'null' else 'initvalue'
            v = dict(m.pf[col])
            m.set_values(k)
            for n, x in v.items():
                if n in self.hold and not self.hold[n]:
                    self.val[n] = float(x)
        elif k == 'unused':
            m.remove_unused_parameters(verbose=False)
            u = self.used()
            for n in list(self.val):
                if n not in u:
                    del self.val[n], self.hold[n]
        elif k in ('badterm', 'badx', 'baddata'):
            return self.fault(e)
        elif k == 'nt':
            if not self.numba:
                m.n_threads = e['n']
        else:
            raise ValueError(k)
        return True

    def fault(self, e):
        """an evaluation that must fail, repaired afterwards"""
        from larch import P, X
        m, s, k = self.m, self.s, e['e']
        call = {'ll': 'loglike', 'll2': 'loglike2', 'bhhh3': 'loglike2_bhhh'}[e['k']]
        if k == 'badterm':
            if e['w'] == 'ca' and not s['u_ca']:
                return False
            f = m.utility_ca if e['w'] == 'ca' else m.utility_co[e['a']]
            n0 = len(f)
            f.append(P('b_bad') * X('no_such_column'))
            self.expect_failure(call, 'a term with a missing column')
            if e['w'] == 'ca':
                del m.utility_ca[n0]
            elif n0:
                del m.utility_co[e['a']][n0]
            else:
                del m.utility_co[e['a']]
        elif k == 'badx':
            self.expect_failure(call, 'too many values', np.zeros(len(m.pf) + 3) + 0.25)
            u = self.used()
            if u:
                # the values are not part of the claim after a failed call
                m.set_values(dict(self.val_of(u)))
        elif k == 'baddata':
            s2 = dict(s, n_cases=3, dseed=s['dseed'] + 1)
            good = M.make_dataframes(s)
            d = M.make_dataframes(s2)
            import larch
            cols = [c for c in ('x1', 'x2', 'x3') if any(t[1] == c for t in s['u_ca'])]
            if not cols or s['fmt'] != 'ca' or d.data_ca is None:
                return False
            kw = dict(ca=d.data_ca.drop(columns=cols), co=d.data_co, av=d.data_av, ch=d.data_ch, alt_codes=list(s['alts']))
            try:
                m.dataframes = larch.DataFrames(**kw)
            except Exception:
                pass
            else:
                self.expect_failure(call, 'data without columns in use')
            m.dataframes = good
        self.world.fault(k)
        return True

    def val_of(self, u):
        return {n: self.val[n] for n in u if not self.hold[n]}

    def expect_failure(self, call, what, *a):
        try:
            got = getattr(self.m, call)(*a)
        except Exception:
            return
        self.world.check(False, 'failure not reported', '%s with %s returned %r' % (call, what, got))

    def tops(self):
        kids = {c for n in self.s['nests'] for c in n['children']}
        return [c for c in list(self.s['alts']) + [n['code'] for n in self.s['nests']] if c not in kids]


def run(case, world):
    warnings.simplefilter('ignore')
    omp.start(case['sched'])
    H = History(case, world)
    seq = []
    if case.get('start'):
        H.m.loglike2()
    for st in case['steps']:
        if 'e' in st:
            ok = H.edit(st)
            if ok:
                world.count('edits:' + st['e'])
                seq.append(st['e'])
            continue
        ref = H.ref()
        if not ref.names:
            continue
        S = engine.Session(H.m, ref.s, ref, numba=H.numba, tag='after edits %s (%s engine)' % (seq, 'numba' if H.numba else 'compiled'))
        S.cur = H.val
        op = {'k': st['k']}
        if 'xs' in st:
            v = H.values(st['xs'], ref.names)
            v = {n: (H.val[n] if H.hold[n] else x) for n, x in v.items()}
            if st['xf'] == 'part':
                v = {n: x for i, (n, x) in enumerate(v.items()) if i % 2} or v
            op['x'] = v
            op['xf'] = st['xf']
            if st['xf'] == 'array':
                for n in H.m.pf.index:
                    H.val.setdefault(n, float(H.m.pf.loc[n, 'value']))
                    H.hold.setdefault(n, int(H.m.pf.loc[n, 'holdfast']))
        S.do(world, op)
        seq.append('eval')
        pv = dict(H.m.pf['value'])
        for n in ref.names:
            world.check(abs(pv[n] - H.val[n]) < 1e-12, 'value of a parameter', lambda: '%s: %s is %r, expected %r' % (S.tag, n, pv[n], H.val[n]))
    world.key(tuple(seq))


def finish(case, world):
    from props.c01 import finish as f
    f(case, world)


def simplify(case):
    for s in M.shrink_spec(case['spec']):
        c = copy.deepcopy(case)
        c['spec'] = s
        yield c
    if case['sched'].get('on'):
        c = copy.deepcopy(case); c['sched'] = {'on': 0}
        yield c
    if case['numba']:
        c = copy.deepcopy(case); c['numba'] = 0
        yield c

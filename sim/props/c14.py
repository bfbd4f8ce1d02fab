"""A trained classifier kept in a cache file is used only as a complete one, and its predictions are those of the rows they are attached to."""
import copy, os, warnings
import numpy as np, pandas as pd
import models as M, fs

ID = 'C14'
LEVEL = 'exploration'
BUDGET = {'quick': (250, 30), 'thorough': (20000, 900)}
REAL = ['larch.prelearning.Prelearner', 'larch.DataFrames (tables of rows for training, sampling, attaching)', 'scikit-learn, joblib', 'the filesystem of the sandbox (scratch directory)']
STUB = ['system calls on files of the scratch directory: libsimfs (errors, short transfers, death of the process)']
ASSUMPTIONS = ['a crash ends the process; what it has written so far is kept (no loss of power)', 'classifiers with a deterministic training (naive Bayes, trees with a fixed seed)']
KEY_MEASURE = 'distinct sequences of (start or application, fault, outcome) of a run'
SHRINK_LISTS = (('steps',),)


def warm():
    import larch, larch.prelearning, sklearn.naive_bayes, sklearn.tree  # noqa


def generate(rng, i, tier):
    case = {'spec': M.gen_spec(rng, n_cases=rng.choice([3, 5, 8, 21])), 'seeds': [rng.getrandbits(40) for _ in range(3)],
            'clf': rng.choice(['nb', 'nb', 'tree']), 'co': int(rng.random() < 0.6), 'wt': int(rng.random() < 0.5), 'expr': int(rng.random() < 0.3)}
    steps = []
    for _ in range(rng.randint(1, 5)):
        if not steps or rng.random() < 0.6:
            steps.append({'op': 'start', 'data': rng.randrange(3), 'cache': int(rng.random() < 0.8),
                          'plan': fs.gen_plan(rng, none=0.45, kinds=rng.choice([('write', 'open', 'meta'), ('write',), ('read', 'open')]))})
        else:
            steps.append({'op': 'apply', 'data': rng.randrange(3), 'how': rng.choice(['frames', 'table', 'model'])})
    case['steps'] = steps
    return case


def run(case, world):
    import larch
    from larch.prelearning import Prelearner
    from sklearn.naive_bayes import GaussianNB
    from sklearn.tree import DecisionTreeClassifier
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    root = os.path.join(world.scratch, 'cache')
    os.mkdir(root)
    cache = os.path.join(root, 'clf.pkl')
    base = copy.deepcopy(case['spec'])
    base['chosen'] = 'one'
    base['no_co'] = int(base.get('no_co') and not case['co'])
    base['wt'] = 'real' if case['wt'] else None
    ca = list(base['ca_vars'])
    co = ['z1', 'z2'] if case['co'] else []
    ask = ca + (['%s*2+1' % ca[0]] if case['expr'] else [])
    kind = GaussianNB if case['clf'] == 'nb' else DecisionTreeClassifier
    kw = {} if case['clf'] == 'nb' else {'random_state': 3, 'max_depth': 3}

    def spec(k):
        return dict(copy.deepcopy(base), dseed=case['seeds'][k])

    def features(d, s, index):
        row = {int(c): r for r, c in enumerate(d.caseids)}
        col = {a: i for i, a in enumerate(s['alts'])}
        out = []
        for c, a in index:
            r, i = row[int(c)], col[int(a)]
            x = [d.x[v][r, i] for v in ca]
            if case['expr']:
                x.append(x[0] * 2 + 1)
            out.append(x + [d.z[v][r] for v in co])
        return np.array(out, dtype=float)

    def train_reference(k):
        """the classifier trained without larch, from the data themselves"""
        s = spec(k)
        d = M.Data(s)
        # a table of cases by alternatives whose rows are out of order is kept as one of rows, all of which count
        every = s['fmt'] == 'ca' and M.make_dataframes(s).data_ce is not None
        index = [(c, a) for r, c in enumerate(d.caseids) for i, a in enumerate(s['alts']) if d.av[r, i] or every]
        row = {int(c): r for r, c in enumerate(d.caseids)}
        col = {a: i for i, a in enumerate(s['alts'])}
        y = np.array([d.ch[row[int(c)], col[a]] for c, a in index])
        w = np.array([d.wt[row[int(c)]] for c, a in index])
        clf = kind(**kw)
        clf.fit(features(d, s, index), y, **({'sample_weight': w} if base['wt'] else {}))
        return clf

    def start(k, use_cache):
        p = Prelearner(M.make_dataframes(spec(k)), ca_columns=list(ask), co_columns=list(co) or None, classifier=kind,
                       cache_file=cache if use_cache else None, **kw)
        return p

    def logp(clf, x):
        pr = clf.predict_proba(x)
        return np.log(pr[:, 1]) if pr.shape[1] > 1 else None

    probe = np.array([[((i * 7 + j * 3) % 11) / 3 - 1.5 for j in range(len(ask) + len(co))] for i in range(12)])

    def tell(p):
        x = pd.DataFrame(probe, columns=list(ask) + list(co))
        return logp(p.clf, x)

    def same(a, b):
        return (a is None and b is None) or (a is not None and b is not None and np.allclose(a, b, rtol=1e-3, atol=1e-3, equal_nan=True))
    kept = None            # which data the complete cache was trained on
    alive = None           # the prelearner at hand: (object, k)
    seq = []
    refs = {}
    for k in range(3):
        refs[k] = train_reference(k)
    for st in case['steps']:
        k = st['data']
        if st['op'] == 'start':
            def fn():
                return tell(start(k, st['cache']))
            mask = st['plan'].get('on', ['write'])
            r = fs.faulty(world, root, st['plan'], fn, what='start')
            tag = 'start %s with data %d, %s, after %s' % ('with cache' if st['cache'] else 'alone', k, st['plan'], seq)
            world.check(r.status in ('done', 'raised', 'crashed'), 'training ended the process', lambda: '%s %s' % (tag, r.error))
            world.check(st['plan']['a'] != 'none' or r.status == 'done', 'the next start fails', lambda: '%s: %s' % (tag, r.error))
            src = kept if st['cache'] and kept is not None else k
            if r.status == 'done':
                world.check(same(r.value, logp(refs[src], probe)), 'predictions of another classifier', lambda: '%s: %s instead of %s' % (tag, r.value, logp(refs[src], probe)))
                if st['cache']:
                    kept = src
            elif kept is None and os.path.exists(cache):
                kept = k       # complete, or the next start finds out
            seq.append(('start', st['plan']['a'], r.status))
            if kept is not None or not st['cache']:
                q = start(k, st['cache'])
                src = kept if st['cache'] else k
                world.check(same(tell(q), logp(refs[src], probe)), 'predictions of another classifier', lambda: 'the start after %s: %s instead of %s' % (tag, tell(q), logp(refs[src], probe)))
                alive = (q, src)
        else:
            if alive is None or logp(refs[alive[1]], probe) is None:
                continue
            p, src = alive
            s = spec(k)
            d = M.Data(s)
            dfs = M.make_dataframes(s, d)
            if st['how'] == 'table' and not co:
                t = dfs.data_ca_as_ce().copy()
                got = p.apply(t, dtype=float)['prelearned_utility']
            else:
                p.apply(dfs)
                t = dfs._data_ca_or_ce
                got = t['prelearned_utility']
            want = logp(refs[src], features(d, s, got.index))
            world.check(np.allclose(np.asarray(got, dtype=float), want, rtol=2e-3, atol=2e-3, equal_nan=True), 'a prediction is not that of its row',
                        lambda: 'after %s, %s: %s instead of %s' % (seq, st, np.asarray(got), want))
            if st['how'] == 'model' and np.isfinite(want).all():
                m = larch.Model(dataservice=dfs)
                m.utility_ca = larch.P('b') * larch.X('prelearned_utility')
                m.choice_any = True
                m.load_data()
                m.set_value('b', 0.7)
                pr = m.probability()
                ci = [int(c) for c in m.dataframes.caseindex]
                at = {(int(c), int(a)): v for (c, a), v in zip(got.index, want)}
                row = {int(c): r for r, c in enumerate(d.caseids)}
                for r, c in enumerate(ci):
                    u = np.array([np.exp(0.7 * at[c, a]) if d.av[row[c], i] else 0 for i, a in enumerate(s['alts'])])
                    world.check(np.allclose(np.asarray(pr)[r][:len(u)], u / u.sum(), rtol=5e-3, atol=5e-3), 'a model does not see the predictions',
                                lambda: 'case %s: %s instead of %s' % (c, np.asarray(pr)[r], u / u.sum()))
                world.count('models of predictions')
            seq.append(('apply', st['how']))
            world.count('applications')
    world.key((case['clf'], base['fmt'], case['wt'], case['expr']) + tuple(seq))


def simplify(case):
    for s in M.shrink_spec(case['spec']):
        if s['n_cases'] >= 3:
            yield dict(case, spec=s)
    for k in ('co', 'wt', 'expr'):
        if case[k]:
            yield dict(case, **{k: 0})
    for i, st in enumerate(case['steps']):
        if st.get('plan', {}).get('a', 'none') != 'none':
            c = copy.deepcopy(case); c['steps'][i]['plan'] = {'a': 'none'}
            yield c

"""A saved collection of data files loads as what was saved, or not at all, whatever happened while it was written."""
import copy, os, random, warnings
import numpy as np
import models as M, fs

ID = 'C12'
LEVEL = 'exploration'
BUDGET = {'quick': (400, 40), 'thorough': (40000, 1200)}
REAL = ['larch.DataFrames.to_feathers, from_feathers, inject_feathers', 'pyarrow', 'the filesystem of the sandbox (scratch directory)']
STUB = ['system calls on files of the scratch directory: libsimfs (errors, short transfers, death of the process)']
ASSUMPTIONS = ['a crash ends the process; what it has written so far is kept (no loss of power)']
KEY_MEASURE = 'distinct sequences of (operation, fault, outcome) of a run'
SHRINK_LISTS = (('steps',),)


def warm():
    import larch, pyarrow.feather, pandas  # noqa


def gen_data(rng):
    s = M.gen_spec(rng, n_cases=rng.choice([1, 2, 3, 5, 8, 40]))
    s['no_co'] = int(rng.random() < 0.3)
    return {k: s[k] for k in s if k not in ()}


def generate(rng, i, tier):
    steps = []
    for _ in range(rng.randint(1, 4)):
        s = gen_data(rng)
        steps.append({'op': 'save', 'spec': s, 'scale': int(rng.random() < 0.4), 'ch': int(rng.random() < 0.85),
                      'plan': fs.gen_plan(rng, none=0.35), 'in': rng.choice(['child', 'child', 'here'])})
        if rng.random() < 0.6:
            steps.append({'op': 'load', 'plan': fs.gen_plan(rng, kinds=('read', 'open'), crash=False, none=0.5, errs=('EIO', 'EACCES', 'EMFILE', 'ENOMEM'))})
        if rng.random() < 0.2:
            steps.append({'op': 'inject'})
    return {'steps': steps}


COMP = ['data_co', 'data_ca', 'data_ce', 'data_ch', 'data_av', 'data_wt']


def content(d):
    """what a user sees of a DataFrames"""
    out = {}
    # complete tables of cases by alternatives may be kept in either of two forms
    tall = d.data_ca if d.data_ca is not None else d.data_ce
    for n in ('tall', 'data_co', 'data_ch', 'data_av', 'data_wt'):
        x = tall.sort_index() if n == 'tall' and tall is not None else tall if n == 'tall' else getattr(d, n)
        if x is None:
            out[n] = None
        else:
            out[n] = (np.asarray(x, dtype=np.float64).copy(), [str(c) for c in x.columns], [tuple(map(int, np.atleast_1d(i))) for i in x.index])
    out['cases'] = None if d.caseindex is None else [int(c) for c in d.caseindex]
    a = d.alternative_codes()
    out['alternatives'] = None if a is None else [int(c) for c in a]
    a = d.alternative_names()
    out['names of alternatives'] = None if a is None else [str(c) for c in a]
    out['normalization of weights'] = float(d.weight_normalization)
    return out


def differ(a, b):
    for k in a:
        x, y = a[k], b[k]
        if (k.startswith('data_') or k == 'tall') and x is not None and y is not None:
            if x[0].shape != y[0].shape or not np.allclose(x[0], y[0], rtol=1e-6, atol=1e-6, equal_nan=True):
                return '%s: values %s and %s' % (k, np.array2string(x[0], threshold=20), np.array2string(y[0], threshold=20))
            if x[1] != y[1]:
                return '%s: columns %s and %s' % (k, x[1], y[1])
            if x[2] != y[2]:
                return '%s: index %s and %s' % (k, x[2][:9], y[2][:9])
        elif k == 'normalization of weights':
            if abs(x - y) > 1e-6 * abs(x):
                return '%s: %r and %r' % (k, x, y)
        elif x is None or y is None or x != y:
            if not (x is None and y is None):
                return '%s: %s and %s' % (k, str(x)[:200], str(y)[:200])
    return None


def build(st):
    s = st['spec']
    d = M.make_dataframes(s, ch=bool(st['ch']))
    if st['scale'] and d.data_wt is not None:
        d.autoscale_weights()
    d.computational = True
    return d


def run(case, world):
    import larch
    warnings.simplefilter('ignore')
    root = os.path.join(world.scratch, 'store')
    os.mkdir(root)
    base = os.path.join(root, 'data')
    good = None        # what a load must return
    maybe = []         # what a load may return besides failing
    seq = []

    def load():
        return content(larch.DataFrames.from_feathers(base))

    def check_load(r, tag):
        if r.status == 'raised':
            world.check(good is None or tag.startswith('faulty'), 'complete collection cannot be loaded', lambda: '%s after %s: %s' % (tag, seq, r.error))
            world.count('loads refused')
            return 'refused'
        world.check(r.status == 'done', 'loading ended the process', lambda: '%s after %s: %s %s' % (tag, seq, r.status, r.error))
        want = [good] if good is not None else maybe
        ds = [differ(w, r.value) for w in want]
        world.check(any(x is None for x in ds), 'loaded data are not the data saved',
                    lambda: '%s after %s: differs from each complete state:\n  %s' % (tag, seq, '\n  '.join(map(str, ds)) or 'nothing was ever saved completely'))
        world.count('loads')
        return 'loaded'

    for st in case['steps']:
        if st['op'] == 'save':
            d = build(st)
            before = content(d)
            if st['plan']['a'] == 'none' and st['in'] == 'here':
                d.to_feathers(base)
                r = fs.Child('done')
            else:
                r = fs.faulty(world, root, st['plan'], lambda: d.to_feathers(base), what='save')
            dd = differ(before, content(d))
            world.check(dd is None, 'saving changed the data', lambda: dd)
            world.check(r.status in ('done', 'raised', 'crashed'), 'saving ended the process', lambda: '%s %s' % (r.status, r.error))
            if r.status == 'done':
                good, maybe = before, []
            else:
                maybe = ([good] if good is not None else maybe) + [before]
                good = None
                world.check(st['plan']['a'] != 'none', 'saving failed without a fault', lambda: '%s' % r.error)
            seq.append('save %s%s' % (r.status, '' if st['plan']['a'] == 'none' else ' (%s)' % st['plan']['a']))
            world.count('saves ' + r.status)
            # the state after every operation can be read
            seq.append(check_load(fs.in_child(load, root, ['read']), 'load'))
        elif st['op'] == 'load':
            r = fs.faulty(world, root, st['plan'], load, mask=['read', 'open'], what='load')
            check_load(r, 'faulty load' if st['plan']['a'] != 'none' else 'load')
            seq.append('%s load' % st['plan']['a'])
            check_load(fs.in_child(load, root, ['read']), 'load')
        else:
            if good is None:
                continue
            d = larch.DataFrames.from_feathers(base)
            d.computational = True
            if any(getattr(d, n) is not None and not os.path.exists(base + '.' + n) for n in COMP):
                continue     # read in another form than the form kept
            for n in COMP:
                a = getattr(d, 'array_' + n[5:])()
                if a is not None and a.flags.writeable and n != 'data_av':
                    a[:] = 7
            try:
                d.inject_feathers(base)
            except ValueError as e:
                if 'read-only' in str(e):
                    continue
                raise
            dd = differ(good, content(d))
            world.check(dd is None, 'injected data are not the data saved', lambda: 'after %s: %s' % (seq, dd))
            world.count('injections')
            seq.append('inject')
    world.key(tuple(seq))


def simplify(case):
    for i, st in enumerate(case['steps']):
        if st['op'] != 'save':
            continue
        for s in M.shrink_spec(st['spec']):
            c = copy.deepcopy(case); c['steps'][i]['spec'] = s
            yield c
        for k, v in (('scale', 0), ('ch', 1)):
            if st[k] != v:
                c = copy.deepcopy(case); c['steps'][i][k] = v
                yield c
    for i, st in enumerate(case['steps']):
        if st.get('plan', {}).get('a', 'none') != 'none':
            c = copy.deepcopy(case); c['steps'][i]['plan'] = {'a': 'none'}
            yield c

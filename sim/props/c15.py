"""A matrix file holds what was put in it: histories of sessions against a plain model, with failing reads of imported tables and refused operations."""
import copy, os, shutil, warnings
import numpy as np, pandas as pd
import fs

ID = 'C15'
LEVEL = 'exploration'
BUDGET = {'quick': (1500, 30), 'thorough': (40000, 900)}
REAL = ['larch.OMX', 'larch.util.smartread', 'PyTables and HDF5', 'the filesystem of the sandbox (scratch directory)']
STUB = ['system calls on files of the scratch directory: libsimfs (errors, short reads)']
ASSUMPTIONS = ['HDF5 and PyTables drop errors of the disk when they write or close a file (seen in simulation, not part of larch): faults are injected on the tables imported, not on the matrix file']
KEY_MEASURE = 'distinct sequences of (operation, outcome) of a run'
SHRINK_LISTS = (('sessions',),)
NAMES = ['m1', 'm2', 'dist', 'a_b']
LNAMES = ['zone', 'l2', 'taz_id']
DTYPES = ['f8', 'f4', 'i4', 'i8', 'i2', 'u1']


def warm():
    import larch, larch.omx, larch.util.smartread, tables  # noqa


def gen_op(rng):
    k = rng.choice(['mat', 'mat', 'mat', 'look', 'look', 'blank', 'blook', 'set', 'cell', 'cell', 'crop', 'atom', 'shape', 'index', 'index', 'rc', 'rc', 'frame', 'join',
                    'csv', 'csv', 'csv3', 'omx', 'cols', 'mode', 'at', 'lcsv'])
    return {'op': k, 'name': rng.choice(NAMES), 'look': rng.choice(LNAMES), 'seed': rng.getrandbits(30), 'dtype': rng.choice(DTYPES),
            'plan': fs.gen_plan(rng, none=0.6, kinds=('read', 'open'), crash=False, errs=('EIO', 'EACCES', 'EMFILE', 'ENOMEM')), 'over': int(rng.random() < 0.5), 'bad': rng.choice([0, 0, 0, 0, 'rows', 'cols', 'dims', 'object', 'len']), 'n': rng.randint(1, 6), 'm': rng.randint(1, 6),
            'flag': int(rng.random() < 0.5), 'v': rng.randrange(4)}


def generate(rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 7])
    m = n if rng.random() < 0.6 else rng.choice([1, 2, 4, 6])
    ses = []
    for _ in range(rng.randint(1, 4)):
        ses.append({'ops': [gen_op(rng) for _ in range(rng.randint(1, 6))]})
    return {'shape': [n, m], 'gz': int(rng.random() < 0.1), 'sessions': ses}


class State:
    def __init__(self):
        self.shape = (0, 0)
        self.mats = {}
        self.looks = {}

    def copy(self):
        s = State()
        s.shape = self.shape
        s.mats = {k: v.copy() for k, v in self.mats.items()}
        s.looks = {k: v.copy() for k, v in self.looks.items()}
        return s


def content(f):
    s = State()
    s.shape = tuple(int(x) for x in f.shape)
    for k in f.data._v_children:
        s.mats[k] = f.data._v_children[k][:]
    for k in f.lookup._v_children:
        s.looks[k] = f.lookup._v_children[k][:]
    return s


def differ(want, got):
    if want.shape != got.shape:
        return 'shape %s, not %s' % (got.shape, want.shape)
    for what, a, b in (('matrices', want.mats, got.mats), ('lookups', want.looks, got.looks)):
        if set(a) != set(b):
            return '%s %s, not %s' % (what, sorted(b), sorted(a))
        for k in a:
            if a[k].dtype != b[k].dtype or a[k].shape != b[k].shape or not np.array_equal(a[k], b[k]):
                return '%s %s: %s, not %s' % (what, k, b[k], a[k])
    return None


def without(s, names):
    for n in names:
        s.mats.pop(n, None)
        s.looks.pop(n, None)
    return s


def values(seed, shape, dtype):
    g = np.random.Generator(np.random.PCG64(seed))
    if dtype[0] == 'f':
        return np.round(g.normal(size=shape) * 10, 3).astype(dtype)
    return g.integers(0, 100, size=shape).astype(dtype)


class Refused(Exception):
    pass


def labels(seed, n, kind):
    g = np.random.Generator(np.random.PCG64([seed, 5]))
    base = g.choice(np.arange(1, 60), size=n, replace=False).astype('i8')
    if kind == 0:
        return np.sort(base)
    if kind == 1 and n > 1:
        base[-1] = base[0]
    return base


def apply(f, s, e, dirname, world, case):
    """carry e out on the file and on the model; returns a tag"""
    import larch
    from larch.omx import OMX, OMX_Error
    k, name, look = e['op'], e['name'], e['look']
    nm = s.shape
    before = s.copy()

    def attempt(do, model, refuse=None):
        """model(s) changes the model; refuse says whether the call has to be refused"""
        try:
            do()
        except (OMX_Error, TypeError, ValueError, KeyError, IndexError) as x:
            d = differ(before, content(f))
            world.check(d is None, 'a refused operation changed the file', lambda: '%s: %s: %s; %s' % (e, type(x).__name__, x, d))
            world.check(bool(refuse), 'a valid operation was refused', lambda: '%s: %s: %s; shape %s, matrices %s, lookups %s' % (e, type(x).__name__, x, s.shape, list(s.mats), {q: len(v) for q, v in s.looks.items()}))
            return 'refused'
        world.check(not refuse, 'an invalid operation was accepted', lambda: '%s (%s); shape %s, matrices %s, lookups %s; now %s %s' % (
            e, refuse, before.shape, list(before.mats), {q: len(v) for q, v in before.looks.items()}, f.shape, {q: f.data._v_children[q].shape for q in f.data._v_children}))
        model(s)
        return 'done'

    def imported(do, model, names, kind):
        """reading the table fails, or what was asked for is all there"""
        plan = e['plan']
        if plan['a'] == 'none':
            return attempt(do, model)
        at = 1 + int(plan['pos'] * (6 if plan['a'] == 'err' else 3))
        fs.arm(dirname, plan['on'], plan['a'], at, fs.ERR.get(plan.get('err'), 0), plan.get('sticky', 0), plan['frac'])
        err = None
        try:
            do()
        except Exception as x:
            err = x
        finally:
            fs.off()
        if fs.lib().simfs_hits():
            world.fault('table to be imported: %s' % (plan.get('err') or 'short read'))
        if err is None:
            model(s)
            return 'done'
        world.check(fs.lib().simfs_hits() > 0, 'a valid operation was refused', lambda: '%s: %r' % (e, err))
        d = differ(before, without(content(f), names))
        world.check(d is None, 'a failed import changed other tables', lambda: '%s: %r: %s' % (e, err, d))
        for n in names:
            for node in (f.data, f.lookup):
                if n in node._v_children:
                    f.remove_node(node, n)
        return 'failed'
    if nm == (0, 0) and k not in ('mat', 'shape', 'look', 'blank'):
        return None
    if k == 'mat' or k == 'set':
        n, m = (case['shape'] if nm == (0, 0) else nm)
        a = values(e['seed'], (n, m), e['dtype'])
        bad = None
        if e['bad'] == 'rows':
            a, bad = values(e['seed'], (n + 1, m), e['dtype']), 'rows' if s.mats or k == 'set' else None
        elif e['bad'] == 'cols':
            a, bad = values(e['seed'], (n, m + 2), e['dtype']), 'columns' if s.mats or k == 'set' else None
        elif e['bad'] == 'dims':
            a, bad = values(e['seed'], (n, m, 2), e['dtype']), 'dimensions'
        elif e['bad'] == 'object':
            a = np.array([[object()] * m] * n, dtype=object).reshape(n, m)
            bad = 'type'
        if not s.mats and not bad and k == 'mat' and nm != (0, 0) and a.shape != nm:
            return None          # the first matrix may redefine the shape
        over = e['over'] and k == 'mat'
        if name in s.mats and not over:
            bad = 'exists'

        def model(s):
            s.mats[name] = a
            s.shape = a.shape
        if k == 'set':
            return attempt(lambda: f.__setitem__(name, a), model, bad)
        return attempt(lambda: f.add_matrix(name, a, overwrite=bool(over)), model, bad)
    if k == 'look':
        n = nm[e['flag']]
        a = labels(e['seed'], n, e['v'])
        bad = None
        if nm == (0, 0):
            bad, a = 'no shape', labels(e['seed'], 3, 0)
        elif e['bad'] == 'len':
            a = labels(e['seed'], max(nm) + 1, e['v'])
            bad = 'length' if s.mats else None
            if not bad:
                return None
        elif e['bad'] == 'dims':
            a, bad = values(e['seed'], (n, 2), 'i4'), 'dimensions'
        elif e['bad'] == 'object':
            a, bad = np.array([object()] * n, dtype=object), 'type'
        if look in s.looks and not e['over']:
            bad = 'exists'
        return attempt(lambda: f.add_lookup(look, a, overwrite=bool(e['over'])), lambda s: s.looks.__setitem__(look, a), bad)
    if k == 'shape':
        want = tuple(case['shape']) if nm == (0, 0) else (nm[0] + (e['v'] == 1), nm[1] + (e['v'] == 2))
        if s.looks and not s.mats:
            return None
        bad = 'matrices' if s.mats and want != nm else None
        return attempt(lambda: setattr(f, 'shape', want), lambda s: setattr(s, 'shape', want), bad)
    if k == 'blank':
        import tables as tb
        if name in s.mats:
            return None
        bad = 'no shape' if nm == (0, 0) else None
        sh = None if not e['flag'] else tuple(nm)
        if e['bad'] == 'rows' and nm != (0, 0):
            sh, bad = (nm[0] + 1, nm[1]), 'rows'
        return attempt(lambda: f.add_blank_matrix(name, atom=tb.Atom.from_dtype(np.dtype(e['dtype'])), shape=sh), lambda s: s.mats.__setitem__(name, np.zeros(nm, e['dtype'])), bad)
    if k == 'blook':
        import tables as tb
        if look in s.looks:
            return None
        n = nm[e['flag']]
        sh, bad = n, None
        if e['bad'] == 'len':
            sh, bad = max(nm) + 1, 'length'
        elif e['v'] == 0:
            sh, bad = None, 'which' if nm[0] != nm[1] else None
        return attempt(lambda: f.add_blank_lookup(look, atom=tb.Atom.from_dtype(np.dtype(e['dtype'])), shape=sh), lambda s: s.looks.__setitem__(look, np.zeros(n, e['dtype'])), bad)
    if k == 'cell':
        if name not in s.mats:
            return None
        i, j = e['n'] % nm[0], e['m'] % nm[1]
        f[name][i, j] = e['v']
        s.mats[name][i, j] = e['v']
        return 'done'
    if k == 'crop':
        n, m = min(e['n'], nm[0] + 1), min(e['m'], nm[1] + 1)
        if e['flag']:
            n, m = max(1, nm[0] - 1), max(1, nm[1] - 1)
        if nm[0] == nm[1] and e['bad'] == 0:
            m = n
        bad = 'grows' if n > nm[0] or m > nm[1] else 'not square' if nm[0] == nm[1] and n != m else None
        if (n, m) == tuple(nm):
            bad = None
        if not s.mats:
            return None
        def model(s):
            for q in s.mats:
                s.mats[q] = s.mats[q][:n, :m]
            for q in s.looks:
                s.looks[q] = s.looks[q][:n] if len(s.looks[q]) == nm[0] else s.looks[q][:m]
            s.shape = (n, m)
        if n == m and e['v'] == 0:
            return attempt(lambda: f.crop(n), model, bad)
        return attempt(lambda: f.crop((n, m)) if e['v'] == 1 else f.crop(n, m), model, bad)
    if k == 'atom':
        if e['flag'] and name in s.mats and np.can_cast(s.mats[name].dtype, np.dtype(e['dtype'])):
            if e['v'] == 0:
                def model(s):
                    s.mats[name] = s.mats[name].astype(e['dtype'])
                return attempt(lambda: f.change_atom_type(name, np.dtype(e['dtype']), require_smaller=False), model)
            return attempt(lambda: f.change_atom_type(name, np.dtype(e['dtype']), require_smaller=False), lambda s: s.mats.__setitem__(name, s.mats[name].astype(e['dtype'])))
        if not e['flag'] and look in s.looks and np.can_cast(s.looks[look].dtype, np.dtype(e['dtype'])):
            return attempt(lambda: f.change_atom_type(look, np.dtype(e['dtype']), require_smaller=False), lambda s: s.looks.__setitem__(look, s.looks[look].astype(e['dtype'])))
        return None
    if k == 'index':
        if look not in s.looks:
            return None
        lab = s.looks[look]
        uniq = len(set(lab.tolist())) == len(lab)
        rl = dict(f.rlookup[look]) if look in f.rlookup else None
        ways = [dict(enumerate(lab.tolist())), {x: i for i, x in enumerate(lab.tolist())}]
        world.check(rl is None or rl in ways, 'a reverse lookup does not follow its lookup', lambda: 'labels %s: %s' % (lab, rl))
        if e['v'] < 2:
            rl = f.get_reverse_lookup(look)
            world.check(rl in ways, 'a reverse lookup is not that of its lookup', lambda: 'labels %s: %s' % (lab, rl))
        g = np.random.Generator(np.random.PCG64(e['seed']))
        pos = g.integers(0, len(lab), size=(4, 2) if e['flag'] else 5)
        def do():
            got = f.lookup_to_index(look, lab[pos])
            world.check(np.array_equal(got, pos), 'wrong position of a label', lambda: 'labels %s: of %s got %s, are at %s' % (lab, lab[pos].tolist(), np.asarray(got).tolist(), pos.tolist()))
        return attempt(do, lambda s: None, None if uniq else 'labels not unique')
    if k in ('rc', 'join', 'at'):
        if not s.mats:
            return None
        g = np.random.Generator(np.random.PCG64(e['seed']))
        r, c = g.integers(0, nm[0], size=4), g.integers(0, nm[1], size=4)
        names = sorted(s.mats)
        if k == 'at':
            got = f.all_matrix_at(int(r[0]), int(c[0]))
            world.check({q: got[q] for q in got} == {q: s.mats[q][r[0], c[0]] for q in s.mats}, 'wrong cell', lambda: '%s at %s %s' % (got, r[0], c[0]))
            return 'done'
        if k == 'rc':
            form = e['v']
            rr, cc, kw = r, c, {}
            if form == 1:
                rr = pd.Series(r, index=[9, 7, 5, 3], name='r')
                cc = pd.Series(c, index=[9, 7, 5, 3], name='c')
            elif form == 2:
                rr, r = int(r[0]), np.full(4, r[0])
            elif form == 3:
                kw['index'] = 'rc'
            sel = None if e['flag'] else {names[0]: 'renamed'}
            got = f.get_rc_dataframe(rr, cc, sel, **kw)
            for q in (names if sel is None else names[:1]):
                col = got[q if sel is None else 'renamed']
                world.check(np.array_equal(np.asarray(col), s.mats[q][r, c]), 'wrong cells', lambda: '%s at %s %s: %s, not %s' % (q, r, c, list(col), s.mats[q][r, c]))
            if form == 1:
                world.check(list(got.index) == [9, 7, 5, 3], 'wrong index of cells', lambda: str(got.index))
            else:
                world.check([tuple(map(int, t)) for t in got.index] == [(int(x), int(y)) for x, y in zip(r, c)], 'wrong index of cells', lambda: str(got.index))
            return 'done'
        df = pd.DataFrame({'o': r + 1, 'd': c + 1, 'x': [1., 2., 3., 4.]}, index=[4, 2, 8, 6])
        got = f.join_rc_dataframe(df, 'o-1', 'd-1', names, prefix='P_')
        for q in names:
            world.check(np.array_equal(np.asarray(got['P_' + q]), s.mats[q][r, c]), 'wrong cells', lambda: 'join %s at %s %s: %s' % (q, r, c, got))
        world.check(list(got.index) == [4, 2, 8, 6] and list(got['x']) == [1., 2., 3., 4.], 'joining changed the table', lambda: str(got))
        return 'done'
    if k == 'frame':
        if name not in s.mats:
            return None
        rows = [q for q in s.looks if len(s.looks[q]) == nm[0]]
        cols = [q for q in s.looks if len(s.looks[q]) == nm[1]]
        got = f.get_dataframe(name, index=rows[0] if rows else None, columns=cols[0] if cols else None)
        world.check(np.array_equal(got.values, s.mats[name]), 'wrong table of a matrix', lambda: str(got))
        if rows:
            world.check(list(got.index) == list(s.looks[rows[0]]), 'wrong labels of a table', lambda: str(got))
        if cols:
            world.check(list(got.columns) == list(s.looks[cols[0]]), 'wrong labels of a table', lambda: str(got))
        return 'done'
    if k in ('csv', 'csv3'):
        g = np.random.Generator(np.random.PCG64(e['seed']))
        cells = [(i, j) for i in range(nm[0]) for j in range(nm[1])]
        pick = [cells[i] for i in g.permutation(len(cells))[:max(1, len(cells) - e['v'])]]
        off = 1 if e['flag'] else 0
        v = np.round(g.normal(size=len(pick)) * 5, 2)
        new = 'csv%d' % e['n']
        p = os.path.join(dirname, 't.csv')
        with open(p, 'w') as h:
            h.write('r,c,%s\n' % new + ''.join('%d,%d,%s\n' % (i + off, j + off, x) for (i, j), x in zip(pick, v)))
        if new in s.mats or 'r' in s.mats:
            return None
        a = np.zeros(nm, 'f4')
        for (i, j), x in zip(pick, v):
            a[i, j] = x
        if k == 'csv':
            return imported(lambda: f.import_datatable(p, one_based=bool(off), chunksize=e['m'], column_map={new: new}), lambda s: s.mats.__setitem__(new, a), [new], 'mats')
        return imported(lambda: f.import_datatable_3d(p, one_based=bool(off), chunksize=e['m']), lambda s: s.mats.__setitem__(new, a), [new], 'mats')
    if k == 'lcsv':
        if nm[0] != nm[1]:
            return None
        n = nm[0]
        new = 'lcsv%d' % e['n']
        if new in s.looks:
            return None
        p = os.path.join(dirname, 'l.csv')
        v = np.random.Generator(np.random.PCG64(e['seed'])).permutation(n)
        col = (np.arange(n) * 10 + 5)
        with open(p, 'w') as h:
            h.write('zid,%s\n' % new + ''.join('%d,%d\n' % (z + 1, col[z]) for z in (v if e['flag'] else range(n))))
        kw = {'zone_ix': 'zid', 'zone_ix1': 1} if e['flag'] else {}
        return imported(lambda: f.import_datatable_as_lookups(p, chunksize=e['m'], column_map={new: new}, **kw), lambda s: s.looks.__setitem__(new, col.astype('i8')), [new], 'looks')
    if k in ('omx', 'cols'):
        p = os.path.join(dirname, 'other.omx')
        if os.path.exists(p):
            os.unlink(p)
        n, m = nm[0] + (1 if e['bad'] == 'rows' else 0), nm[1]
        a, b = values(e['seed'], (n, m), e['dtype']), values(e['seed'] + 1, (n, m), 'f8')
        o = OMX(p, mode='w')
        o.add_matrix('oth', a)
        o.add_matrix('oth2', b)
        o.add_lookup('rows', np.arange(n) * 3)
        o.add_lookup('colm', np.arange(m) * 5)
        o.close()
        if k == 'omx':
            if 'oth' in s.mats or (n, m) != tuple(nm) and not s.mats:
                return None
            if e['bad'] == 'rows' and e['flag']:
                return attempt(lambda: f.import_omx(p, ['oth'], rowslicer=slice(0, nm[0]), colslicer=slice(None)), lambda s: (s.mats.__setitem__('oth', a[:nm[0]]), setattr(s, 'shape', a[:nm[0]].shape)))
            return attempt(lambda: f.import_omx(p, ['oth']), lambda s: (s.mats.__setitem__('oth', a), setattr(s, 'shape', a.shape)), 'shape' if e['bad'] == 'rows' and s.mats else None)
        q = os.path.join(dirname, 'new.omx')
        if os.path.exists(q):
            os.unlink(q)
        g = np.random.Generator(np.random.PCG64(e['seed']))
        perm = g.permutation(m)
        o = OMX(p, mode='r')
        w = OMX.change_cols(q, o, ['oth', 'oth2'], ['rows'], ['colm'], (n, m + 2), newslicecols=np.sort(perm) if e['flag'] else slice(0, m), oldslicecols=None)
        got = content(w)
        w.close(); o.close()
        want = State()
        want.shape = (n, m + 2)
        for z, x in (('oth', a), ('oth2', b)):
            want.mats[z] = np.zeros((n, m + 2), x.dtype)
            want.mats[z][:, :m] = x
        want.looks['rows'] = np.arange(n) * 3
        want.looks['colm'] = np.zeros(m + 2, 'i8')
        want.looks['colm'][:m] = np.arange(m) * 5
        d = differ(want, got)
        world.check(d is None, 'remapped columns are wrong', lambda: d)
        return 'done'
    if k == 'mode':
        f.change_mode('r')
        d = differ(s, content(f))
        world.check(d is None, 'changing the mode changed the file', lambda: d)
        f.change_mode('a')
        return 'done'
    return None


def run(case, world):
    import larch
    from larch.omx import OMX
    import tables
    warnings.simplefilter('ignore')
    root = os.path.join(world.scratch, 'o')
    aux = os.path.join(world.scratch, 'aux')
    os.mkdir(root)
    os.mkdir(aux)
    path = os.path.join(root, 'f.omx')
    s = State()
    OMX(path, mode='w').close()
    seq = []
    for ses in case['sessions']:
        def session():
            w = world
            t = s.copy()
            f = OMX(path, mode='a')
            try:
                d = differ(t, content(f))
                w.check(d is None, 'an opened file does not hold what it held when closed', lambda: 'after %s: %s' % (seq, d))
                tags = []
                for e in ses['ops']:
                    tag = apply(f, t, e, aux, w, case)
                    if tag is None:
                        continue
                    tags.append((e['op'], e['bad'] if tag == 'refused' else '', tag))
                    w.count('operations ' + tag)
                    d = differ(t, content(f))
                    w.check(d is None, 'a file does not hold what was put in it', lambda: 'after %s, %s, %s: %s' % (seq, tags, e, d))
            finally:
                f.close()
            return t, tags
        s, tags = session()
        seq.append(tuple(tags))
        # what another reader of the format finds
        with tables.open_file(path, 'r') as h:
            g = State()
            g.shape = tuple(int(x) for x in h.root._v_attrs.SHAPE[:])
            for n in h.root.data:
                g.mats[n.name] = n[:]
            for n in h.root.lookup:
                g.looks[n.name] = n[:]
        d = differ(s, g)
        world.check(d is None, 'a closed file does not hold what was put in it', lambda: 'after %s: %s' % (seq, d))
        for n, a in g.mats.items():
            world.check(a.shape == g.shape, 'a matrix does not have the shape of its file', lambda: '%s: %s in %s' % (n, a.shape, g.shape))
    world.key(tuple(seq))


def content_of(path):
    from larch.omx import OMX
    f = OMX(path, mode='r')
    try:
        return content(f)
    finally:
        f.close()


def simplify(case):
    for i, ses in enumerate(case['sessions']):
        for j in range(len(ses['ops'])):
            c = copy.deepcopy(case); c['sessions'][i]['ops'].pop(j)
            yield c
    if max(case['shape']) > 2:
        yield dict(case, shape=[min(2, x) for x in case['shape']])

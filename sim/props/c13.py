"""Compressing and zipping directories never loses or damages data, wherever it is interrupted."""
import copy, fnmatch, gzip, hashlib, os, random, zipfile
import fs

ID = 'C13'
LEVEL = 'exploration'
BUDGET = {'quick': (700, 30), 'thorough': (60000, 900)}
REAL = ['larch.util.zipdir: gzip_dir, gzip_archive, zipdir, zipmod, Archiver, make_hash_file, verify_hash_file', 'gzip, zipfile, shutil, glob', 'the filesystem of the sandbox (scratch directory)']
STUB = ['system calls on files of the scratch directory: libsimfs (errors, short transfers, death of the process)', 'time.sleep, time.strftime: simulated clock']
ASSUMPTIONS = ['a crash ends the process; what it has written so far is kept (no loss of power)']
KEY_MEASURE = 'distinct sequences of (operation, options, fault, outcome) of a run'
SHRINK_LISTS = (('steps',),)


def warm():
    import larch.util.zipdir  # noqa


NAMES = ['a.txt', 'b.csv', 'c.tar.x', 'plain', '.hidden', '.h.txt', 'd.txt', 'e.gz.txt', 'sub/a.txt', 'sub/q.csv', 'sub/deep/z.txt',
         '.dot/a.txt', '.dot/in/b.txt', 'sub/.no/c.txt', 'fold.er/a.txt', 'sub/.hid.csv']


def gen_files(rng):
    out = []
    for n in rng.sample(NAMES, rng.randint(1, 7)):
        size = rng.choice([0, 1, 17, 300, 4096, 5000, 30000, 70000])
        out.append([n, size, rng.randrange(1000), rng.choice(['rnd', 'txt'])])
    return out


def data(f):
    n, size, seed, kind = f
    r = random.Random(seed)
    if kind == 'rnd':
        return r.randbytes(size)
    return (b'%d,' % seed * (size // 2 + 1))[:size]


def gen_gz(rng):
    return {'op': 'gzip', 'patterns': rng.choice([['*.*'], ['*.txt'], ['*.txt', '*.csv'], ['*.*', '*.txt'], ['*']]), 'hash': rng.random() < 0.6,
            'dest': rng.choice([None, None, 'out', 'out/in']), 'sub': rng.choice([False, False, 'handle', True]), 'remove': rng.random() < 0.6,
            'how': rng.choice(['dir', 'dir', 'dir', 'archive', 'archiver'])}


def gen_zip(rng):
    return {'op': 'zip', 'name': rng.choice([None, 'x.zip', 'in', 'dotted']), 'dots': rng.random() < 0.7, 'layer': rng.random() < 0.5,
            'how': rng.choice(['zipdir', 'zipdir', 'slash', 'rel', 'archiver', 'mod'])}


def generate(rng, i, tier):
    steps = [{'op': 'write', 'files': gen_files(rng)}]
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.2:
            st = {'op': 'write', 'files': gen_files(rng)}
        elif r < 0.55:
            st = gen_gz(rng)
        elif r < 0.85:
            st = gen_zip(rng)
        else:
            st = {'op': 'verify', 'how': rng.choice(['ok', 'tamper', 'late', 'never', 'dir']), 'size': rng.choice([0, 3, 4096, 4097, 20000]),
                  'seed': rng.randrange(99), 'pos': rng.randrange(9), 'mask': rng.choice(['open', 'read'])}
        if st['op'] in ('gzip', 'zip'):
            st['plan'] = fs.gen_plan(rng, none=0.3, kinds=rng.choice([('write', 'open', 'meta'), ('write', 'open', 'meta', 'read'), ('write',), ('meta',)]))
            steps.append(st)
            if rng.random() < 0.6:
                steps.append(dict(copy.deepcopy(st), plan={'a': 'none'}))
            continue
        steps.append(st)
    return {'steps': steps}


class Clock:
    def __init__(self):
        self.t = 0
        self.stamp = '2031_02_03-04_05'

    def install(self):
        import time
        time.sleep = self.sleep
        time.strftime = lambda fmt, *a: self.stamp

    def sleep(self, s):
        self.t += s


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def gunzip(b):
    try:
        return gzip.decompress(b)
    except Exception:
        return None


def unzip(p):
    try:
        with zipfile.ZipFile(p) as z:
            if len(set(z.namelist())) != len(z.namelist()):
                return {'twice': z.namelist()}
            return {n: z.read(n) for n in z.namelist() if not n.endswith('/') and not temporary(n)}
    except Exception as e:
        return None


def temporary(name):
    b = os.path.basename(name)
    return b.startswith('.') and b.endswith('.tmp')


def run(case, world):
    from larch.util import zipdir as Z
    import time, types
    keep = time.sleep, time.strftime
    clock = Clock()
    clock.install()
    try:
        _run(case, world, Z, clock, types)
    finally:
        time.sleep, time.strftime = keep


def _run(case, world, Z, clock, types):
    root = os.path.join(world.scratch, 'w')
    src = os.path.join(root, 'data.v1')
    os.makedirs(src)
    ever = {}          # (directory, name) -> contents a compressed copy may have
    zips = {}          # path -> contents of the good archive there
    seq = []
    log = lambda *a: None
    for n, st in enumerate(case['steps']):
        if st['op'] == 'write':
            for f in st['files']:
                p = os.path.join(src, f[0])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.isdir(p):
                    continue
                with open(p, 'wb') as h:
                    h.write(data(f))
            seq.append('w')
            continue
        before = tree(src)
        if st['op'] == 'gzip':
            how, remove, mk, sub = st['how'], st['remove'], st['hash'], st['sub']
            dest = None if st['dest'] is None else os.path.join(root, st['dest'])
            pats = st['patterns']
            if how == 'dir':
                fn = lambda: Z.gzip_dir(src, tuple(pats), make_hash=mk, destination_dir=dest, archive_subdir=sub, remove_original=remove, log=log if n % 2 else None)
            elif how == 'archive':
                remove, mk, sub = False, False, sub or True
                dest = dest or os.path.join(root, 'arch')
                fn = lambda: Z.gzip_archive(src, tuple(pats), destination_dir=dest, archive_subdir=sub)
            else:
                remove, mk, sub = False, False, 'handle'
                dest = dest or os.path.join(root, 'arch')
                pats = pats[:1]
                fn = lambda: Z.Archiver(dest, log=False, handle='handle').gzip_by_glob(pats[0], src)
            out = dest or src
            if sub:
                out = os.path.join(out, sub if isinstance(sub, str) else clock.stamp)
            hidden = lambda f: f.startswith('.')
            tops = [f for f in before if '/' not in f and not hidden(f) and '.sha256.txt' not in f and any(fnmatch.fnmatch(f, p) for p in pats)]
            for f in tops:
                if not f.endswith('.gz'):
                    ever.setdefault((os.path.realpath(out), f + '.gz'), []).append(before[f])
            for f in before:
                if f.endswith('.gz') and '/' not in f and gunzip(before[f]) is not None:
                    ever.setdefault((os.path.realpath(src), f), []).append(gunzip(before[f]))
            r = fs.faulty(world, root, st['plan'], fn, what='gzip')
            tag = 'gzip %s, %s, after %s' % ({k: v for k, v in st.items() if k not in ('op',)}, r.status, seq)
            world.check(r.status in ('done', 'raised', 'crashed'), 'compressing ended the process', lambda: '%s %s' % (tag, r.error))
            world.check(st['plan']['a'] != 'none' or r.status == 'done', 'compressing fails without a fault', lambda: '%s: %s' % (tag, r.error))
            after = tree(src)
            there = tree(out) if os.path.isdir(out) else {}
            for f in before:
                if f.endswith('.sha256.txt') or temporary(f):
                    continue
                gz = f + '.gz'
                if f in after:
                    ok = after[f] == before[f]
                    if not ok and f.endswith('.gz'):
                        ok = f[:-3] in tops and gunzip(after[f]) == before[f[:-3]]
                    world.check(ok, 'a file was damaged', lambda: '%s: %s' % (tag, f))
                    world.check(not (r.status == 'done' and remove and f in tops and not f.endswith('.gz')), 'an original was kept that should be removed', lambda: '%s: %s' % (tag, f))
                else:
                    world.check(remove and f in tops, 'a file was removed', lambda: '%s: %s' % (tag, f))
                    world.check(gz in there and gunzip(there[gz]) == before[f], 'the contents of a file are lost', lambda: '%s: %s was removed; compressed copy %s' % (tag, f, 'is missing' if gz not in there else 'is not complete'))
            for d, x in {src: after, out: there}.items():
                for f in x:
                    if f.endswith('.gz') and '/' not in f and not temporary(f):
                        u = gunzip(x[f])
                        world.check(u is not None, 'a damaged compressed file was left', lambda: '%s: %s' % (tag, f))
                        world.check(u in ever.get((os.path.realpath(d), f), []), 'a compressed file has other contents', lambda: '%s: %s' % (tag, f))
            if r.status == 'done':
                for f in tops:
                    if not f.endswith('.gz'):
                        world.check(f + '.gz' in there and gunzip(there[f + '.gz']) == before[f], 'a file was not compressed', lambda: '%s: %s' % (tag, f))
                    if mk:
                        base = f[:-3] if f.endswith('.gz') else f
                        want = hashlib.sha256(before[f] if not f.endswith('.gz') else gunzip(before[f])).hexdigest()
                        if base in tops:
                            want = hashlib.sha256(before[base]).hexdigest()
                        got = after.get(base + '.sha256.txt')
                        world.check(got is not None and got.decode() == want, 'wrong checksum', lambda: '%s: %s has %s' % (tag, f, got))
                world.check(not any(temporary(f) for f in there if f not in before and '/' not in f) or seq_has_fault(seq), 'a temporary file was left', lambda: '%s: %s' % (tag, sorted(there)))
            seq.append(('gzip', how, st['plan']['a'], r.status))
        elif st['op'] == 'zip':
            how = st['how']
            dest = {None: None, 'x.zip': os.path.join(root, 'x.zip'), 'in': os.path.join(src, 'in.zip'), 'dotted': os.path.join(src, '.in.zip')}[st['name']]
            layer, skip = st['layer'], st['dots']
            if how in ('zipdir', 'slash', 'rel'):
                s = src + ('/' if how == 'slash' else '')
                target = dest or src + '.zip'
                if how == 'rel':
                    target = dest or os.path.join(root, 'rel.zip')
                    layer = False

                    def fn():
                        os.chdir(src)
                        Z.zipdir('.', target, skip_dots=skip, extra_layer=layer, log=log)
                else:
                    fn = lambda: Z.zipdir(s, dest, skip_dots=skip, extra_layer=layer, log=log)
            elif how == 'archiver':
                skip, layer = True, False
                name = None if st['name'] is None else 'named.zip'
                target = os.path.join(root, 'arch', 'handle', name or 'data.v1.zip')
                s = src + ('/' if st['layer'] else '')
                fn = lambda: Z.Archiver(os.path.join(root, 'arch'), log=False, handle='handle').zip_dir(s, name)
            else:
                target = dest or os.path.join(root, 'mod.zip')
                layer = True
                m = types.ModuleType('data')
                m.__path__ = [src]
                def fn():
                    import builtins
                    Z.zipmod(m, target, skip_dots=skip)
            exclude = os.path.relpath(target, src)
            want = {}
            for f in before:
                if skip and any(p.startswith('.') for p in f.split('/')):
                    continue
                if f == exclude or temporary(f):
                    continue
                want[os.path.join('data.v1', f) if layer else f] = before[f]
            r = fs.faulty(world, root, st['plan'], fn, what='zip')
            tag = 'zip %s, %s, after %s' % ({k: v for k, v in st.items() if k not in ('op',)}, r.status, seq)
            world.check(r.status in ('done', 'raised', 'crashed'), 'zipping ended the process', lambda: '%s %s' % (tag, r.error))
            world.check(st['plan']['a'] != 'none' or r.status == 'done', 'zipping fails without a fault', lambda: '%s: %s' % (tag, r.error))
            after = tree(src)
            for f in before:
                if f != exclude and not temporary(f):
                    world.check(f in after and after[f] == before[f], 'zipping changed a file', lambda: '%s: %s' % (tag, f))
            got = unzip(target) if os.path.exists(target) else 'none'
            old = zips.get(target, 'none')
            if r.status == 'done':
                world.check(isinstance(got, dict) and got == want, 'the archive does not hold exactly the files', lambda: '%s: missing %s, more %s' % (
                    tag, sorted(set(want) - set(got or ())), sorted(set(got or ()) - set(want))))
            else:
                world.check(got == want or got == old, 'an incomplete archive was left', lambda: '%s: %s; wanted %s; before %s' % (tag, got if not isinstance(got, dict) else sorted(got), sorted(want), old if old == 'none' else sorted(old)))
            zips[target] = got
            seq.append(('zip', how, st['plan']['a'], r.status))
        else:
            p = os.path.join(root, 'v.bin')
            b = data(['', st['size'], st['seed'], 'rnd'])
            with open(p, 'wb') as h:
                h.write(b)
            Z.make_hash_file(p)
            hd = None
            if st['how'] == 'dir':
                hd = os.path.join(root, 'hashes')
                os.makedirs(hd, exist_ok=True)
                os.replace(p + '.sha256.txt', os.path.join(hd, 'v.bin.sha256.txt'))
            if st['how'] == 'tamper':
                b2 = bytearray(b or b'x')
                b2[st['pos'] % len(b2)] ^= 1
                with open(p, 'wb') as h:
                    h.write(b2)
            ops = fs.in_child(lambda: Z.verify_hash_file(p, hd), p, [st['mask']]).ops
            t0 = clock.t

            def fn():
                Z.verify_hash_file(p, hd)
                return clock.t
            if st['how'] in ('late', 'never') and ops:
                r = fs.in_child(fn, p, [st['mask']] , 'err', 1 + st['pos'] % (max(1, ops - 2) if st['mask'] == 'read' else 1), fs.ERR['EACCES'], int(st['how'] == 'never'))
                world.fault('permission denied %s' % ('once' if st['how'] == 'late' else 'for good'))
            else:
                r = fs.in_child(fn, p, ['open'])
            kind = (r.error or '').split(':')[0]
            tag = 'verify %s: %s %s' % (st, r.status, (r.error or '')[:200])
            if st['how'] == 'tamper':
                world.check(r.status == 'raised' and kind == 'ValueError', 'a changed file passes', lambda: tag)
            elif st['how'] == 'never' and ops:
                world.check(r.status == 'raised' and kind == 'PermissionError', 'an unreadable file is not reported as such', lambda: tag)
            else:
                world.check(r.status == 'done', 'an intact file fails', lambda: tag)
                world.simtime += r.value - t0
            seq.append(('verify', st['how'], r.status))
        world.count('outcome:%s' % (seq[-1][-1],))
    world.key(tuple(seq))


def seq_has_fault(seq):
    return any(s != 'w' and s[-1] in ('crashed', 'raised') for s in seq)


def simplify(case):
    for i, st in enumerate(case['steps']):
        if st['op'] == 'write':
            for j, f in enumerate(st['files']):
                if len(st['files']) > 1:
                    c = copy.deepcopy(case); c['steps'][i]['files'].pop(j)
                    yield c
                if f[1] > 20:
                    c = copy.deepcopy(case); c['steps'][i]['files'][j][1] = 17
                    yield c
        if st.get('plan', {}).get('a', 'none') != 'none':
            c = copy.deepcopy(case); c['steps'][i]['plan'] = {'a': 'none'}
            yield c

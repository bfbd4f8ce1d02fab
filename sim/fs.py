"""Seeded faults of file operations below a directory (libsimfs, preloaded by check.py), and crashes of the process."""
import ctypes, errno, gc, os, pickle, random, shutil, signal, sys, time, traceback

_lib = None
MASKS = {'write': 1, 'read': 2, 'open': 4, 'meta': 8, 'malloc': 16}
ACT = {'none': 0, 'err': 1, 'short': 2, 'crash': 3}
ERR = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EINTR': errno.EINTR, 'ENOMEM': errno.ENOMEM, 'EDQUOT': errno.EDQUOT}


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.simfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        L.simfs_log.restype = ctypes.c_char_p
        for n in ('simfs_ops', 'simfs_hits', 'simfs_bytes'):
            getattr(L, n).restype = ctypes.c_long
        _lib = L
    return _lib


def arm(root, mask, action='none', at=0, err=0, sticky=0, frac=0):
    m = 0
    for x in mask:
        m |= MASKS[x]
    lib().simfs_arm(str(root).encode(), m, ACT[action], at, err, sticky, frac)


def off():
    lib().simfs_off()


def gen_plan(rng, kinds=('write', 'open', 'meta'), crash=True, none=0.1, errs=('ENOSPC', 'ENOSPC', 'EIO', 'EACCES', 'EDQUOT')):
    r = rng.random()
    if r < none:
        return {'a': 'none'}
    a = rng.choice(['crash', 'crash', 'err', 'err', 'short'] if crash else ['err', 'err', 'short'])
    p = {'a': a, 'pos': round(rng.random(), 5), 'frac': rng.choice([0, 1, 250, 500, 900, 999]), 'on': list(kinds)}
    if a == 'err':
        p['err'] = rng.choice(errs)
        p['sticky'] = int(rng.random() < 0.4)
    if a == 'short':
        p['on'] = [k for k in kinds if k in ('write', 'read')] or list(kinds)
    return p


class Child:
    """result of something done by a process that may have died in the middle"""
    def __init__(self, status, value=None, error=None, ops=0, log=''):
        self.status, self.value, self.error, self.ops, self.log = status, value, error, ops, log


def in_child(fn, root, mask, action='none', at=0, err=0, sticky=0, frac=0, limit=60):
    """run fn in a forked process with the fault armed; 'done', 'raised' or 'crashed'"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.close(r)
            signal.alarm(limit)
            try:
                # the random numbers of the child are those of a process started anew
                arm(root, mask, action, at, err, sticky, frac)
                try:
                    v = ('done', fn())
                except BaseException as e:
                    v = ('raised', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            finally:
                off()
            v = v + (lib().simfs_ops(), lib().simfs_hits(), lib().simfs_log().decode())
            try:
                blob = pickle.dumps(v)
            except Exception:
                blob = pickle.dumps((v[0], None) + v[2:])
            with os.fdopen(w, 'wb') as f:
                f.write(blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
        return Child('crashed')
    if not blob:
        return Child('died', error='status %r' % st)
    kind, val, ops, hits, log = pickle.loads(blob)
    c = Child(kind, val if kind == 'done' else None, val if kind == 'raised' else None, ops, log)
    c.hits = hits
    return c


def faulty(world, root, plan, fn, mask=None, what=''):
    """Carry out fn() below root with one planned fault; the operation hit is chosen among those a run without faults makes."""
    mask = mask or plan.get('on') or ['write', 'open', 'meta']
    if plan['a'] == 'none':
        return in_child(fn, root, mask)
    trial = root.rstrip('/') + '.trial'
    backup = root.rstrip('/') + '.backup'
    # a trial in the same place on a copy of the directory
    shutil.copytree(root, backup, symlinks=True)
    try:
        c = in_child(fn, root, mask)
    finally:
        clear(root)
        restore(backup, root)
        shutil.rmtree(backup)
    if c.ops == 0:
        return in_child(fn, root, mask)
    at = 1 + int(plan['pos'] * c.ops) % c.ops
    world.count('operations-faults-may-hit', c.ops)
    out = in_child(fn, root, mask, plan['a'], at, ERR.get(plan.get('err'), 0), plan.get('sticky', 0), plan['frac'])
    name = {'crash': 'crash of the process at a file operation', 'short': 'short transfer', 'err': 'error: %s%s' % (plan.get('err'), ' from then on' if plan.get('sticky') else '')}[plan['a']]
    world.fault(name)
    world.note(what, plan['a'], at, c.ops, out.status)
    return out


def clear(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def restore(src, dst):
    for n in os.listdir(src):
        p = os.path.join(src, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(dst, n), symlinks=True)
        else:
            shutil.copy2(p, os.path.join(dst, n))

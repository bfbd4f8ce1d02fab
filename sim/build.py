"""Build an overlay copy of /repo's working tree under a cache directory.

The overlay is the package `larch` as it is in /repo now, with
  * python files copied,
  * serial Cython modules taken from the prebuilt .so when the Cython sources are the
    ones it was built from, else rebuilt,
  * parallel Cython modules recompiled with gcc -fopenmp -fsanitize=thread and linked
    against libsimomp.so instead of libgomp/libtsan.
Nothing is written to /repo.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('LARCH_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
EXT = '.cpython-312-x86_64-linux-gnu.so'
SKIP_DIRS = {'__pycache__', 'generated', '.ipynb_checkpoints', 'doc'}
SRC_EXT = ('.py', '.pyx', '.pxd', '.pxi', '.h', '.yaml', '.yml', '.json', '.css', '.html', '.mplstyle')


def cache_root():
    d = os.environ.get('LARCH_SIM_CACHE') or os.path.join(VERIF, '.build')
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, '.w%d' % os.getpid())
        open(t, 'w').close(); os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'larch-sim-build-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def _sources():
    out = []
    root = os.path.join(REPO, 'larch')
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in SKIP_DIRS)
        for f in sorted(fn):
            if f.endswith(SRC_EXT) and not (f.endswith('.html') and os.path.exists(os.path.join(dp, f[:-5] + '.pyx'))):
                out.append(os.path.join(dp, f))
    return out


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _native_sources():
    return sorted(glob.glob(os.path.join(HERE, 'native', '*.c'))) + [os.path.abspath(__file__)]


def tree_key():
    h = hashlib.sha256()
    for p in _sources() + _native_sources():
        h.update(p.encode()); h.update(_sha(p).encode())
    return h.hexdigest()[:16]


def _built_hashes():
    p = os.path.join(REPO, 'build/vp/built')
    d = {}
    try:
        for line in open(p):
            k, v = line.split(None, 1)
            d[v.strip()] = k
    except OSError:
        pass
    return d


def _run(cmd, cwd=None, what=''):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('build step failed (%s): %s\n%s\n' % (what, ' '.join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)


PAR_RX = re.compile(r'^\s*#\s*pragma omp', re.M)
FOR_RX = re.compile(r'(#pragma omp for)(?![^\n]*schedule)([^\n]*)')


def _includes():
    import json
    r = subprocess.run([PY, '-c', 'import numpy,sysconfig,json;print(json.dumps([numpy.get_include(),sysconfig.get_paths()["include"]]))'],
                       stdout=subprocess.PIPE, text=True, check=True)
    return json.loads(r.stdout)


def _build(dst, log):
    t0 = time.time()
    pk = os.path.join(REPO, 'larch')
    ov = os.path.join(dst, 'larch')
    for dp, dn, fn in os.walk(pk):
        rel = os.path.relpath(dp, pk)
        dn[:] = [d for d in dn if d not in SKIP_DIRS]
        od = os.path.normpath(os.path.join(ov, rel))
        os.makedirs(od, exist_ok=True)
        for f in fn:
            s = os.path.join(dp, f)
            base = f.split('.')[0]
            if f.endswith(SRC_EXT):
                if f.endswith('.html') and os.path.exists(os.path.join(dp, f[:-5] + '.pyx')):
                    continue
                shutil.copyfile(s, os.path.join(od, f))
            elif f.endswith(('.c', '.so', '.pyc', '.o', '.cpp')) :
                continue
            else:
                os.symlink(s, os.path.join(od, f))
    gen = os.path.join(pk, 'examples', 'generated')
    if os.path.isdir(gen):
        os.symlink(gen, os.path.join(ov, 'examples', 'generated'))
    built = _built_hashes()
    pyx = []
    for dp, dn, fn in os.walk(ov):
        for f in fn:
            if f.endswith('.pyx'):
                pyx.append(os.path.relpath(os.path.join(dp, f), dst))
    shared_ok = True
    for dp, dn, fn in os.walk(ov):
        for f in fn:
            if f.endswith(('.pxd', '.pxi')):
                rel = os.path.relpath(os.path.join(dp, f), dst)
                if built.get(rel) != _sha(os.path.join(dst, rel)):
                    shared_ok = False
    todo_cy = []
    for p in pyx:
        c = os.path.join(REPO, p[:-4] + '.c')
        if shared_ok and built.get(p) == _sha(os.path.join(dst, p)) and os.path.exists(c):
            shutil.copyfile(c, os.path.join(dst, p[:-4] + '.c'))
        else:
            todo_cy.append(p)
    if todo_cy:
        log('cythonizing %s' % ' '.join(todo_cy))
        # same Cython front end and language level as setup.py
        def cy(p):
            _run([PY, '-m', 'cython', '-3' if False else '--gdb', p] if False else
                 [PY, '-c', 'import sys;from Cython.Build import cythonize;from setuptools import Extension;'
                  'p=sys.argv[1];cythonize([Extension(p[:-4].replace("/","."),[p])],quiet=True,force=True)', p], cwd=dst, what='cython ' + p)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cy, todo_cy))
    _run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', os.path.join(dst, 'libsimomp.so'),
          os.path.join(HERE, 'native/simomp.c'), '-ldl'], what='simomp')
    _run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', os.path.join(dst, 'libsimpool.so'),
          os.path.join(HERE, 'native/simpool.c')], what='simpool')
    _run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-fno-builtin', '-o', os.path.join(dst, 'libsimfs.so'),
          os.path.join(HERE, 'native/simfs.c'), '-ldl'], what='simfs')
    npi, pyi = _includes()
    par = []
    ser = []
    for p in pyx:
        src = open(os.path.join(dst, p[:-4] + '.c'), errors='replace').read()
        text = open(os.path.join(dst, p), errors='replace').read()
        if PAR_RX.search(src) or p.endswith('larch/dataframes.pyx'):
            par.append((p, src))
        else:
            ser.append(p)
    def comp_par(job):
        p, src = job
        c = os.path.join(dst, p[:-4] + '.sim.c')
        with open(c, 'w') as f:
            f.write(FOR_RX.sub(r'\1 schedule(runtime)\2', src))
        out = os.path.join(dst, p[:-4] + EXT)
        d = os.path.dirname(os.path.join(dst, p))
        cmd = ['gcc', '-O1', '-g0', '-fPIC', '-c', '-fopenmp', '-fsanitize=thread', '-fwrapv', '-w']
        for n in ('PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread', 'PyEval_RestoreThread'):
            cmd.append('-D%s=sim_%s' % (n, n))
        if p.endswith('dbf_reader.pyx'):
            pre = os.path.join(HERE, 'native', 'simio.h')
            cmd += ['-include', pre]
        cmd += ['-I.', '-I' + pyi, '-I' + npi, '-I' + d, '-o', c[:-2] + '.o', c]
        _run(cmd, cwd=dst, what='cc ' + p)
        _run(['gcc', '-shared', '-o', out, c[:-2] + '.o', '-L' + dst, '-lsimomp', '-Wl,-rpath,' + dst, '-lm'], what='ld ' + p)
        os.unlink(c[:-2] + '.o'); os.unlink(c)
    def comp_ser(p):
        out = os.path.join(dst, p[:-4] + EXT)
        so = os.path.join(REPO, p[:-4] + EXT)
        if p not in todo_cy and os.path.exists(so):
            shutil.copyfile(so, out)
            return
        d = os.path.dirname(os.path.join(dst, p))
        o = os.path.join(dst, p[:-4] + '.o')
        _run(['gcc', '-O1', '-g0', '-fPIC', '-shared', '-fwrapv', '-w', '-I.', '-I' + pyi, '-I' + npi, '-I' + d, '-o', out,
              os.path.join(dst, p[:-4] + '.c'), '-lm'], cwd=dst, what='cc ' + p)
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(comp_par, j) for j in sorted(par, key=lambda j: -len(j[1]))]
        a += [ex.submit(comp_ser, p) for p in ser]
        for f in a:
            f.result()
    for p in pyx:
        c = os.path.join(dst, p[:-4] + '.c')
        if os.path.exists(c):
            os.unlink(c)
    with open(os.path.join(dst, 'INFO'), 'w') as f:
        f.write('instrumented: %s\nreused-or-built serial: %s\ncythonized: %s\nseconds: %.1f\n' % (
            ' '.join(p for p, _ in par), ' '.join(ser), ' '.join(todo_cy), time.time() - t0))


def ensure(log=lambda m: sys.stderr.write('[build] %s\n' % m)):
    """Return (overlay path, key). Builds when needed."""
    root = cache_root()
    key = tree_key()
    dst = os.path.join(root, 'ov-' + key)
    lock = open(os.path.join(root, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        ok = os.path.join(dst, 'OK')
        if not os.path.exists(ok):
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            # keep the cache small
            olds = sorted((d for d in glob.glob(os.path.join(root, 'ov-*')) if os.path.isdir(d)), key=os.path.getmtime)
            keep = int(os.environ.get('LARCH_SIM_KEEP', '3'))
            for d in olds[:max(0, len(olds) - keep)]:
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(dst)
            t = time.time()
            _build(dst, log)
            open(ok, 'w').close()
            log('overlay %s built in %.1f s' % (key, time.time() - t))
        else:
            os.utime(dst)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return dst, key


if __name__ == '__main__':
    print(ensure()[0])

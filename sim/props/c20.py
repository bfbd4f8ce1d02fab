"""Models used by several threads at once give the results they give one after another."""
import copy, logging, os, random, warnings
import models as M, omp, engine, pysched
from props import c06, c18

ID = 'C20'
LEVEL = 'exploration'
BUDGET = {'quick': (700, 35), 'thorough': (30000, 1500)}
REAL = ['larch.Model (compiled engine)', 'larch.numba.Model', 'larch.DataFrames', 'parameter frame, linear functions, nesting tree', 'estimation (BHHH, scipy)']
STUB = ['thread scheduler: sim/pysched.py (real threads, switched by a seeded plan)', 'OpenMP runtime: libsimomp (seeded schedule)', 'numba worker pool: libsimpool']
ASSUMPTIONS = ['each model is used by one thread only', 'threads share one DataFrames object only if all of them use the numba engine (the object is bound to one compiled model at a time)', 'threads can be preempted between any two lines of Python code of larch; calls of compiled code are not interrupted']
KEY_MEASURE = 'distinct thread switch sequences of a run'
SHRINK_LISTS = (('plan', 'pre'), ('steps',), ('plan', 'stall'))
FILES = []


def warm():
    c06.warm()
    import larch
    FILES.append(os.path.dirname(larch.__file__) + os.sep)
    import importlib, pkgutil, larch.model, larch.numba, larch.util
    for pk in (larch.model, larch.numba, larch.util):
        for m in pkgutil.iter_modules(pk.__path__, pk.__name__ + '.'):
            if not m.ispkg:
                try:
                    importlib.import_module(m.name)     # threads must not wait for each other's imports
                except Exception:
                    pass
    for h in list(logging.getLogger('Larch').handlers):
        logging.getLogger('Larch').removeHandler(h)
    pysched.install()


def generate(rng, i, tier):
    c = c18.generate(rng, i, tier)
    c['steps'] = [s for s in c['steps'] if s.get('e') not in ('reshare', 'reload', 'scale', 'unscale', 'copy', 'drop', 'nt')]
    c['numba'] = [int(rng.random() < 0.5) for _ in c['specs']]
    if rng.random() < 0.3:
        c['numba'] = [1] * len(c['specs'])
    c['how'] = rng.choice(['same', 'own', 'service'])
    if c['how'] == 'same' and not all(c['numba']):
        c['how'] = 'own'    # a data table is bound to one model of the compiled engine at a time
    c['build'] = int(rng.random() < 0.5)    # models are built inside their threads
    c['plan'] = pysched.gen(rng, rng.choice([300, 2000, 8000]), stalls=False, jumps=False)
    return c


def run(case, world):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    omp.start(case['sched'])
    shared = M.make_dataframes(case['specs'][0])
    before = c18.snap(shared)
    n = len(case['specs'])
    Hs = [None] * n
    s = pysched.Sched(case['plan'], FILES, limit=5000000)

    def build(j):
        H = c06.History({'spec': case['specs'][j], 'numba': case['numba'][j]}, world)
        if case['how'] == 'same':
            H.m.dataframes = shared
        elif case['how'] == 'service':
            H.m.load_data(shared)
        Hs[j] = H
    if not case['build']:
        with pysched.creating(s):
            for j in range(n):
                build(j)

    def thread(j):
        def go():
            import numba
            numba.set_num_threads(4)    # the pool is not launched, so threads do not learn its size
            if case['build']:
                build(j)
            H = Hs[j]
            service = case['how'] == 'service'
            seq = []
            for st in case['steps']:
                if st['m'] != j:
                    continue
                e = st.get('e')
                if e == 'max':
                    ref = H.ref()
                    free = [k for k in ref.names if not H.hold[k]]
                    if not free:
                        continue
                    r = None
                    try:
                        r = H.m.maximize_loglike(method='l-bfgs-b', quiet=True, options={'maxiter': 2})
                    except Exception as x:
                        world.count('maximize:' + type(x).__name__)
                    for k in ref.names:
                        H.val[k] = float(H.m.pf.loc[k, 'value'])
                    if any(abs(v) > 15 or (k.startswith('mu_') and v < 0.05) for k, v in H.val.items()):
                        H.m.set_values(dict.fromkeys(free, 0.5))
                        H.val.update(dict.fromkeys(free, 0.5))
                    elif r is not None:
                        got, want = r['loglike'], ref.full([H.val[k] for k in ref.names], want=1)['ll']
                        world.check(abs(got - want) <= 1e-7 * max(1, abs(want)), 'loglike of estimation', lambda: 'thread %d after %s: %r, expected %r' % (j, seq, got, want))
                    seq.append('max')
                    continue
                if e:
                    if H.edit(st):
                        seq.append(e)
                    if e == 'data':
                        service = False
                    elif service:
                        H.m.load_data(shared)
                    continue
                ref = H.ref()
                if not ref.names:
                    continue
                S = engine.Session(H.m, ref.s, ref, numba=H.numba, tag='thread %d (%s engine) after %s' % (j, 'numba' if H.numba else 'compiled', seq))
                S.cur = H.val
                op = {'k': st['k']}
                if 'xs' in st:
                    v = H.values(st['xs'], ref.names)
                    v = {k: (H.val[k] if H.hold[k] else x) for k, x in v.items()}
                    if st['xf'] == 'part':
                        v = {k: x for i, (k, x) in enumerate(v.items()) if i % 2} or v
                    op['x'] = v
                    op['xf'] = st['xf']
                    if st['xf'] == 'array':
                        for k in H.m.pf.index:
                            H.val.setdefault(k, float(H.m.pf.loc[k, 'value']))
                            H.hold.setdefault(k, int(H.m.pf.loc[k, 'holdfast']))
                S.do(world, op)
                seq.append(st['k'])
        return go
    for j in range(n):
        s.spawn(thread(j))
    try:
        s.run(wall=120)
    except pysched.Deadlock as x:
        world.check(False, 'deadlock', lambda: str(x))
    after = c18.snap(shared)
    for k, v in before.items():
        same = (v is None) == (after[k] is None) or k == 'data_co'
        if v is not None and after[k] is not None:
            same = v.equals(after[k])
        world.check(same, 'shared data changed', lambda: '%s of the shared data is changed' % k)
    for k, v in s.faults.items():
        world.fault(k, v)
    world.count('steps', s.step)
    world.note(s.step)
    world.key(tuple(s.switches))


def simplify(case):
    for c in c18.simplify(case):
        if c['how'] == 'same' and not all(c['numba']):
            continue
        if c['how'] == case['how'] or case['how'] == 'service':
            yield c
    if case['build']:
        c = copy.deepcopy(case); c['build'] = 0
        yield c

"""Rate limits hold and timers are right under concurrent callers, stalls, errors and changes of the time of day."""
import copy, importlib, itertools, logging, os, re, warnings
import pysched

ID = 'C19'
LEVEL = 'exploration'
BUDGET = {'quick': (7000, 35), 'thorough': (150000, 1200)}
REAL = ['larch.util.rate_limiter', 'larch.util.timesize.Timer', 'larch.log timing (normal and verbose)']
STUB = ['thread scheduler: sim/pysched.py (real threads, switched by a seeded plan)', 'locks, time.sleep, monotonic clock, time of day']
ASSUMPTIONS = ['threads can be preempted between any two bytecodes', 'the monotonic clock never runs backwards']
KEY_MEASURE = 'distinct (kind, thread switch sequence) of a run'
SHRINK_LISTS = (('threads',), ('plan', 'pre'), ('plan', 'stall'), ('plan', 'jump'))
FILES = []


def warm():
    warnings.simplefilter('ignore')
    import larch
    for n in ('larch.util.rate_limiter', 'larch.util.timesize', 'larch.log.normal', 'larch.log.verbose'):
        m = importlib.import_module(n)
        FILES.append(m.__file__)
    lg = logging.getLogger('Larch')
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.propagate = False
    lg.setLevel(1)
    pysched.install()


def gen_ops(rng, kind, interval):
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.35:
            ops.append({'o': 'sleep', 'd': rng.choice([0, 0.01, interval / 3, interval * 0.999, interval, interval * 1.7, 100.0])})
        if kind == 'deco':
            ops.append({'o': 'call', 'f': rng.choice(['quick', 'quick', 'slow', 'raise', 'nested']), 'd': rng.choice([0.01, interval * 0.5, interval * 2.5, 7.0])})
        elif kind == 'mixed':
            ops.append({'o': rng.choice(['call', 'bool']), 'f': rng.choice(['quick', 'slow', 'raise']), 'd': rng.choice([0.01, interval * 0.5, interval * 2.5])})
        elif kind == 'global':
            ops.append({'o': 'next', 'tag': rng.choice('aab'), 'wait': int(rng.random() < 0.85)})
        else:
            ops.append({'o': kind})
    return ops


def generate(rng, i, tier):
    kind = rng.choice(['deco', 'deco', 'mixed', 'bool', 'block', 'block', 'global', 'timer', 'timer', 'log'])
    if kind in ('timer', 'log'):
        t = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 6)):
                if rng.random() < 0.5:
                    ops.append({'o': 'sleep', 'd': rng.choice([0, 0.01, 1.0, 59.99, 61.0, 4000.0, 90000.0])})
                if kind == 'timer':
                    ops.append({'o': rng.choice(['elapsed', 'elapsed', 'stop', 'restart', 'with'])})
                else:
                    ops.append({'o': rng.choice(['split', 'split', 'nested', 'raise', 'func'])})
            t.append(ops)
        return {'kind': kind, 'interval': 1.0, 'mod': rng.choice(['normal', 'verbose']), 'threads': t, 'op': 1, 'plan': pysched.gen(rng, 300)}
    interval = rng.choice([0, 0.1, 1.0, 2, 30.0])
    t = [gen_ops(rng, kind, interval) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    return {'kind': kind, 'interval': interval, 'threads': t, 'op': int(rng.random() < 0.7), 'plan': pysched.gen(rng, rng.choice([60, 200, 500]), jumps=False)}


def feasible(spans, interval):
    """Can times be picked from these closed spans so that all are at least an interval apart?"""
    eps = 1e-9
    spans = sorted(spans)
    n = len(spans)
    best = {0: float('-inf')}
    full = (1 << n) - 1
    frontier = {0: float('-inf')}
    while frontier:
        nxt = {}
        for mask, last in frontier.items():
            if mask == full:
                return True
            for j in range(n):
                if mask >> j & 1:
                    continue
                g = max(spans[j][0], last + interval if mask else spans[j][0])
                if g <= spans[j][1] + eps:
                    m = mask | 1 << j
                    if g < nxt.get(m, float('inf')):
                        nxt[m] = g
        frontier = nxt
        if full in frontier:
            return True
    return n == 0


class Boom(Exception):
    pass


def limiter_run(case, world, s):
    import larch.util.rate_limiter as R
    with pysched.creating(s):
        R = importlib.reload(R)
        kind, iv = case['kind'], case['interval']
        L = R.BlockingRateLimiter(iv) if kind == 'block' else R.NonBlockingRateLimiter(iv) if kind != 'global' else None
    calls = []      # [thread, what, start, entry, return]

    def body(x):
        x['entry'].append(s.now)
        if x['f'] == 'slow':
            t0 = s.now
            s.wait(None, s.now + x['d'])
        elif x['f'] == 'nested':
            y = {'t': x['t'], 'what': 'call', 'f': 'quick', 'd': 0, 'entry': [], 's': s.now, 'tag': None, 'err': 0}
            calls.append(y)
            y['r'] = f(y)
            y['e'] = s.now
        elif x['f'] == 'raise':
            raise Boom(x['t'])
        return 5
    if kind in ('deco', 'mixed'):
        with pysched.creating(s):
            f = L(body)

    def thread(j, ops):
        def go():
            for op in ops:
                if op['o'] == 'sleep':
                    s.point()
                    s.wait(None, s.now + op['d'])
                    continue
                x = {'t': j, 'what': op['o'], 'entry': [], 'f': op.get('f'), 'd': op.get('d'), 's': s.now, 'steps': s.step, 'stalled': s.stalled, 'tag': op.get('tag'), 'err': 0}
                calls.append(x)
                if op['o'] == 'call':
                    try:
                        f(x)
                    except Boom:
                        x['err'] = 1
                elif op['o'] == 'bool':
                    if L:
                        x['entry'].append(s.now)
                elif op['o'] == 'block':
                    next(L)
                    x['entry'].append(s.now)
                elif op['o'] == 'next':
                    if op['wait']:
                        R.GlobalRateLimiter(op['tag'], iv)
                        x['entry'].append(s.now)
                    else:
                        R.GlobalRateLimiter(op['tag'], iv, wait_now=False)
                        x['what'] = 'make'
                x['e'], x['steps2'], x['stalled2'] = s.now, s.step, s.stalled
        return go
    for j, ops in enumerate(case['threads']):
        s.spawn(thread(j, ops))
    try:
        s.run()
    except pysched.Deadlock as x:
        world.check(False, 'deadlock', lambda: '%s; calls so far %s' % (x, calls))
    except pysched.TooLong as x:
        world.check(False, 'no end', lambda: '%s; calls so far %s' % (x, calls))
    show = lambda: 'limiter %s of %s s; calls (thread, what, start, let through, end): %s' % (kind, iv, [(c['t'], c['what'], round(c['s'], 4), [round(z, 4) for z in c['entry']], round(c['e'], 4)) for c in calls])
    for tag in sorted({c['tag'] or '' for c in calls}):
        cs = [c for c in calls if (c['tag'] or '') == tag]
        passed = [(c['s'], c['entry'][0]) for c in cs if c['entry']]
        world.count('passes', len(passed))
        world.check(all(len(c['entry']) < 2 for c in cs), 'run twice', show)
        if len(passed) <= 14:
            world.check(feasible(passed, iv), 'more than one pass in an interval', show)
        for c in cs:
            if c['what'] in ('call', 'bool') and not c['entry']:
                world.count('refused')
                ok = any(a <= c['e'] + 1e-9 and b > c['s'] - iv - 1e-9 for a, b in passed)
                world.check(ok, 'refused without a pass in the interval', show)
                if 'steps' in c:
                    ran = (c['steps2'] - c['steps']) * s.tick + c['stalled2'] - c['stalled']
                    world.check(c['e'] - c['s'] <= ran + 1e-9, 'refused call had to wait', show)
            if c['what'] == 'call' and c['entry'] and c['f'] == 'raise':
                world.check(c['err'], 'error of the function lost', show)
    if kind in ('block', 'global'):
        for tag in sorted({c['tag'] or '' for c in calls}):
            p = sorted(c['entry'][0] for c in calls if c['entry'] and (c['tag'] or '') == tag)
            st = min([c['s'] for c in calls if c['entry'] and (c['tag'] or '') == tag], default=0)
            if p:
                lim = max(c['s'] for c in calls if c['entry']) + len(p) * iv + s.stalled + s.step * s.tick + 1e-6
                world.check(p[-1] <= lim, 'let through late', show)


def parse(t):
    m = re.fullmatch(r'(?:(\d+)d ?)?(?:(\d+)h ?)?(?:(\d+)m ?)?(?:(\d+\.\d\d)s)?', t)
    if not m or not t:
        return None
    d, h, mi, se = (float(x or 0) for x in m.groups())
    return d * 86400 + h * 3600 + mi * 60 + se


def timer_run(case, world, s):
    import larch.util.timesize as Z
    with pysched.creating(s):
        Z = importlib.reload(Z)
    seen = []

    def thread(j, ops):
        def go():
            a0 = s.now; T = Z.Timer(); a1 = s.now
            z = None
            for op in ops:
                o = op['o']
                if o == 'sleep':
                    s.point(); s.wait(None, s.now + op['d'])
                elif o == 'restart':
                    a0 = s.now; T.restart(); a1 = s.now; z = None
                elif o == 'stop':
                    z0 = s.now; T.stop(); z = (z0, s.now)
                elif o == 'with':
                    a0 = s.now
                    with T:
                        a1 = s.now
                        s.point(); s.wait(None, s.now + 2.0)
                        z0 = s.now
                    z = (z0, s.now)
                else:
                    e0 = s.now; v = T.elapsed().total_seconds(); e1 = s.now
                    if z:
                        e0, e1 = z
                    seen.append((j, v, e0 - a1, e1 - a0))
        return go
    for j, ops in enumerate(case['threads']):
        s.spawn(thread(j, ops))
    s.run()
    for j, v, lo, hi in seen:
        world.count('elapsed')
        world.check(lo - 2e-5 <= v <= hi + 2e-5, 'elapsed time', lambda: 'timer of thread %d gives %r s, but between %r and %r s went by' % (j, v, lo, hi))


def log_run(case, world, s):
    M = importlib.import_module('larch.log.' + case['mod'])
    with pysched.creating(s):
        import larch.util.timesize as Z
        importlib.reload(Z)
        M = importlib.reload(M)
    lg = logging.getLogger('Larch')
    for h in list(lg.handlers):
        lg.removeHandler(h)
    got, want = {}, {}

    class H(logging.Handler):
        def createLock(self):
            self.lock = None

        def emit(self, r):
            t = pysched.current()
            got.setdefault(t.name if t else 'main', []).append((r.getMessage(), s.now))
    lg.addHandler(H())
    lg.setLevel(1)

    def thread(j, ops):
        name = 't%d' % j
        got[name] = []
        want[name] = w = []

        def expect(f, a0, a1, e0):
            w.append((len(got[name]) - 1, e0 - a1, s.now - a0))

        def go():
            a0 = s.now
            T = M.TimingLog('job %d' % j)
            T.__enter__()
            a1 = s.now
            p0, p1 = a0, a1
            for op in ops:
                o = op['o']
                if o == 'sleep':
                    s.point(); s.wait(None, s.now + op['d'])
                elif o == 'split':
                    e0 = s.now; T.split('x'); w.append((got[name][-1][0], e0 - p1, s.now - p0)); p0, p1 = e0, s.now
                else:
                    b0 = s.now
                    try:
                        if o == 'func':
                            with M.timing_log('f'):
                                b1 = s.now; s.point(); s.wait(None, s.now + 1.0); e0 = s.now
                        else:
                            with M.TimingLog('n'):
                                b1 = s.now; s.point(); s.wait(None, s.now + 3.5); e0 = s.now
                                if o == 'raise':
                                    raise Boom
                    except Boom:
                        pass
                    w.append((got[name][-1][0], e0 - b1, s.now - b0))
            e0 = s.now
            T.__exit__(None, None, None)
            w.append((got[name][-1][0], e0 - a1, s.now - a0))
        return go
    for j, ops in enumerate(case['threads']):
        s.spawn(thread(j, ops), 't%d' % j)
    try:
        s.run()
    finally:
        for h in list(lg.handlers):
            lg.removeHandler(h)
    for name, w in want.items():
        for msg, lo, hi in w:
            v = parse(msg.rsplit('<', 1)[-1].rstrip('>'))
            world.count('timings')
            world.check(v is not None and lo - 0.011 <= v <= hi + 0.011, 'logged time', lambda: '%r was logged, but between %.2f and %.2f s went by' % (msg, lo, hi))


def run(case, world):
    s = pysched.Sched(case['plan'], FILES, opcodes=bool(case['op']))
    kind = case['kind']
    if kind == 'timer':
        timer_run(case, world, s)
    elif kind == 'log':
        log_run(case, world, s)
    else:
        limiter_run(case, world, s)
    for k, v in s.faults.items():
        world.fault(k, v)
    if any(o.get('f') == 'raise' for t in case['threads'] for o in t):
        world.fault('function raises')
    world.count('steps', s.step)
    world.simtime += s.now - case['plan'].get('base', 0.0)
    world.note(s.step, s.now)
    world.key((kind, tuple(s.switches)))


def simplify(case):
    if case['op']:
        c = copy.deepcopy(case); c['op'] = 0
        yield c
    for j, t in enumerate(case['threads']):
        for i in range(len(t)):
            if len(t) > 1:
                c = copy.deepcopy(case); c['threads'][j].pop(i)
                yield c
    if case['plan']['base']:
        c = copy.deepcopy(case); c['plan']['base'] = 0.0
        yield c

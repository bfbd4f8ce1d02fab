"""Runner for the simulation checks.

A *case* is a JSON object.  It is generated from hash(VERIF_SEED, property, index) and
nothing else, and a run is a function of its case: the run happens in a forked child of
one warmed parent, with every source of nondeterminism behind a seam that draws from the
case.  A violation is reported with the (minimised) case as replay file.
"""
import os, sys, json, time, random, hashlib, signal, resource, traceback, mmap, struct, select, shutil, tempfile, copy, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    """The property does not hold in this run."""
    def __init__(self, cls, detail=''):
        super().__init__('%s: %s' % (cls, detail))
        self.cls = cls
        self.detail = str(detail)


class HarnessError(Exception):
    pass


def derive_rng(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class World:
    """What one run may use: counters, scratch space, and the record of what was injected."""
    def __init__(self, case, scratch):
        self.case = case
        self.scratch = scratch
        self.faults = {}
        self.counts = {}
        self.keys = set()
        self.simtime = 0.0
        self.h = hashlib.sha256()
        self.extra = {}

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + int(n)

    def count(self, kind, n=1):
        if n:
            self.counts[kind] = self.counts.get(kind, 0) + n

    def note(self, *x):
        """Mix an observation into the digest of this run."""
        self.h.update(repr(x).encode())

    def key(self, *x):
        """Record a distinct state or interleaving reached."""
        self.keys.add(hashlib.sha256(repr(x).encode()).hexdigest()[:12])

    def check(self, cond, cls, detail=''):
        self.count('checks')
        if not cond:
            raise Violation(cls, detail() if callable(detail) else detail)

    def report(self):
        return dict(faults=self.faults, counts=self.counts, keys=sorted(self.keys)[:64], nkeys=len(self.keys),
                    simtime=self.simtime, digest=self.h.hexdigest()[:16], extra=self.extra)


# ----------------------------------------------------------------- one run --
CPU_LIMIT = 90
WALL_LIMIT = 240


def _scratch_root():
    return tempfile.gettempdir()


def run_case(prop, case, want=None, cpu=None):
    """Run one case in a forked child; return a result dict."""
    scratch = tempfile.mkdtemp(prefix='larchsim-', dir=_scratch_root())
    r, w = os.pipe()
    err = os.memfd_create('err')
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            c = cpu or getattr(prop, 'CPU_LIMIT', CPU_LIMIT)
            resource.setrlimit(resource.RLIMIT_CPU, (c, c + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            if not os.environ.get('LARCH_SIM_VERBOSE'):
                os.dup2(err, 1); os.dup2(err, 2)
            os.chdir(scratch)
            world = World(case, scratch)
            if want:
                world.extra['want'] = want
            out = {}
            try:
                seed = case.get('seed', 0)
                random.seed(seed)
                try:
                    import numpy
                    numpy.random.seed(seed % (2 ** 32))
                except ImportError:
                    pass
                prop.run(case, world)
                out = {'ok': True}
            except Violation as v:
                out = {'ok': False, 'cls': v.cls, 'detail': v.detail[:2000]}
            except HarnessError:
                out = {'ok': None, 'err': traceback.format_exc()[-3000:]}
            except BaseException as e:
                # an exception of the code under test that nothing in the property allows
                if isinstance(e, MemoryError):
                    out = {'ok': None, 'err': 'MemoryError'}
                else:
                    out = {'ok': False, 'cls': 'unexpected-exception:%s' % type(e).__name__,
                           'detail': traceback.format_exc()[-1800:]}
            if hasattr(prop, 'finish'):
                try:
                    prop.finish(case, world)
                except BaseException:
                    pass
            world.extra.pop('want', None)
            out.update(world.report())
            data = json.dumps(out, default=str).encode()
            os.write(w, struct.pack('<I', len(data)))
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv[:65536]); mv = mv[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    t0 = time.monotonic()
    timed = False
    while True:
        left = WALL_LIMIT - (time.monotonic() - t0)
        rl, _, _ = select.select([r], [], [], max(0, left))
        if not rl:
            timed = True
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    n = os.lseek(err, 0, os.SEEK_END)
    os.lseek(err, max(0, n - 1500), os.SEEK_SET)
    tail = os.read(err, 1500).decode('utf8', 'replace')
    os.close(err)
    shutil.rmtree(scratch, ignore_errors=True)
    if timed:
        return {'ok': None, 'err': 'wall limit'}
    if len(buf) >= 4:
        k = struct.unpack('<I', buf[:4])[0]
        if len(buf) >= 4 + k:
            return json.loads(buf[4:4 + k])
    base = dict(faults={}, counts={}, keys=[], nkeys=0, simtime=0, digest='', extra={})
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT):
            return dict(base, ok=False, cls='process-died:%s' % signal.Signals(s).name, detail=tail)
        if s == signal.SIGXCPU:
            return dict(base, ok=False, cls='no-progress:cpu-budget', detail='more than %d s of CPU' % (cpu or CPU_LIMIT))
        return {'ok': None, 'err': 'signal %d\n%s' % (s, tail)}
    c = os.WEXITSTATUS(st)
    if c == 77:
        return dict(base, ok=False, cls='no-progress:scheduler', detail=tail)
    return {'ok': None, 'err': 'exit %d\n%s' % (c, tail)}


# --------------------------------------------------------------- campaign --
def campaign(prop, seed, tier, nruns, wall, workers, known, progress=None):
    """Run cases 0..nruns-1 over worker processes. Returns aggregate."""
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack('<q', nruns)       # indices >= this need not run
    t0 = time.monotonic()
    pipes = []
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                for fd, _ in pipes:
                    os.close(fd)
                f = os.fdopen(w, 'w')
                i = wk
                while i < struct.unpack('<q', shared[:8])[0] and time.monotonic() - t0 < wall:
                    case = make_case(prop, seed, i, tier)
                    t = time.monotonic()
                    res = run_case(prop, case)
                    res['i'] = i
                    res['t'] = time.monotonic() - t
                    if res.get('ok') is False and not match_known(known, prop.ID, res, case):
                        cur = struct.unpack('<q', shared[:8])[0]
                        if i < cur:
                            shared[:8] = struct.pack('<q', i)
                    f.write(json.dumps(res) + '\n')
                    f.flush()
                    i += workers
                f.close()
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        os.close(w)
        pipes.append((r, pid))
    bufs = {r: b'' for r, _ in pipes}
    openfds = set(bufs)
    results = []
    last = time.monotonic()
    while openfds:
        rl, _, _ = select.select(list(openfds), [], [], 5)
        for r in rl:
            b = os.read(r, 1 << 16)
            if not b:
                openfds.discard(r)
                continue
            bufs[r] += b
            *lines, bufs[r] = bufs[r].split(b'\n')
            for ln in lines:
                results.append(json.loads(ln))
        if progress and time.monotonic() - last > 20:
            last = time.monotonic()
            progress(results)
    bad_worker = False
    for r, pid in pipes:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st:
            bad_worker = True
    results.sort(key=lambda x: x['i'])
    return results, time.monotonic() - t0, bad_worker


def make_case(prop, seed, i, tier):
    rng = derive_rng(seed, prop.ID, i)
    case = prop.generate(rng, i, tier)
    case.setdefault('seed', rng.getrandbits(48))
    case['property'] = prop.ID
    case['index'] = i
    case['campaign_seed'] = seed
    return json.loads(json.dumps(case))      # exactly what the replay file will hold


# --------------------------------------------------------- known findings --
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def match_known(known, pid, res, case):
    for k in known:
        if k['property'] != pid:
            continue
        if not re.fullmatch(k['class'], res['cls']):
            continue
        if k.get('detail') and not re.search(k['detail'], res.get('detail', ''), re.S):
            continue
        return k
    return None


# ------------------------------------------------------------- minimising --
def ddmin(items, test, deadline):
    """Zeller's ddmin on a list; test(list)->bool (still fails)."""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(n * 2, len(items))
    return items


def minimise(prop, case, cls, budget=90):
    deadline = time.monotonic() + budget
    tries = [0]

    def fails(c):
        tries[0] += 1
        try:
            c = json.loads(json.dumps(c))
            res = run_case(prop, c)
        except Exception:
            return False
        return res.get('ok') is False and res['cls'] == cls
    best = case
    # 1. lists of steps and faults
    for path in getattr(prop, 'SHRINK_LISTS', ()):
        cur = best
        for p in path[:-1]:
            cur = (cur or {}).get(p, {})
        lst = (cur or {}).get(path[-1]) if isinstance(cur, dict) else None
        if not isinstance(lst, list) or not lst:
            continue

        def test(cand):
            c = copy.deepcopy(best)
            d = c
            for p in path[:-1]:
                d = d[p]
            d[path[-1]] = cand
            return fails(c)
        out = ddmin(lst, test, deadline)
        c = copy.deepcopy(best)
        d = c
        for p in path[:-1]:
            d = d[p]
        d[path[-1]] = out
        best = c
    # 2. property specific simplifications
    if hasattr(prop, 'simplify'):
        again = True
        while again and time.monotonic() < deadline:
            again = False
            for cand in prop.simplify(copy.deepcopy(best)):
                if time.monotonic() > deadline:
                    break
                if cand != best and fails(cand):
                    best = cand
                    again = True
                    break
    # 3. the interleaving itself
    if hasattr(prop, 'schedule_log') and best.get('sched', {}).get('on') and not best['sched'].get('replay'):
        res = run_case(prop, best, want='omplog')
        log = res.get('extra', {}).get('omplog')
        if log and res.get('ok') is False:
            c = copy.deepcopy(best)
            c['sched']['replay'] = log
            if fails(c):
                def test(cand):
                    c2 = copy.deepcopy(best); c2['sched']['replay'] = cand
                    return fails(c2)
                out = ddmin(log, test, deadline)
                c['sched']['replay'] = out
                best = c
    return best, tries[0]


# ------------------------------------------------------------------- main --
def tier_of(args):
    if args.tier:
        return args.tier
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def main(prop, args, info):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = tier_of(args)
    t_start = time.monotonic()
    prop.warm()
    t_warm = time.monotonic() - t_start
    known = load_known()
    if args.replay:
        with open(args.replay) as f:
            doc = json.load(f)
        case = doc.get('case', doc)
        res = run_case(prop, case)
        print(json.dumps({k: res.get(k) for k in ('ok', 'cls', 'detail', 'err', 'digest')}, indent=1))
        if res.get('ok') is False:
            same = doc.get('digest') in (None, res.get('digest')) and doc.get('class') in (None, res['cls'])
            print('replay %s' % ('reproduces the recorded run exactly' if same else 'fails, but differs from the record'))
            print('VIOLATION property=%s replay=%s' % (prop.ID, args.replay))
            return 1
        return 0 if res.get('ok') else 3
    if args.index is not None:
        case = make_case(prop, seed, args.index, tier)
        res = run_case(prop, case)
        print(json.dumps(case)[:3000])
        print(json.dumps(res, indent=1)[:6000])
        return 0 if res.get('ok') else 1
    nruns, wall = prop.BUDGET[tier]
    if args.runs:
        nruns = args.runs
    if args.wall:
        wall = args.wall
    workers = int(os.environ.get('LARCH_SIM_WORKERS', '8'))
    kf_lines = []
    for k in known:
        if k['property'] != prop.ID or not k.get('replay'):
            continue
        with open(os.path.join(VERIF, k['replay'])) as f:
            doc = json.load(f)
        res = run_case(prop, doc.get('case', doc))
        if res.get('ok') is False and match_known([k], prop.ID, res, doc):
            kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))
        elif res.get('ok') is False:
            path = save_replay(prop, doc.get('case', doc), res, 'known', 0)
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            print('  %s: %s' % (res['cls'], res['detail'][:600]))
            return 1
        # when a recorded finding no longer fails there is nothing to report
    results, wall_used, bad_worker = campaign(
        prop, seed, tier, nruns, wall, workers, known,
        progress=lambda rs: sys.stderr.write('[%s] %d runs\n' % (prop.ID, len(rs))))
    for ln in kf_lines:
        print(ln)
    viol = [r for r in results if r.get('ok') is False and not match_known(known, prop.ID, r, None)]
    errs = [r for r in results if r.get('ok') is None]
    rc = 0
    vinfo = []
    if viol:
        rc = 3
        for r in viol[:4]:
            case = make_case(prop, seed, r['i'], tier)
            again = run_case(prop, case)
            if again.get('ok') is False and again['cls'] == r['cls']:
                budget = 60 if tier == 'quick' else 240
                if args.no_min:
                    budget = 0
                mini, tries = minimise(prop, case, r['cls'], budget) if budget else (case, 0)
                final = run_case(prop, mini)
                final2 = run_case(prop, mini)
                if final.get('ok') is not False:
                    mini, final = case, again
                path = save_replay(prop, mini, final, seed, r['i'], tries=tries)
                print('VIOLATION property=%s replay=%s' % (prop.ID, path))
                print('  run %d of seed %s, %s' % (r['i'], seed, final['cls']))
                print('  ' + final['detail'][:1500].replace('\n', '\n  '))
                vinfo.append({'class': final['cls'], 'detail': final['detail'][:400], 'replay': path, 'run': r['i'],
                              'replay_exact': final.get('digest') == final2.get('digest')})
                rc = 1
                break
            sys.stderr.write('run %d failed (%s) but did not fail again: %s\n' % (r['i'], r['cls'], again.get('cls')))
    if errs and rc == 0:
        # give the harness one more chance: a run may have been ended by the memory guard
        still = []
        for r in errs[:20]:
            again = run_case(prop, make_case(prop, seed, r['i'], tier))
            if again.get('ok') is None:
                still.append((r['i'], again['err']))
            elif again.get('ok') is False and not match_known(known, prop.ID, again, None):
                case = make_case(prop, seed, r['i'], tier)
                path = save_replay(prop, case, again, seed, r['i'])
                print('VIOLATION property=%s replay=%s' % (prop.ID, path))
                rc = 1
                break
        if rc == 0 and (still or len(errs) > 20):
            for i, e in still[:3]:
                sys.stderr.write('harness error in run %d: %s\n' % (i, e))
            rc = 3
    if bad_worker and rc == 0:
        rc = 3
    # determinism of the simulator itself, on a sample of runs
    ndet = 0
    det_bad = []
    if rc == 0:
        good = [r for r in results if r.get('ok')]
        for r in good[::max(1, len(good) // 6)][:6]:
            again = run_case(prop, make_case(prop, seed, r['i'], tier))
            ndet += 1
            if again.get('digest') != r.get('digest'):
                det_bad.append(r['i'])
        if det_bad:
            sys.stderr.write('warning: runs not repeatable: %s\n' % det_bad)
    write_evidence(prop, seed, tier, results, wall_used, t_warm, vinfo, kf_lines, info, ndet, det_bad, known,
                   time.monotonic() - t_start)
    sys.stderr.write('[%s] %d runs in %.1f s, rc=%d\n' % (prop.ID, len(results), wall_used, rc))
    return rc


def save_replay(prop, case, res, seed, i, tries=0):
    d = os.path.join(VERIF, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%s.json' % (prop.ID, seed, i))
        f = open(p, 'w')
    except OSError:
        d = tempfile.mkdtemp(prefix='replay-')
        p = os.path.join(d, '%s-%s-%s.json' % (prop.ID, seed, i))
        f = open(p, 'w')
    with f:
        json.dump({'property': prop.ID, 'class': res['cls'], 'detail': res['detail'], 'digest': res.get('digest'),
                   'minimiser_runs': tries, 'case': case,
                   'how': 'python3 /verif/check.py %s --replay %s' % (prop.ID, p)}, f, indent=1)
    return p


def write_evidence(prop, seed, tier, results, wall_used, t_warm, vinfo, kf, info, ndet, det_bad, known, wall_total):
    faults, counts, keys = {}, {}, set()
    simtime = 0.0
    digests = set()
    for r in results:
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        keys.update(r.get('keys', ()))
        simtime += r.get('simtime', 0) or 0
        if r.get('digest'):
            digests.add(r['digest'])
    n = len(results)
    samples = []
    for r in results[:3]:
        c = make_case(prop, seed, r['i'], tier)
        s = json.dumps(c)
        samples.append({'run': r['i'], 'case': json.loads(s) if len(s) < 3000 else s[:3000],
                        'faults': r.get('faults', {}), 'digest': r.get('digest')})
    doc = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': int(counts.get('checks', 0)) or n,
            'distinct_nontrivial': len(digests),
            'rule': getattr(prop, 'RULE', 'distinct digests of the complete recorded history of a run; %s' % prop.KEY_MEASURE),
            'samples': samples,
            'simulated_runs': n,
            'runs_per_hour': int(n / max(wall_used, 1e-9) * 3600),
            'seeds_per_hour': int(n / max(wall_used, 1e-9) * 3600),
            'simulated_time_s': round(simtime, 3),
            'faults_injected': faults,
            'counters': counts,
            'distinct_states_or_interleavings': {'count': len(keys), 'measure': prop.KEY_MEASURE,
                                                 'note': 'at most 64 per run are kept'},
            'real_components': prop.REAL, 'stubbed_components': prop.STUB,
            'overlay': info, 'repeatability_sample': {'runs_repeated': ndet, 'not_identical': det_bad},
            'known_findings': kf, 'violation_details': vinfo, 'warm_s': round(t_warm, 1),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall_total, 1),
        'violations': len(vinfo),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.ID + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)

"""Control of the simulated OpenMP team (libsimomp) and numba pool (libsimpool)."""
import ctypes, os

OV = os.environ.get('LARCH_SIM_OVERLAY', '')


class Cfg(ctypes.Structure):
    _fields_ = [('seed', ctypes.c_uint64), ('enabled', ctypes.c_int), ('interval', ctypes.c_int), ('conflict_pct', ctypes.c_int),
                ('team_mode', ctypes.c_int), ('team_arg', ctypes.c_int), ('default_team', ctypes.c_int), ('sched_mode', ctypes.c_int),
                ('chunk', ctypes.c_int), ('order_mode', ctypes.c_int), ('replay', ctypes.c_int), ('step_cap', ctypes.c_longlong)]


class St(ctypes.Structure):
    _fields_ = [(k, ctypes.c_longlong) for k in (
        'regions', 'teams_gt1', 'switches', 'preemptions', 'conflict_preempts', 'steps', 'conflicts', 'shrunk_teams',
        'chunks', 'barriers', 'lock_waits', 'io_faults', 'io_calls')]


class Sw(ctypes.Structure):
    _fields_ = [('region', ctypes.c_int), ('from_', ctypes.c_int), ('to', ctypes.c_int), ('step', ctypes.c_longlong)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(OV, 'libsimomp.so'), mode=ctypes.RTLD_GLOBAL)
        _lib.sim_trace_hash.restype = ctypes.c_uint64
        _lib.sim_io_fired.restype = ctypes.c_longlong
        _lib.sim_io_count.restype = ctypes.c_longlong
        _lib.sim_io_plan.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong, ctypes.c_int]
    return _lib


def gen_sched(rng, serial_pct=10):
    """Draw a schedule configuration."""
    if rng.randrange(100) < serial_pct:
        return {'on': 0}
    return {'on': 1, 'seed': rng.getrandbits(48),
            'interval': rng.choice([3, 7, 20, 60, 200, 1000, 0]),
            'conflict_pct': rng.choice([0, 20, 50, 90]),
            'team_mode': rng.choice([0, 0, 1, 2]), 'team_arg': rng.randint(1, 6),
            'sched_mode': rng.choice([0, 1, 1, 2, 3, 4]), 'chunk': rng.choice([0, 0, 1, 2, 5]),
            'order_mode': rng.randrange(3), 'pool_mode': rng.randrange(4)}


def start(s, step_cap=40_000_000):
    L = lib()
    c = Cfg(seed=s.get('seed', 1), enabled=s.get('on', 0), interval=s.get('interval', 0), conflict_pct=s.get('conflict_pct', 0),
            team_mode=s.get('team_mode', 0), team_arg=s.get('team_arg', 0), default_team=4, sched_mode=s.get('sched_mode', 0),
            chunk=s.get('chunk', 0), order_mode=s.get('order_mode', 0), replay=1 if s.get('replay') is not None else 0,
            step_cap=step_cap)
    L.sim_configure(ctypes.byref(c))
    if s.get('replay') is not None:
        arr = (Sw * max(1, len(s['replay'])))()
        for i, (a, b, t, st) in enumerate(s['replay']):
            arr[i] = Sw(a, b, t, st)
        L.sim_set_replay(arr, len(s['replay']))
    L.sim_stats_reset()
    p = os.path.join(OV, 'libsimpool.so')
    if _pool is not None:
        _pool.simpool_config(ctypes.c_uint64(s.get('seed', 1)), s.get('on', 0), 4, s.get('pool_mode', 0))
        _pool.simpool_stats_reset()


def log():
    L = lib()
    arr = (Sw * 200000)()
    n = L.sim_log(arr, 200000)
    return [[arr[i].region, arr[i].from_, arr[i].to, arr[i].step] for i in range(min(n, 200000))]


def stop(world):
    """Account for what the scheduler did in this run."""
    L = lib()
    s = St()
    L.sim_stats(ctypes.byref(s))
    world.fault('thread-preemption', s.preemptions)
    world.fault('preemption-at-shared-memory', s.conflict_preempts)
    world.fault('team-smaller-than-requested', s.shrunk_teams)
    world.count('parallel-regions', s.regions)
    world.count('regions-with-a-team', s.teams_gt1)
    world.count('scheduling-points', s.steps)
    world.count('work-chunks', s.chunks)
    h = L.sim_trace_hash()
    world.note('omp', h, s.switches, s.steps)
    if s.switches:
        world.key('omp', h)
    if _pool is not None:
        a = (ctypes.c_longlong * 3)()
        _pool.simpool_stats(a)
        world.count('pool-calls', a[0]); world.count('pool-chunks', a[1])
        world.fault('pool-work-repartitioned', a[2])
        _pool.simpool_hash.restype = ctypes.c_uint64
        hh = _pool.simpool_hash()
        world.note('pool', hh)
        if a[2]:
            world.key('pool', hh)
    if world.extra.get('want') == 'omplog':
        world.extra['omplog'] = log()


_pool = None


def install_pool():
    """Put the simulated pool behind numba's parallel backend (before anything is compiled)."""
    global _pool
    if _pool is not None:
        return
    import llvmlite.binding as ll
    import numba.np.ufunc.parallel as P
    from numba.np.ufunc import workqueue as wq
    _pool = ctypes.CDLL(os.path.join(OV, 'libsimpool.so'))
    addr = ctypes.cast(_pool.simpool_parallel_for, ctypes.c_void_p).value

    def launch():
        if P._is_initialized:
            return
        ll.add_symbol('numba_parallel_for', addr)
        ll.add_symbol('do_scheduling_signed', wq.do_scheduling_signed)
        ll.add_symbol('do_scheduling_unsigned', wq.do_scheduling_unsigned)
        ll.add_symbol('allocate_sched', wq.allocate_sched)
        ll.add_symbol('deallocate_sched', wq.deallocate_sched)
        P._load_threading_functions(wq)
        P._threading_layer = 'simpool'
        P._is_initialized = True
    P._launch_threads = launch
    launch()

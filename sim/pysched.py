"""Seeded scheduler for Python threads: real threads, one running at a time, switched only where the case says so.

A step is one traced line (or bytecode) of the files under simulation, or an operation on a lock or clock made
from them.  At the steps a case lists, the running thread is preempted, everything stalls for a while, or the time of
day jumps.  Locks made by simulated threads, time.sleep and the clocks of `time` and `datetime` are simulated.
"""
import sys, time, threading, _thread, datetime as _dt

real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns', 'perf_counter_ns')}
real_Lock, real_RLock, real_datetime = threading.Lock, threading.RLock, _dt.datetime
_alloc = _thread.allocate_lock
_tls = threading.local()


class Abort(BaseException):
    """Unwinds a simulated thread when the run has ended early."""


class Deadlock(Exception):
    pass


class TooLong(Exception):
    pass


def current():
    return getattr(_tls, 'thread', None)


class Thread:
    def __init__(self, sched, fn, name):
        self.sched, self.fn, self.name = sched, fn, name
        self.state = 'ready'      # ready, wait (for a lock), sleep, done
        self.lock = None
        self.until = None
        self.result = self.error = None
        self.baton = _alloc()
        self.baton.acquire()

    def main(self):
        self.baton.acquire()
        _tls.thread = self
        s = self.sched
        try:
            if not s.aborting:
                sys.settrace(s.trace)
                self.result = self.fn()
        except Abort:
            pass
        except BaseException as x:
            self.error = x
        finally:
            sys.settrace(None)
            _tls.thread = None
            self.state = 'done'
            s.leave()


def gen(rng, steps=400, stalls=True, jumps=True):
    """Where to preempt, stall and jump."""
    n = rng.choice([0, 1, 2, 3, 5, 8, 16, 40])
    out = {'pre': sorted([rng.randrange(1, steps), rng.randrange(8)] for _ in range(n)),
           'first': rng.randrange(8), 'base': rng.choice([0.0, 0.25, 1000.0, 86400.0 * 30]), 'wall': 1.7e9 + rng.randrange(10**6),
           'stall': [], 'jump': []}
    if stalls and rng.random() < 0.5:
        out['stall'] = sorted([rng.randrange(1, steps), rng.choice([0.05, 0.5, 1.0, 3.0, 30.0, 4000.0])] for _ in range(rng.randint(1, 4)))
    if jumps and rng.random() < 0.6:
        out['jump'] = sorted([rng.randrange(1, steps), rng.choice([-3600.0, 3600.0, -5.0, 5.0, -0.5, 86400.0, -86400.0 * 400])] for _ in range(rng.randint(1, 3)))
    return out


class Sched:
    def __init__(self, plan, files, opcodes=False, tick=1e-6, limit=200000):
        self.files = tuple(files)
        self.opcodes = opcodes
        self.pre = {s: c for s, c in plan.get('pre', ())}
        self.stall = {s: c for s, c in plan.get('stall', ())}
        self.jump = {s: c for s, c in plan.get('jump', ())}
        self.first = plan.get('first', 0)
        self.now = plan.get('base', 0.0)
        self.wall = plan.get('wall', 1.7e9) - self.now
        self.tick, self.limit = tick, limit
        self.step = 0
        self.threads = []
        self.cur = None
        self.done = _alloc()
        self.done.acquire()
        self.error = None
        self.aborting = False
        self.faults = {}
        self.switches = []
        self.quiet = 0
        self.stalled = 0.0

    # --- set up and run
    def spawn(self, fn, name=None):
        t = Thread(self, fn, name or 't%d' % len(self.threads))
        self.threads.append(t)
        return t

    def run(self, wall=60):
        import threading as th
        rt = [_thread.start_new_thread(t.main, ()) for t in self.threads]
        del rt
        self.cur = self.pick(self.first)
        self.cur.baton.release()
        if not self.done.acquire(timeout=wall):
            raise RuntimeError('simulated threads did not come to an end in %s s of real time' % wall)
        if self.error is not None:
            raise self.error
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def ready(self, t):
        if t.state == 'ready':
            return True
        if t.state in ('sleep', 'wait') and t.until is not None and t.until <= self.now:
            return True
        return t.state == 'wait' and t.lock._free(t)

    def pick(self, choice):
        r = [t for t in self.threads if self.ready(t)]
        if not r:
            w = [t.until for t in self.threads if t.state in ('sleep', 'wait') and t.until is not None]
            if not w:
                return None
            self.now = max(self.now, min(w))
            r = [t for t in self.threads if self.ready(t)]
        return r[choice % len(r)]

    def _give(self, t):
        self.cur = t
        self.switches.append((self.step, t.name))
        t.baton.release()

    def leave(self):
        """The running thread has come to its end."""
        left = [t for t in self.threads if t.state != 'done']
        if not left:
            self.done.release()
            return
        if self.aborting:
            left[0].baton.release()
            return
        t = self.pick(self.step)
        if t is None:
            self.abort(Deadlock('all of %s wait for locks that are never released' % ', '.join(x.name for x in left)))
            left[0].baton.release()
            return
        self._give(t)

    def abort(self, err):
        if self.error is None:
            self.error = err
        self.aborting = True

    def _switch(self, choice, me):
        t = self.pick(choice)
        if t is None:
            self.abort(Deadlock('all of %s wait for locks that are never released' % ', '.join(x.name for x in self.threads if x.state != 'done')))
            raise Abort
        if t is me:
            return
        self._give(t)
        me.baton.acquire()
        if self.aborting:
            raise Abort

    def point(self):
        """One step of the running thread."""
        me = current()
        if me is None or self.aborting or self.quiet:
            return
        self.step += 1
        self.now += self.tick
        if self.step > self.limit:
            self.abort(TooLong('no end after %d steps' % self.limit))
            raise Abort
        d = self.stall.get(self.step)
        if d:
            self.now += d
            self.stalled += d
            self.faults['stall'] = self.faults.get('stall', 0) + 1
        d = self.jump.get(self.step)
        if d:
            self.wall += d
            self.faults['time of day jump'] = self.faults.get('time of day jump', 0) + 1
        c = self.pre.get(self.step)
        if c is not None:
            self.faults['preemption'] = self.faults.get('preemption', 0) + 1
            me.state = 'ready'
            others = [t for t in self.threads if t is not me and self.ready(t)]
            if others:
                t = others[c % len(others)]
                self._give(t)
                me.baton.acquire()
                if self.aborting:
                    raise Abort

    def wait(self, lock=None, until=None):
        me = current()
        me.state, me.lock, me.until = ('wait' if lock is not None else 'sleep'), lock, until
        self._switch(self.step, me)
        me.state, me.lock, me.until = 'ready', None, None

    # --- tracing
    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.files) or frame.f_code.co_name == '<module>':
            return None     # no switches while a module is imported: its thread holds a lock of the interpreter
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point()
        return self.local

    def inside(self, depth=2):
        return sys._getframe(depth).f_code.co_filename.startswith(self.files)


class SimLock:
    def __init__(self):
        self.owner = None

    def _free(self, t):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            if self.owner is not None:
                if not blocking:
                    return False
                raise Deadlock('a lock is still held after all threads ended')
            self.owner = 'main'
            return True
        s = t.sched
        s.point()
        until = None if timeout is None or timeout < 0 else s.now + timeout
        while self.owner is not None:
            if not blocking or (until is not None and s.now >= until):
                return False
            s.wait(self, until)
        self.owner = t
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        t = current()
        if t is not None and not t.sched.aborting:
            t.sched.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = current() or 'main'
        if self.owner is me:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if self.owner is not (current() or 'main'):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            super().release()

    def _is_owned(self):
        return self.owner is (current() or 'main')

    def _release_save(self):
        n, self.count = self.count, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


_creating = [None]    # the scheduler whose main thread makes objects under test


def _sched():
    t = current()
    return t.sched if t is not None else _creating[0]


def install():
    """Route locks, sleeping and clocks of simulated threads to their scheduler; other threads are not affected."""
    if getattr(threading, '_larch_sim', False):
        return
    threading._larch_sim = True
    threading.Lock = lambda: SimLock() if _sched() else real_Lock()
    threading.RLock = lambda *a, **k: SimRLock() if _sched() else real_RLock(*a, **k)

    def clock(name, read, ns):
        def f():
            s = _sched()
            if s is None:
                return real[name]()
            if s.inside():
                s.point()
            v = read(s)
            return int(v * 1e9) if ns else v
        f.__name__ = name
        setattr(time, name, f)
    for name in ('monotonic', 'perf_counter'):
        clock(name, lambda s: s.now, False)
        clock(name + '_ns', lambda s: s.now, True)
    clock('time', lambda s: s.wall + s.now, False)
    clock('time_ns', lambda s: s.wall + s.now, True)

    def sleep(d):
        t = current()
        if t is None:
            return real['sleep'](d)
        if d < 0:
            raise ValueError('sleep length must be non-negative')
        t.sched.point()
        t.sched.wait(None, t.sched.now + d)
    time.sleep = sleep

    class datetime(real_datetime):
        @classmethod
        def now(cls, tz=None):
            s = _sched()
            if s is None:
                return real_datetime.now(tz)
            if s.inside():
                s.point()
            return real_datetime.fromtimestamp(s.wall + s.now, tz)

        @classmethod
        def utcnow(cls):
            return cls.now(_dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    _dt.datetime = datetime


class creating:
    """Objects made in this block belong to the simulation."""
    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        _creating[0] = self.sched

    def __exit__(self, *a):
        _creating[0] = None

"""Simulated thread primitives and clocks, and their installation into the
standard library modules."""
import _thread
import sys

from . import kernel as _k
from .kernel import SEC

_real_get_ident = _thread.get_ident


class SimLock:
    __slots__ = ("_locked", "_waiters", "_by", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = None
        self._by = None

    def acquire(self, blocking=True, timeout=-1):
        k = _k.K
        if k is None:
            if self._locked:
                if blocking:
                    raise RuntimeError("simulated lock contended outside a run")
                return False
            self._locked = True
            return True
        if blocking is False or blocking == 0:
            if timeout != -1:
                raise ValueError("can't specify a timeout for a non-blocking call")
        k.yp()
        if not self._locked:
            self._locked = True
            self._by = k.current
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = k.now + int(timeout * SEC)
        elif timeout is not None and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        while self._locked:
            if deadline is not None and k.now >= deadline:
                return False
            w = self._waiters
            if w is None:
                w = self._waiters = []
            t = k.current
            w.append(t)
            woken = k.block(deadline, "lock")
            if t in w:
                w.remove(t)
            if not woken and self._locked:
                return False
        self._locked = True
        self._by = k.current
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._force_release()
        k = _k.K
        if k is not None:
            k.yp()

    def _force_release(self):
        self._locked = False
        w = self._waiters
        if w:
            k = _k.K
            for t in w:
                k.wake(t)
            del w[:]

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None


class SimRLock:
    __slots__ = ("_lock", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        k = _k.K
        return k.current if k is not None else 0

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me and self._count:
            self._count += 1
            return True
        r = self._lock.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    def release(self):
        if self._owner is not self._me() or not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._me() and self._count > 0

    def _release_save(self):
        if not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner = None
        self._count = 0


SHARED = []    # the locks of the standard library modules, which the nodes share


def note_shared():
    import gc
    SHARED[:] = [o for o in gc.get_objects() if type(o) in (SimLock, SimRLock)]


def release_of_dead():
    """What a crashed process held of the standard library's locks, others hold copies of their own of."""
    for o in SHARED:
        if type(o) is SimRLock:
            if o._count and getattr(o._owner, "state", None) == _k.DEAD:
                o._owner = None
                o._count = 0
    for o in SHARED:
        if type(o) is SimLock and o._locked and getattr(o._by, "state", None) == _k.DEAD:
            o._force_release()


def sim_start_new_thread(fn, args=(), kwargs=None):
    k = _k.K
    if k is None:
        raise RuntimeError("thread started outside a run")
    node = k.current.node
    if node is not None and node.nothreads > 0:
        node.nothreads -= 1
        k.fault("thread_start", node.name)
        raise RuntimeError("can't start new thread")
    name = "thread"
    self = getattr(fn, "__self__", None)
    if self is not None:
        name = getattr(self, "_sim_name", None) or getattr(self, "_name", name)
    t = k.spawn(fn, args, kwargs, name=str(name))
    k.yp()
    return t.tid


def sim_set_sentinel():
    lock = SimLock()
    k = _k.K
    if k is not None:
        k.current.sentinel = lock
    return lock


class clock:
    """virtual clocks; outside a run they stand still"""

    @staticmethod
    def monotonic_ns():
        k = _k.K
        return k.now if k is not None else 1000 * SEC

    @staticmethod
    def monotonic():
        k = _k.K
        return (k.now if k is not None else 1000 * SEC) / 1e9

    @staticmethod
    def time_ns():
        k = _k.K
        if k is None:
            return 1_700_000_000 * SEC
        return k.epoch_wall + (k.now - k.t0) + k.current.node.wall_offset

    @staticmethod
    def time():
        return clock.time_ns() / 1e9

    @staticmethod
    def sleep(s):
        k = _k.K
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        if k is None:
            raise RuntimeError("sleep outside a run")
        k.sleep(int(s * SEC))


def _pool_worker(executor_reference, work_queue, initializer, initargs):
    """ThreadPoolExecutor's worker loop, with idle accounting that cannot overcount. CPython's own loop may
    count a worker as idle just after a submit decided to start another one, and a later job then waits for
    a busy worker: a race of the standard library, not of the code under test."""
    import concurrent.futures.thread as cft
    import queue
    while True:
        try:
            work_item = work_queue.get_nowait()
        except queue.Empty:
            executor = executor_reference()
            if executor is not None:
                sem = executor._idle_semaphore
                with sem._cond:
                    if work_queue._count._value:
                        continue
                    sem._value += 1
                    sem._cond.notify()
            del executor
            work_item = work_queue.get(block=True)
        if work_item is not None:
            work_item.run()
            del work_item
            continue
        executor = executor_reference()
        if cft._shutdown or executor is None or executor._shutdown:
            if executor is not None:
                executor._shutdown = True
            work_queue.put(None)
            return
        del executor


def _install_dates(time):
    """what tells the time of day without time.time()"""
    import datetime
    for name in ("localtime", "gmtime"):
        def conv(secs=None, real=getattr(time, name)):
            return real(clock.time() if secs is None else secs)
        setattr(time, name, conv)
    real_strftime, real_asctime, real_ctime = time.strftime, time.asctime, time.ctime
    time.strftime = lambda fmt, t=None: real_strftime(fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: real_asctime(time.localtime() if t is None else t)
    time.ctime = lambda secs=None: real_ctime(clock.time() if secs is None else secs)
    wall = (time.CLOCK_REALTIME, time.CLOCK_TAI, getattr(time, "CLOCK_REALTIME_COARSE", 5))
    time.clock_gettime_ns = lambda c: clock.time_ns() if c in wall else clock.monotonic_ns()
    time.clock_gettime = lambda c: time.clock_gettime_ns(c) / 1e9
    time.process_time = time.thread_time = clock.monotonic
    time.process_time_ns = time.thread_time_ns = clock.monotonic_ns

    real_date, real_datetime = datetime.date, datetime.datetime

    class SimMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_datetime)

    class datetime_(real_datetime, metaclass=SimMeta):
        @classmethod
        def now(cls, tz=None):
            return real_datetime.fromtimestamp(clock.time(), tz)

        @classmethod
        def utcnow(cls):
            return real_datetime.fromtimestamp(clock.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class SimDateMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_date)

    class date_(real_date, metaclass=SimDateMeta):
        @classmethod
        def today(cls):
            return real_date.fromtimestamp(clock.time())

    datetime_.__name__ = datetime_.__qualname__ = "datetime"
    date_.__name__ = date_.__qualname__ = "date"
    datetime.datetime = datetime_
    datetime.date = date_


def install():
    import threading
    import time
    import queue
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    threading._time = clock.monotonic
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = sim_start_new_thread
    _thread.start_new = sim_start_new_thread
    for name in ("monotonic", "monotonic_ns", "time", "time_ns", "sleep"):
        setattr(time, name, staticmethod(getattr(clock, name)).__func__)
    time.perf_counter = clock.monotonic
    time.perf_counter_ns = clock.monotonic_ns
    _install_dates(time)
    queue.time = clock.monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.threading = threading
    # modules that bound the originals at import time
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    cft._global_shutdown_lock = SimLock()
    cft.queue = queue
    cfb.threading = threading
    cft._worker = _pool_worker
    import socketserver
    socketserver.time = clock.monotonic
    import asyncio.base_events  # noqa: uses time.monotonic by attribute

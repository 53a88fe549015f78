"""Threads, locks and event loops of the code under test, under the scheduler.

The repository starts no threads; a later version of it may.  A thread started by
simulated code becomes a thread of its simulated process; locks, and everything
Python builds on them (conditions, events, queues, executors, joining), wait in
the scheduler instead of in the kernel of the real machine.
"""
import _thread
import queue
import selectors
import threading

from . import patch
from .kernel import HarnessError

real_lock = _thread.allocate_lock
real_start = _thread.start_new_thread
real_sentinel = threading._set_sentinel


def task():
    return patch.K.task() if patch.K is not None else None


class Lock:
    def __init__(self):
        self._l = real_lock()

    def acquire(self, blocking=True, timeout=-1):
        t = task()
        if t is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking or timeout == 0:
            return False
        k = patch.K
        if timeout > 0:
            k.enter("sleep")                    # polling counts as activity
        end = None if timeout < 0 else k.mono + timeout
        while not self._l.acquire(False):
            left = None if end is None else end - k.mono
            if left is not None and left <= 0:
                return False
            k.block_until(lambda: not self._l.locked(), left, idle=True)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self._l.release()

    def _at_fork_reinit(self):
        self._l = real_lock()


def sentinel():
    return real_sentinel() if task() is None else Lock()


def start(func, args, kwargs={}):
    t = task()
    if t is None:
        return real_start(func, args, kwargs)
    th = getattr(func, "__self__", None)

    def body():
        try:
            func(*args, **kwargs)
        finally:
            lk = getattr(th, "_tstate_lock", None)
            if lk is not None and lk.locked():
                lk.release()
    patch.K.spawn_thread(t.proc, body, bool(getattr(th, "daemon", False)))
    patch.K.turn(t)
    return 0


def hook(a):
    if issubclass(a.exc_type, HarnessError) and patch.K is not None:
        patch.K.error = patch.K.error or "in a thread: %s" % a.exc_value


def selecting(real):
    def select(self, timeout=None):
        t = task()
        if t is None:
            return real(self, timeout)
        if timeout is not None:
            patch.K.enter("sleep")
        if timeout is None or timeout > 0:
            patch.K.block_until(lambda: bool(real(self, 0)), timeout, idle=True)
        else:
            patch.K.turn(t)
        return real(self, 0)
    return select


def install():
    threading.Lock = threading._allocate_lock = Lock
    threading._CRLock = None                    # RLock() then is the one written in Python
    threading._start_new_thread = start
    threading._set_sentinel = sentinel
    threading.excepthook = hook
    _thread.start_new_thread = _thread.start_new = start
    _thread.allocate_lock = _thread.allocate = Lock
    queue.SimpleQueue = queue._PySimpleQueue
    for n in ("SelectSelector", "PollSelector", "EpollSelector"):
        c = getattr(selectors, n, None)
        if c is not None:
            c.select = selecting(c.select)

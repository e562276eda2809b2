"""Seams for threads inside simulated processes, signals and file locks.

A thread started by a simulated process becomes another task of that process
(same memory image, same pid); the locks of `threading` are per process and only
reach the scheduler when they are contended, so code that merely uses a lock runs
exactly the same schedule as code that does not.
"""
import concurrent.futures as _cf
import concurrent.futures._base
import concurrent.futures.process
import concurrent.futures.thread
import errno
import multiprocessing as mp
import multiprocessing.connection
import multiprocessing.pool
import os
import pickle
import queue
import signal
import sys
import threading
import time
import types

try:
    import fcntl
except ImportError:
    fcntl = None

from . import kernel
from .kernel import Shared, SimKilled, SimAbort, Mem, fork_copy, proc_of

REAL = types.SimpleNamespace()
IMPORTING = [False]         # nephosem is being imported: its locks belong to simulated processes


def _cur():
    from . import seams
    return seams.cur()


# ------------------------------------------------------------------ locks
class SimTLock(Shared):
    recursive = False

    def __init__(self, atfork=False):
        self.atfork = atfork

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def acquire(self, blocking=True, timeout=-1):
        s, t = _cur()
        if s is None:
            return True
        p = proc_of(t)
        held = p.tlocks.get(self)
        if held is not None and self.recursive and held[0] is t:
            held[1] += 1
            return True
        if held is not None and not (s.aborting or t.dead):
            if not blocking:
                return False
            if not s.wait(lambda: self not in p.tlocks, 'lock', None if timeout is None or timeout < 0 else timeout):
                return False
        p.tlocks[self] = [t, 1]
        return True

    def release(self):
        s, t = _cur()
        if s is None:
            return
        p = proc_of(t)
        held = p.tlocks.get(self)
        if held is None:
            if s.aborting or t.dead:
                return
            raise RuntimeError('release unlocked lock')
        if self.recursive:
            if held[0] is not t and not (s.aborting or t.dead):
                raise RuntimeError('cannot release un-acquired lock')
            held[1] -= 1
            if held[1] > 0:
                return
        p.tlocks.pop(self, None)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        s, t = _cur()
        return s is not None and self in proc_of(t).tlocks

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        s, t = _cur()
        if s is not None:
            proc_of(t).tlocks.pop(self, None)


class SimTRLock(SimTLock):
    recursive = True

    def _is_owned(self):
        s, t = _cur()
        if s is None:
            return True
        held = proc_of(t).tlocks.get(self)
        return held is not None and held[0] is t

    def _release_save(self):
        s, t = _cur()
        if s is None:
            return 1
        return proc_of(t).tlocks.pop(self)[1]

    def _acquire_restore(self, n):
        s, t = _cur()
        self.acquire()
        if s is not None:
            proc_of(t).tlocks[self][1] = n


def _simulated():
    if kernel.BYPASS[0]:
        return False
    return IMPORTING[0] or _cur()[0] is not None


def _from_logging():
    return sys._getframe(2).f_globals.get('__name__', '').startswith('logging')


def _patch_locks():
    REAL.Lock, REAL.RLock, REAL._allocate_lock = threading.Lock, threading.RLock, threading._allocate_lock

    def Lock():
        return SimTLock(_from_logging()) if _simulated() else REAL.Lock()

    def RLock(*a, **kw):
        return SimTRLock(_from_logging()) if _simulated() else REAL.RLock(*a, **kw)

    def allocate_lock():
        return SimTLock() if _simulated() else REAL._allocate_lock()
    threading.Lock, threading.RLock, threading._allocate_lock = Lock, RLock, allocate_lock
    # held while threads are started
    _cf.thread._global_shutdown_lock = SimTLock(atfork=True)
    real_sq = queue.SimpleQueue

    def SimpleQueue():
        return queue._PySimpleQueue() if _simulated() else real_sq()
    REAL.SimpleQueue = real_sq
    queue.SimpleQueue = SimpleQueue
    # bound to the real clock when they were imported
    queue.time = time.monotonic
    threading._time = time.monotonic
    _cf._base.time = time


# ------------------------------------------------------------------ threads
def _patch_threads():
    T = threading.Thread
    REAL.start, REAL.join, REAL.is_alive = T.start, T.join, T.is_alive
    REAL.current_thread, REAL.main_thread = threading.current_thread, threading.main_thread
    REAL.ident, REAL.native_id = T.ident, T.native_id

    def start(self):
        s, t = _cur()
        if s is None or kernel.BYPASS[0]:
            return REAL.start(self)
        if self._started.is_set():
            raise RuntimeError('threads can only be started once')
        p = proc_of(t)
        s.point('thread', '')

        def body():
            try:
                self.run()
            except (SimKilled, SimAbort):
                raise
            except SystemExit:
                pass
            except BaseException:
                pass            # printed by threading.excepthook; the process goes on
        label = '%s+t%d' % (p.label, p.nthread)
        p.nthread += 1
        task = s.spawn(label, body, p.mem, parent=p, session=p.session, daemon=self.daemon, pid=p.pid, helper=True)
        task.pythread = self
        self._sim_task = task
        self._started.set()
    T.start = start

    def join(self, timeout=None):
        s, t = _cur()
        task = getattr(self, '_sim_task', None)
        if s is None or kernel.BYPASS[0] or (task is None and self._started.is_set()):
            return REAL.join(self, timeout)
        if task is None:
            raise RuntimeError('cannot join thread before it is started')
        if task is t:
            raise RuntimeError('cannot join current thread')
        s.point('tjoin', task.label)
        s.wait(lambda: task.state == 'done', 'join thread ' + task.label, None if timeout is None else max(0, timeout))
    T.join = join

    def is_alive(self):
        task = getattr(self, '_sim_task', None)
        if task is None:
            return REAL.is_alive(self)
        s, t = _cur()
        if s is not None:
            s.point('thread?', task.label)
        return task.alive()
    T.is_alive = is_alive

    def ident(self):
        task = getattr(self, '_sim_task', None)
        return REAL.ident.fget(self) if task is None else 7000 + task.index
    T.ident = property(ident)
    T.native_id = property(lambda self: ident(self) if getattr(self, '_sim_task', None) else REAL.native_id.fget(self))

    def current_thread():
        s, t = _cur()
        th = getattr(t, 'pythread', None) if s is not None else None
        return th if th is not None else REAL.current_thread()
    threading.current_thread = threading.currentThread = current_thread

    def main_thread():
        s, t = _cur()
        return REAL.main_thread() if s is None else proc_of(t).thread
    threading.main_thread = main_thread


# ------------------------------------------------------------------ signals
def _patch_signals():
    REAL.signal, REAL.getsignal = signal.signal, signal.getsignal

    def default(num):
        return signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL

    def set_(num, handler):
        s, t = _cur()
        if s is None:
            return REAL.signal(num, handler)
        if t.helper:
            raise ValueError('signal only works in main thread of the main interpreter')
        num = signal.Signals(num)
        old = t.sigs.get(num, default(num))
        t.sigs[num] = handler
        return old

    def get(num):
        s, t = _cur()
        if s is None:
            return REAL.getsignal(num)
        num = signal.Signals(num)
        return proc_of(t).sigs.get(num, default(num))
    signal.signal, signal.getsignal = set_, get


# ------------------------------------------------------------------ file locks
def _patch_fcntl():
    if fcntl is None:
        return
    REAL.flock, REAL.lockf = fcntl.flock, fcntl.lockf

    def lock(fd, op, posix):
        s, t = _cur()
        n = fd if isinstance(fd, int) else fd.fileno()
        if s is None or n not in s.open_fds:
            return None
        s.point('flock', '')
        st = os.fstat(n)
        p = proc_of(t)
        held = s.flocks.setdefault((st.st_dev, st.st_ino), [])
        me = ('p', p) if posix else ('f', n)
        held[:] = [h for h in held if h[0] != me]
        if op & fcntl.LOCK_UN:
            return True
        excl = bool(op & fcntl.LOCK_EX)

        def free():
            return not any((excl or h[2]) and h[1].alive() and not h[1].dead for h in held)
        if not free():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            s.wait(free, 'file lock')
        held.append((me, p, excl))
        return True

    def flock(fd, op):
        if lock(fd, op, False) is None:
            return REAL.flock(fd, op)

    def lockf(fd, cmd, *a, **kw):
        if lock(fd, cmd, True) is None:
            return REAL.lockf(fd, cmd, *a, **kw)
    fcntl.flock, fcntl.lockf = flock, lockf


def closed_fd(s, fd):
    """The file was closed: its flock is gone."""
    for held in s.flocks.values():
        held[:] = [h for h in held if h[0] != ('f', fd)]


# ------------------------------------------------------------------ waiting for several processes
def _patch_wait():
    REAL.wait = mp.connection.wait

    def wait(object_list, timeout=None):
        s, t = _cur()
        objs = list(object_list)
        if s is None or not all(isinstance(o, kernel.Task) for o in objs):
            return REAL.wait(objs, timeout)
        s.point('wait', '')
        s.wait(lambda: any(o.state == 'done' for o in objs), 'one of ' + ','.join(o.label for o in objs), timeout)
        return [o for o in objs if o.state == 'done']
    mp.connection.wait = wait


# ------------------------------------------------------------------ executors
class SimExecutor(_cf.Executor):
    """concurrent.futures.ProcessPoolExecutor: forked workers, a broken pool when one of them dies."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        s, t = _cur()
        if s is None:
            raise kernel.HarnessError('process pool outside the simulation')
        self._n = max_workers if max_workers is not None else s.cpu
        if self._n <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._owner = proc_of(t)
        self._init = (initializer, initargs)
        self._queue, self._results, self._futures = [], [], {}
        self._workers = []
        self._busy = {}
        self._closed = self._broken = False
        self._next = 0

    def _start(self):
        s, t = _cur()
        if self._workers:
            return
        own = self._owner
        for _ in range(self._n):
            f = s.point('fork', '', io='fork')
            if f is not None and f['kind'] == 'err':
                from . import seams
                seams._err(s, t, f, 'EAGAIN')
            img = fork_copy([o.__dict__.get(n) for o, n in s.slots])
            label = '%s.%d' % (own.label, own.nchild)
            own.nchild += 1
            from . import seams
            w = s.spawn(label, self._work, Mem(img), parent=own, session=own.session)
            w.proc = seams._PoolProc(w)
            self._workers.append(w)
        s.spawn('%s+r%d' % (own.label, own.nchild), self._handle, own.mem, parent=own, session=own.session,
                daemon=True, pid=own.pid, helper=True)
        own.nchild += 1

    def _work(self):
        s, t = _cur()
        ini, ia = self._init
        if ini:
            ini(*fork_copy(ia))
        while True:
            s.point('pool.get', '')
            s.wait(lambda: self._queue or self._closed or self._broken, 'pool task')
            if self._broken or not self._queue:
                return
            i, data = self._queue.pop(0)
            self._busy[t] = i
            try:
                fn, a, kw = pickle.loads(data)
                val = (True, fn(*a, **kw))
            except Exception as e:
                val = (False, e)
            try:
                out = pickle.dumps(val)
            except Exception as e:
                out = pickle.dumps((False, RuntimeError('MaybeEncodingError: %s' % e)))
            s.point('pool.put', '')
            self._busy.pop(t, None)
            self._results.append((i, out))

    def _handle(self):
        s, t = _cur()

        def died():
            return any(w.state == 'done' and w.exitcode != 0 for w in self._workers)
        while True:
            s.wait(lambda: self._results or died() or (self._closed and not self._futures), 'executor results')
            s.point('pool.result', '')
            while self._results:
                i, out = self._results.pop(0)
                ok, val = pickle.loads(out)
                f = self._futures.pop(i)
                if ok:
                    f.set_result(val)
                else:
                    f.set_exception(val)
            if died():
                self._broken = True
                for w in self._workers:
                    if w.alive():
                        s.kill(w)
                for i in sorted(self._futures):
                    self._futures[i].set_exception(_cf.process.BrokenProcessPool(
                        'A process in the process pool was terminated abruptly while the future was running or pending.'))
                self._futures.clear()
                return
            if self._closed and not self._futures:
                return

    def submit(self, fn, /, *args, **kwargs):
        s, t = _cur()
        if self._broken:
            raise _cf.process.BrokenProcessPool('A child process terminated abruptly')
        if self._closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        s.point('pool.apply', '')
        self._start()
        f = _cf.Future()
        try:
            data = pickle.dumps((fn, args, kwargs))
        except Exception as e:
            f.set_exception(e)
            return f
        f.set_running_or_notify_cancel()
        self._futures[self._next] = f
        self._queue.append((self._next, data))
        self._next += 1
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables, timeout=timeout)

    def shutdown(self, wait=True, *, cancel_futures=False):
        s, t = _cur()
        if t.dead or s.aborting:
            return
        s.point('pool.close', '')
        if cancel_futures:
            for i, _ in self._queue:
                self._futures.pop(i).cancel()
            del self._queue[:]
        self._closed = True
        if wait:
            s.wait(lambda: not self._futures and all(not w.alive() for w in self._workers), 'executor shutdown')


def install():
    _patch_locks()
    _patch_threads()
    _patch_signals()
    _patch_fcntl()
    _patch_wait()
    _cf.process.ProcessPoolExecutor = SimExecutor
    _cf.ProcessPoolExecutor = SimExecutor
    _cf.ThreadPoolExecutor          # resolve the lazy attribute now

"""Seams: everything nondeterministic in the standard library that nephosem uses.

`install(root)` replaces attributes of standard modules once, before nephosem is
imported.  Each replacement passes straight through unless a simulated process
is running on the calling thread (and, for files, the path is inside the scratch
root), so the harness itself is unaffected.
"""
import _thread
import builtins
import collections
import datetime as _dt
import errno
import io
import multiprocessing as mp
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.managers
import multiprocessing.queues
import os
import pickle
import queue as _q
import random as _random
import shutil
import stat as _stat
import sys
import tempfile
import time
import types
import weakref

from . import kernel, threads
from .kernel import Sim, Task, Mem, Shared, SimKilled, SimAbort, HarnessError, fork_copy, proc_of

REAL = types.SimpleNamespace()
ROOT = None


def cur():
    """(sim, task) if the calling thread is the running simulated process."""
    s = kernel.CUR
    if s is None:
        return None, None
    t = s.cur
    if t is None or t.thread.ident != _thread.get_ident():
        return None, None
    return s, t


def wait_session(label):
    """Called by a session's main program: block until the named session has ended."""
    s, t = cur()
    other = next(x for x in s.tasks if x.label == label)
    s.wait(lambda: other.state == 'done', 'session ' + label)


def free_disk():
    """The full disk has been cleaned up."""
    s, t = cur()
    s.disk_full_until = -1


def fired_total():
    s, t = cur()
    return sum(v for k, v in s.fired.items() if k not in ('stall', 'clock_jump'))


# ------------------------------------------------------------------ globals
_SLOT_TYPES = (bool, int, float, str, bytes, type(None), list, dict, set, tuple,
               collections.deque, collections.defaultdict, collections.OrderedDict, collections.Counter)


EXTRA_SLOTS = []        # other per-process data: the state of loggers where they are observed


def global_slots():
    """Module globals and class attributes of nephosem that hold data."""
    out = []
    for name in sorted(sys.modules):
        if name != 'nephosem' and not name.startswith('nephosem.'):
            continue
        if name.startswith('nephosem.tests'):
            continue
        m = sys.modules[name]
        for k in sorted(m.__dict__):
            v = m.__dict__[k]
            if k.startswith('__'):
                continue
            if isinstance(v, type) and v.__module__ == name:
                for a in sorted(v.__dict__):
                    if not a.startswith('__') and type(v.__dict__[a]) in _SLOT_TYPES:
                        out.append((v, a))
            elif type(v) in _SLOT_TYPES or (v is not None and type(v).__module__.startswith('nephosem')):
                out.append((m, k))
    return out + EXTRA_SLOTS


# ------------------------------------------------------------------ files
def inroot(path):
    """Absolute str path if it lies inside the scratch root, else None."""
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        try:
            p = os.fsdecode(p)
        except Exception:
            return None
    if not p.startswith('/'):
        p = os.path.join(REAL.getcwd(), p)
    p = os.path.normpath(p)
    if p == ROOT or p.startswith(ROOT + '/'):
        return p
    return None


def rel(p):
    return p[len(ROOT) + 1:]


def exists(p):
    try:
        REAL.lstat(os.path.join(ROOT, p))
        return True
    except OSError:
        return False


def _err(sim, t, f, default):
    en = f.get('errno', default)
    sim.fired['err:' + en] += 1
    sim.record(t.label, 'FAULT', en)
    num = getattr(errno, en)
    raise OSError(num, os.strerror(num) + ' (simulated)')


def _guard_outside(path, what):
    """Destructive operations outside the scratch root are refused, never executed."""
    s, t = cur()
    if s is None:
        return
    if isinstance(path, int):
        return
    try:
        p = os.fspath(path)
    except TypeError:
        return
    if p in ('/dev/null', b'/dev/null'):
        return
    s.blocked_write.append((t.label, what, str(p)))
    raise PermissionError(errno.EACCES, 'outside the simulated machine', str(p))


def _denied(sim, p):
    """Files and folders that the simulated user may not read."""
    no = sim.params.get('denied')
    return no and any(rel(p) == d or rel(p).startswith(d + '/') for d in no)


def _io_point(kind, p, iokind):
    """Scheduling + fault point of a metadata operation."""
    sim, t = cur()
    if sim is None:
        return
    f = sim.point(kind, rel(p), io=iokind)
    if iokind in ('create', 'mkdir', 'write'):
        if sim.disk_full_until >= sim.step:
            sim.fired['err:ENOSPC'] += 1
            sim.record(t.label, 'FAULT', 'ENOSPC')
            raise OSError(errno.ENOSPC, 'No space left on device (simulated)', p)
        ro = sim.params.get('readonly')
        if ro and any(rel(p) == d or rel(p).startswith(d + '/') for d in ro):
            sim.fired['err:EROFS'] += 1
            raise OSError(errno.EROFS, 'Read-only file system (simulated)', p)
    elif iokind in ('read', 'list'):
        if _denied(sim, p):
            sim.fired['err:EACCES'] += 1
            raise PermissionError(errno.EACCES, 'Permission denied (simulated)', p)
    elif iokind in ('remove', 'rename'):
        ro = sim.params.get('readonly')
        if ro and any(rel(p) == d or rel(p).startswith(d + '/') for d in ro):
            sim.fired['err:EROFS'] += 1
            raise OSError(errno.EROFS, 'Read-only file system (simulated)', p)
    if f is not None and f['kind'] == 'err':
        _err(sim, t, f, {'read': 'EACCES', 'create': 'ENOSPC', 'mkdir': 'EACCES', 'remove': 'EACCES',
                         'rename': 'EIO', 'list': 'EIO', 'stat': 'EIO'}.get(iokind, 'EIO'))


def _stamp(now, *targets):
    """Files and folders carry the simulated time (marked by the last digits of the time stamp)."""
    g = kernel.CUR.params.get('mtime_gran', 0) if kernel.CUR is not None else 0
    if g:                               # file systems that keep whole seconds
        now = now // g * g
    ns = int(now * 1e6) * 1000 + 7
    for x in targets:
        try:
            REAL.utime(x, ns=(ns, ns))
        except OSError:
            pass


def put(path, data):
    """The surroundings of a simulated process write (data None: remove) a file; no scheduling point."""
    if data is None:
        REAL.remove(path)
    else:
        with REAL.open(path, 'wb') as f:
            f.write(data)
    s, t = cur()
    if s is not None:
        _stamp(s.wall, *([] if data is None else [path]))
        _stamp(s.wall, os.path.dirname(path))


def age(root, now, seed):
    """Whatever is on the machine's disk when a simulation starts, and not from an earlier one, is some time old."""
    for d, sub, files in os.walk(root):
        for n in files + sub:
            p = d + '/' + n
            try:
                st = REAL.lstat(p)
            except OSError:
                continue
            if st.st_mtime_ns % 1000 != 7:
                r = _random.Random('age-%s-%s' % (seed, rel(p)))
                _stamp(now - r.choice([1, 60, 4000, 90000, 900000, 40000000]), p)


class SimRaw(io.RawIOBase):
    """Raw file of a simulated process on a real descriptor in the scratch root."""

    def __init__(self, fd, path, readable, writable, appending, sim, task, mode):
        super().__init__()
        self._fd = fd
        self.name = path
        self.mode = mode
        self._r, self._w, self._a = readable, writable, appending
        self._sim, self._task = sim, task
        self._failed = None
        self._st = REAL.fstat(fd)
        sim.raws.append(weakref.ref(self))

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def _gone(self):
        if self._task is None:          # inherited: it belongs to the first process that uses it
            self._task = cur()[1]
            if self._task is None:
                return True
        return self._task.dead or self._sim.aborting or kernel.CUR is not self._sim

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        mod = sys._getframe(1).f_globals.get('__name__', '')
        if mod.startswith('numpy') and not mod.endswith('memmap'):
            # make numpy use the Python-level read/write path
            raise io.UnsupportedOperation('fileno')
        return self._fd

    def _pt(self, kind, iokind):
        sim, t = cur()
        if sim is None or sim is not self._sim:
            return None, None, None
        f = sim.point(kind, rel(self.name), io=iokind)
        return sim, t, f

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        if not self._gone():
            sim, t, f = self._pt('read', 'read')
            if f is not None and f['kind'] == 'err':
                _err(sim, t, f, 'EIO')
        data = REAL.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        mv = memoryview(b).cast('B')
        n = len(mv)
        if self._gone():
            return n                      # buffered data of a dead process is lost
        if self._failed is not None:
            raise OSError(self._failed, os.strerror(self._failed) + ' (simulated)')
        if n == 0:
            return 0
        sim, t, f = self._pt('write', 'write')
        if sim is not None:
            t.io_writes += 1
            if sim.disk_full_until >= sim.step and f is None:
                f = {'kind': 'err', 'errno': 'ENOSPC', 'frac': 0.0}
            if f is not None and f['kind'] in ('err', 'torn', 'short'):
                k = int(n * float(f.get('frac', 0.5)))
                k = max(0, min(n, k))
                if f['kind'] == 'short':
                    k = max(1, k)
                    sim.fired['short_write'] += 1
                    return REAL.write(self._fd, mv[:k])
                if k:
                    self._wall(mv[:k])
                if f['kind'] == 'torn':
                    sim.fired['torn_write_kill'] += 1
                    sim.record(t.label, 'FAULT', 'torn')
                    sim.kill(t)
                    raise SimKilled()
                self._failed = getattr(errno, f.get('errno', 'ENOSPC'))
                _err(sim, t, f, 'ENOSPC')
        return self._wall(mv)

    def _wall(self, mv):
        tot = 0
        while tot < len(mv):
            tot += REAL.write(self._fd, mv[tot:])
        _stamp(self._sim.wall, self._fd)
        return tot

    def seek(self, pos, whence=0):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return REAL.lseek(self._fd, pos, whence)

    def tell(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return REAL.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._gone():
            return 0
        if size is None:
            size = self.tell()
        self._pt('truncate', 'write')
        REAL.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        fd, self._fd = self._fd, -1
        self._sim.open_fds.pop(fd, None)
        if self._sim.flocks:
            threads.closed_fd(self._sim, fd)
        try:
            REAL.close(fd)
        except OSError:
            pass
        super().close()


def forked_stream(f):
    """A text file written by a log handler, as a forked process has it: its own buffer on the same open file."""
    raw = getattr(getattr(f, 'buffer', None), 'raw', None)
    if not isinstance(raw, SimRaw) or f.closed:
        return f
    fd = os.dup(raw._fd)
    raw._sim.open_fds[fd] = raw.name
    r2 = SimRaw(fd, raw.name, raw._r, raw._w, raw._a, raw._sim, None, raw.mode)
    y = io.TextIOWrapper(io.BufferedWriter(r2, raw._sim.bufsize), f.encoding, f.errors)
    y.mode = raw.mode
    return y


_FLAGS = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
          'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim, t = cur()
    if sim is None:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    base = mode.replace('b', '').replace('t', '')
    plus = '+' in base
    m = base.replace('+', '').replace('U', '') or 'r'
    if isinstance(file, int):
        info = sim.open_fds.get(file)
        if info is None:
            return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, p = file, info
    else:
        p = inroot(file)
        if p is None:
            if m != 'r' or plus:
                _guard_outside(file, 'open:' + mode)
            return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if m not in _FLAGS:
            raise ValueError("invalid mode: %r" % (mode,))
        if not isinstance(mode, str):
            raise TypeError("open() argument 'mode' must be str")
        if 'b' in mode and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        if 'b' in mode and newline is not None:
            raise ValueError("binary mode doesn't take a newline argument")
        _io_point('open:' + m + ('+' if plus else ''), p, 'read' if (m == 'r' and not plus) else 'create')
        flags = _FLAGS[m]
        if plus:
            flags = (flags & ~(os.O_RDONLY | os.O_WRONLY)) | os.O_RDWR
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = REAL.os_open(p, flags | os.O_CLOEXEC, 0o666)
        if _stat.S_ISDIR(REAL.fstat(fd).st_mode):
            REAL.close(fd)
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
        sim.open_fds[fd] = p
        if m != 'r' or plus:
            _stamp(sim.wall, fd, os.path.dirname(p))
    raw = SimRaw(fd, p, m == 'r' or plus, m != 'r' or plus, m == 'a', sim, t, mode)
    if m == 'a':
        REAL.lseek(fd, 0, 2)
    line_buffering = False
    if buffering == 1 and 'b' not in mode:
        buffering = -1
        line_buffering = True
    if buffering < 0 or buffering == 1:
        buffering = sim.bufsize
    if buffering == 0:
        if 'b' in mode:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if plus:
        buf = io.BufferedRandom(raw, buffering)
    elif m != 'r':
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def _patch_os():
    def wrap1(name, kind, iokind, destructive=False):
        real = getattr(os, name)
        setattr(REAL, name, real)

        def f(path, *a, **kw):
            sim, t = cur()
            if sim is not None:
                p = inroot(path) if kw.get('dir_fd') is None else None
                if p is not None:
                    _io_point(kind, p, iokind)
                    if name == 'access' and a and a[0] & os.R_OK and _denied(sim, p):
                        return False
                    if destructive:
                        r = real(path, *a, **kw)
                        if iokind == 'remove' and sim.created:
                            sim.created.pop(rel(p), None)       # whoever makes it again owns it
                        if kind != 'utime' or not (a or kw):
                            _stamp(sim.wall, *([] if iokind == 'remove' else [p]))
                        if iokind in ('remove', 'mkdir'):
                            _stamp(sim.wall, os.path.dirname(p))
                        return r
                elif destructive and kw.get('dir_fd') is None:
                    _guard_outside(path, kind)
            return real(path, *a, **kw)
        f.__name__ = name
        f.__doc__ = real.__doc__
        setattr(os, name, f)
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real in s:
                s.add(f)

    wrap1('mkdir', 'mkdir', 'mkdir', True)
    wrap1('rmdir', 'rmdir', 'remove', True)
    wrap1('remove', 'remove', 'remove', True)
    wrap1('unlink', 'remove', 'remove', True)
    wrap1('truncate', 'truncate', 'write', True)
    wrap1('chmod', 'chmod', 'write', True)
    wrap1('utime', 'utime', 'write', True)
    wrap1('stat', 'stat', 'stat')
    wrap1('lstat', 'stat', 'stat')
    wrap1('access', 'stat', 'stat')

    def wrap2(name, kind):
        real = getattr(os, name)
        setattr(REAL, name, real)

        def f(src, dst, *a, **kw):
            sim, t = cur()
            if sim is not None:
                p, q = inroot(src), inroot(dst)
                if q is None:
                    _guard_outside(dst, kind)
                elif p is None:
                    _guard_outside(src, kind)
                else:
                    _io_point(kind, q, 'rename')
                    r = real(src, dst, *a, **kw)
                    _stamp(sim.wall, os.path.dirname(p), os.path.dirname(q))
                    return r
            return real(src, dst, *a, **kw)
        f.__name__ = name
        setattr(os, name, f)
    for n in ('rename', 'replace', 'link', 'symlink'):
        wrap2(n, 'rename')

    REAL.listdir = os.listdir
    REAL.scandir = os.scandir

    def order(sim, names):
        names = sorted(names)
        r = _random.Random('%s-%s' % (sim.params.get('env_seed', sim.seed), len(names)))
        mode = sim.params.get('listing', 'shuffle')
        if mode == 'shuffle':
            r.shuffle(names)
        elif mode == 'reverse':
            names.reverse()
        return names

    def listdir(path='.'):
        sim, t = cur()
        if sim is None:
            return REAL.listdir(path)
        p = inroot(path)
        if p is None:
            return REAL.listdir(path)
        _io_point('listdir', p, 'list')
        return order(sim, REAL.listdir(path))

    class ScanIter(object):
        def __init__(self, entries):
            self._it = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self._it = iter(())

    def scandir(path='.'):
        sim, t = cur()
        if sim is None:
            return REAL.scandir(path)
        p = inroot(path)
        if p is None:
            return REAL.scandir(path)
        _io_point('listdir', p, 'list')
        with REAL.scandir(path) as it:
            ents = {e.name: e for e in it}
        return ScanIter([ents[n] for n in order(sim, ents)])

    os.listdir = listdir
    os.scandir = scandir
    os.supports_fd.add(listdir)
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False     # copies go through read() and write()

    REAL.os_open = os.open
    REAL.close = os.close
    REAL.write = os.write
    REAL.read = os.read
    REAL.lseek = os.lseek
    REAL.fstat = os.fstat
    REAL.ftruncate = os.ftruncate
    REAL.fsync = os.fsync
    REAL.getpid = os.getpid
    REAL.getppid = os.getppid
    REAL.urandom = os.urandom
    REAL.cpu_count = os.cpu_count
    REAL.getcwd = os.getcwd

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        sim, t = cur()
        if sim is None or dir_fd is not None:
            return REAL.os_open(path, flags, mode, dir_fd=dir_fd)
        p = inroot(path)
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if p is None:
            if wr:
                _guard_outside(path, 'os.open')
            return REAL.os_open(path, flags, mode)
        _io_point('open:os', p, 'create' if wr else 'read')
        fd = REAL.os_open(path, flags, mode)
        sim.open_fds[fd] = p
        if wr:
            _stamp(sim.wall, fd, os.path.dirname(p))
        return fd
    os.open = os_open
    os.supports_dir_fd.add(os_open)

    def os_write(fd, data):
        sim, t = cur()
        if sim is None or fd not in sim.open_fds:
            return REAL.write(fd, data)
        f = sim.point('write', rel(sim.open_fds[fd]), io='write')
        n = len(data)
        if sim.disk_full_until >= sim.step and f is None:
            f = {'kind': 'err', 'errno': 'ENOSPC', 'frac': 0.0}
        if f is not None:
            k = int(n * float(f.get('frac', 0.5)))
            if f['kind'] == 'short':
                sim.fired['short_write'] += 1
                return REAL.write(fd, data[:max(1, k)])
            if k:
                REAL.write(fd, data[:k])
            if f['kind'] == 'torn':
                sim.fired['torn_write_kill'] += 1
                sim.kill(t)
                raise SimKilled()
            _err(sim, t, f, 'ENOSPC')
        return REAL.write(fd, data)
    os.write = os_write

    def os_read(fd, n):
        sim, t = cur()
        if sim is None or fd not in sim.open_fds:
            return REAL.read(fd, n)
        f = sim.point('read', rel(sim.open_fds[fd]), io='read')
        if f is not None and f['kind'] == 'err':
            _err(sim, t, f, 'EIO')
        return REAL.read(fd, n)
    os.read = os_read

    def os_close(fd):
        sim, t = cur()
        if sim is not None:
            sim.open_fds.pop(fd, None)
            if sim.flocks:
                threads.closed_fd(sim, fd)
        return REAL.close(fd)
    os.close = os_close

    def fsync(fd):
        sim, t = cur()
        if sim is None:
            return REAL.fsync(fd)
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd in sim.open_fds:
            f = sim.point('fsync', rel(sim.open_fds[fd]), io='fsync')
            if f is not None and f['kind'] == 'err':
                _err(sim, t, f, 'EIO')
            return None
        return REAL.fsync(fd)
    os.fsync = fsync
    os.fdatasync = fsync

    def getpid():
        sim, t = cur()
        return REAL.getpid() if sim is None else proc_of(t).pid
    os.getpid = getpid

    def getppid():
        sim, t = cur()
        if sim is None:
            return REAL.getppid()
        t = proc_of(t)
        return t.parent.pid if t.parent is not None else 1
    os.getppid = getppid

    def urandom(n):
        sim, t = cur()
        if sim is None:
            return REAL.urandom(n)
        return bytes(sim.env_rng.getrandbits(8) for _ in range(n))
    os.urandom = urandom
    _random._urandom = urandom

    def cpu_count():
        sim, t = cur()
        return REAL.cpu_count() if sim is None else sim.cpu
    os.cpu_count = cpu_count
    REAL.sched_getaffinity = os.sched_getaffinity

    def sched_getaffinity(pid):
        sim, t = cur()
        return REAL.sched_getaffinity(pid) if sim is None else set(range(sim.cpu))
    os.sched_getaffinity = sched_getaffinity

    def kill(pid, sig):
        sim, t = cur()
        if sim is None:
            return REAL.kill(pid, sig)
        for o in sim.tasks:
            if o.pid == pid and o.alive() and not o.helper:
                if sig:
                    sim.point('kill', o.label)
                    if not sim.signal(o, sig):
                        sim.kill(o)
                        if o is t:
                            raise SimKilled()
                    elif o is t and t.pending is not None:
                        sim._deliver(t)
                return None
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    REAL.kill = os.kill
    os.kill = kill
    REAL.fork = os.fork

    def fork():
        sim, t = cur()
        if sim is None:
            return REAL.fork()
        raise NotImplementedError('os.fork is not simulated')
    os.fork = fork
    REAL._exit = os._exit

    def _exit(n):
        sim, t = cur()
        if sim is None:
            return REAL._exit(n)
        raise SystemExit(n)
    os._exit = _exit

    # tempfile names
    REAL.tmp_rng = tempfile._RandomNameSequence.rng.fget
    holder = {}

    def rng(self):
        sim, t = cur()
        if sim is None:
            return REAL.tmp_rng(self)
        return sim.env_rng
    tempfile._RandomNameSequence.rng = property(rng)


# ------------------------------------------------------------------ clock
def _patch_time():
    for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'sleep',
              'process_time', 'ctime', 'localtime', 'gmtime', 'strftime', 'asctime'):
        setattr(REAL, 'time_' + n if n != 'time' else 'time_time', getattr(time, n))

    def mk(real, ns=False, wall=False):
        def f():
            sim, t = cur()
            if sim is None:
                return real()
            now = sim.wall if wall else sim.now
            return int(now * 1e9) if ns else now
        return f
    time.time = mk(REAL.time_time, wall=True)
    time.monotonic = mk(REAL.time_monotonic)
    time.perf_counter = mk(REAL.time_perf_counter)
    time.process_time = mk(REAL.time_process_time)
    time.time_ns = mk(time.time_ns, True, True)
    time.monotonic_ns = mk(time.monotonic_ns, True)
    time.perf_counter_ns = mk(time.perf_counter_ns, True)

    def sleep(secs):
        sim, t = cur()
        if sim is None:
            return REAL.time_sleep(secs)
        sim.point('sleep', '')
        sim.wait(lambda: False, 'sleep', timeout=secs)
    time.sleep = sleep

    def wsec(real):
        def f(secs=None):
            if secs is None:
                sim, t = cur()
                if sim is not None:
                    secs = sim.wall
            return real(secs)
        return f
    time.ctime = wsec(REAL.time_ctime)
    time.localtime = wsec(REAL.time_localtime)
    time.gmtime = wsec(REAL.time_gmtime)

    def strftime(fmt, tup=None):
        if tup is None:
            tup = time.localtime()
        return REAL.time_strftime(fmt, tup)
    time.strftime = strftime

    real_dt = _dt.datetime

    class datetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            sim, t = cur()
            if sim is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(sim.wall, tz)

        @classmethod
        def utcnow(cls):
            sim, t = cur()
            if sim is None:
                return real_dt.utcnow()
            return real_dt.fromtimestamp(sim.wall, _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__name__ = 'datetime'
    datetime.__qualname__ = 'datetime'
    datetime.__module__ = 'datetime'
    _dt.datetime = datetime


# ------------------------------------------------------------------ processes
def _need():
    sim, t = cur()
    if sim is None:
        raise HarnessError('multiprocessing used outside the simulation')
    return sim, t


class SimProcess(object):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None, context=None):
        sim, t = _need()
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._parent = proc_of(t)
        self._task = None
        self._daemon = bool(daemon) if daemon is not None else False
        self._name = name
        self._closed = False
        self._parent_pid = t.pid

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _bootstrap(self):
        try:
            self.run()
        finally:
            sim, t = cur()
            if sim is not None and not t.dead and not sim.aborting:
                # a process does not exit before its queue feeder threads have written everything to the pipe
                cap = int(sim.params.get('pipe', 65536))
                for q in sorted(t.feeds, key=lambda q: q.qid):
                    sim.wait(lambda: q.bytes <= cap, 'feeder of ' + q.qid)

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        if self._task is not None:
            raise AssertionError('process has already started')
        self._daemon = bool(v)

    @property
    def name(self):
        return self._name or ('Process-' + (self._task.label if self._task else '?'))

    @name.setter
    def name(self, v):
        self._name = v

    def start(self):
        sim, t = _need()
        assert self._task is None, 'cannot start a process twice'
        p = proc_of(t)
        if p.daemon and p.session is not p:
            raise AssertionError('daemonic processes are not allowed to have children')
        f = sim.point('fork', '', io='fork')
        if f is not None and f['kind'] == 'err':
            _err(sim, t, f, 'EAGAIN')
        memo = {}
        img = [o.__dict__.get(n) for o, n in sim.slots]
        img = fork_copy(img, memo)
        # the child object: same class, copied state
        child = object.__new__(type(self))
        memo[id(self)] = (child, self)
        for k, v in self.__dict__.items():
            child.__dict__[k] = v if k in ('_parent', '_task') else fork_copy(v, memo)
        label = '%s.%d' % (p.label, p.nchild)
        p.nchild += 1
        self._task = sim.spawn(label, child._bootstrap, Mem(img), parent=p, session=p.session, daemon=self._daemon)
        child._task = self._task
        self._task.proc = child
        # the child owns its references now
        del self._target, self._args, self._kwargs

    def join(self, timeout=None):
        sim, t = _need()
        assert self._task is not None, 'can only join a started process'
        assert self._task.parent is proc_of(t), 'can only join a child process'
        sim.point('join', self._task.label)
        task = self._task
        sim.wait(lambda: task.state == 'done', 'join ' + task.label, timeout)

    def is_alive(self):
        sim, t = _need()
        if self._task is None:
            return False
        sim.point('is_alive', self._task.label)
        return self._task.alive()

    def terminate(self, num=15):
        sim, t = _need()
        sim.point('terminate', self._task.label)
        if self._task.alive() and not sim.signal(self._task, num):
            sim.kill(self._task)
            self._term = -num

    def kill(self):
        self.terminate(9)

    def close(self):
        self._closed = True

    @property
    def pid(self):
        return self._task.pid if self._task else None
    ident = pid

    @property
    def exitcode(self):
        if self._task is None or self._task.state != 'done':
            return None
        c = self._task.exitcode
        if c == -9 and getattr(self, '_term', None):
            return self._term
        return c

    @property
    def sentinel(self):
        return self._task

    @property
    def authkey(self):
        return b'sim'

    @property
    def _identity(self):
        return tuple(int(x) + 1 for x in self._task.label.split('.')[1:]) if self._task else ()


class _MainProc(object):
    name = 'MainProcess'
    daemon = False
    _identity = ()
    exitcode = None
    authkey = b'sim'

    def __init__(self, t):
        self.pid = self.ident = t.pid

    def is_alive(self):
        return True


def _current_process():
    sim, t = cur()
    if sim is None:
        return REAL.current_process()
    t = proc_of(t)
    p = getattr(t, 'proc', None)
    return p if p is not None else _MainProc(t)


class Empty(_q.Empty):
    pass


class SimQueue(Shared):
    """Queue served by a manager process: synchronous calls, pickled items."""

    def __init__(self, maxsize=0, feeder=False):
        sim, t = _need()
        self.sim = sim
        self.items = collections.deque()
        self.maxsize = maxsize or 0
        self.qid = 'q%d' % sim.nqueues
        sim.nqueues += 1
        self.unfinished = 0
        self.manager = None
        self.session = t.session
        self.feeder = feeder        # fed through a pipe by a thread of the putting process
        self.bytes = 0
        self.nojoin = set()

    def __reduce__(self):
        return (_lookup_shared, (_register_shared(self),))

    def _check(self):
        sim, t = _need()
        return sim, t

    def _served(self):
        if self.manager in self.sim.managers_dead:
            raise EOFError('the manager process is gone (simulated)')

    def put(self, obj, block=True, timeout=None):
        sim, t = self._check()
        data = pickle.dumps(obj)
        sim.point('put', self.qid)
        self._served()
        if self.maxsize > 0 and len(self.items) >= self.maxsize:
            if not block:
                raise _q.Full()
            if not sim.wait(lambda: len(self.items) < self.maxsize or self.manager in sim.managers_dead, 'put ' + self.qid, timeout):
                raise _q.Full()
            self._served()
        self.items.append(data)
        self.bytes += len(data)
        if self.feeder:
            proc_of(t).feeds.add(self)
        self.unfinished += 1

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        sim, t = self._check()
        sim.point('get', self.qid)
        self._served()
        if not self.items:
            if not block:
                raise _q.Empty()
            if not sim.wait(lambda: self.items or self.manager in sim.managers_dead, 'get ' + self.qid, timeout):
                raise _q.Empty()
            self._served()
        data = self.items.popleft()
        self.bytes -= len(data)
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        sim, t = self._check()
        sim.point('qsize', self.qid)
        self._served()
        return len(self.items)

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return self.maxsize > 0 and self.qsize() >= self.maxsize

    def task_done(self):
        sim, t = self._check()
        sim.point('task_done', self.qid)
        self.unfinished -= 1

    def join(self):
        sim, t = self._check()
        sim.point('qjoin', self.qid)
        sim.wait(lambda: self.unfinished <= 0, 'qjoin ' + self.qid)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        sim, t = self._check()
        proc_of(t).feeds.discard(self)


_SHARED = {}


def _register_shared(o):
    _SHARED[id(o)] = o
    return id(o)


def _lookup_shared(i):
    return _SHARED[i]


class SimLock(Shared):
    def __init__(self, recursive=False, value=1, bound=None):
        sim, t = cur()
        self.recursive = recursive
        self.value = value
        self.owner = None
        self.depth = 0

    def __reduce__(self):
        return (_lookup_shared, (_register_shared(self),))

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        sim, t = cur()
        if sim is None:
            return True
        sim.point('acquire', '')
        if self.recursive and self.owner is t:
            self.depth += 1
            return True
        if self.value <= 0:
            if not block:
                return False
            if not sim.wait(lambda: self.value > 0, 'lock', timeout if timeout is None or timeout >= 0 else None):
                return False
        self.value -= 1
        self.owner = t
        self.depth = 1
        return True

    def release(self):
        sim, t = cur()
        if sim is None:
            return
        if self.recursive:
            self.depth -= 1
            if self.depth:
                return
        self.owner = None
        self.value += 1
        if not t.dead:
            sim.point('release', '')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.value <= 0


class SimEvent(Shared):
    def __init__(self):
        self.flag = False

    def __reduce__(self):
        return (_lookup_shared, (_register_shared(self),))

    def is_set(self):
        sim, t = _need()
        sim.point('ev.is_set', '')
        return self.flag

    def set(self):
        sim, t = _need()
        sim.point('ev.set', '')
        self.flag = True

    def clear(self):
        sim, t = _need()
        sim.point('ev.clear', '')
        self.flag = False

    def wait(self, timeout=None):
        sim, t = _need()
        sim.point('ev.wait', '')
        return bool(sim.wait(lambda: self.flag, 'event', timeout))


class SimValue(Shared):
    def __init__(self, typecode=None, value=0, lock=True):
        object.__setattr__(self, '_v', value)
        object.__setattr__(self, '_lock', SimLock(recursive=True))

    def __reduce__(self):
        return (_lookup_shared, (_register_shared(self),))

    @property
    def value(self):
        sim, t = _need()
        sim.point('val.get', '')
        return self._v

    @value.setter
    def value(self, v):
        sim, t = _need()
        sim.point('val.set', '')
        object.__setattr__(self, '_v', v)

    def get(self):
        return self.value

    def set(self, v):
        self.value = v

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self


class SimProxy(Shared):
    """Manager proxy of a list, dict or namespace: every call is one server request."""

    def __init__(self, obj):
        self.__dict__['_obj'] = obj

    def __reduce__(self):
        return (_lookup_shared, (_register_shared(self),))

    def _call(self, name, *a, **kw):
        sim, t = _need()
        a, kw = pickle.loads(pickle.dumps((a, kw)))
        sim.point('proxy', name)
        r = getattr(self._obj, name)(*a, **kw)
        if name in ('keys', 'values', 'items', '__iter__'):
            r = list(r)
        return pickle.loads(pickle.dumps(r))

    def _getvalue(self):
        return pickle.loads(pickle.dumps(self._obj))


def _mkproxy(name, methods):
    ns = {}
    for m in methods:
        def f(self, *a, _m=m, **kw):
            return self._call(_m, *a, **kw)
        ns[m] = f

    def it(self):
        return iter(self._call('__iter__'))
    ns['__iter__'] = it
    return type(name, (SimProxy,), ns)


ListProxy = _mkproxy('ListProxy', ['append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse',
                                   '__len__', '__getitem__', '__setitem__', '__delitem__', '__contains__', '__add__'])
DictProxy = _mkproxy('DictProxy', ['get', 'keys', 'values', 'items', 'pop', 'popitem', 'update', 'setdefault', 'clear',
                                   'copy', '__len__', '__getitem__', '__setitem__', '__delitem__', '__contains__'])


class NSProxy(SimProxy):
    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        sim, t = _need()
        sim.point('proxy', 'get')
        return pickle.loads(pickle.dumps(getattr(self._obj, k)))

    def __setattr__(self, k, v):
        sim, t = _need()
        v = pickle.loads(pickle.dumps(v))
        sim.point('proxy', 'set')
        setattr(self._obj, k, v)


class SimManager(Shared):
    def __init__(self, *a, **kw):
        sim, t = _need()
        f = sim.point('manager', '', io='fork')
        if f is not None and f['kind'] == 'err':
            _err(sim, t, f, 'EAGAIN')
        self.mid = len(sim.managers)
        sim.managers.append(t.session)

    def start(self, *a, **kw):
        pass

    def Queue(self, maxsize=0):
        q = SimQueue(maxsize)
        q.manager = self.mid
        return q
    JoinableQueue = Queue

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimLock(recursive=True)

    def Semaphore(self, value=1):
        return SimLock(value=value)
    BoundedSemaphore = Semaphore

    def Event(self):
        return SimEvent()

    def Value(self, typecode, value, lock=True):
        return SimValue(typecode, value)

    def list(self, seq=()):
        return ListProxy(list(seq))

    def dict(self, *a, **kw):
        return DictProxy(dict(*a, **kw))

    def Namespace(self, **kw):
        return NSProxy(types.SimpleNamespace(**kw))

    def Pool(self, *a, **kw):
        return SimPool(*a, **kw)

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class AsyncResult(Shared):
    def __init__(self, pool, n, callback=None, error_callback=None, single=True):
        self._pool = pool
        self._vals = [None] * n
        self._left = n
        self._err = None
        self._cb, self._ecb = callback, error_callback
        self._ready = n == 0
        self._single = single
        self._order = []

    def ready(self):
        sim, t = _need()
        sim.point('res.ready', '')
        return self._ready

    def successful(self):
        if not self._ready:
            raise ValueError('not ready')
        return self._err is None

    def wait(self, timeout=None):
        sim, t = _need()
        sim.point('res.wait', '')
        sim.wait(lambda: self._ready, 'pool result', timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._ready:
            raise mp.TimeoutError()
        if self._err is not None:
            raise self._err
        return self._vals[0] if self._single else list(self._vals)

    # called by the result handler inside the owner process
    def _set(self, i, ok, val):
        if not ok:
            if self._err is None:
                self._err = val
        else:
            self._vals[i] = val
        self._order.append((i, ok, val))
        self._left -= 1
        if self._left == 0:
            self._ready = True
            if self._err is None:
                if self._cb:
                    self._cb(self._vals[0] if self._single else list(self._vals))
            elif self._ecb:
                self._ecb(self._err)


class SimPool(Shared):
    """multiprocessing.Pool: n forked workers taking pickled tasks."""
    _loads = staticmethod(pickle.loads)
    _dumps = staticmethod(pickle.dumps)

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        sim, t = _need()
        if processes is None:
            processes = sim.cpu or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self._sim, self._owner = sim, proc_of(t)
        t = self._owner
        self._tasks = collections.deque()
        self._done = collections.deque()
        self._closed = False
        self._terminated = False
        self._outstanding = 0
        self._init = (initializer, initargs)
        self._max = maxtasksperchild
        self._workers = []
        self._n = processes
        for _ in range(processes):
            self._fork()
        self._handler = sim.spawn('%s+r%d' % (t.label, t.nchild), self._handle, t.mem, parent=t,
                                  session=t.session, daemon=True, pid=t.pid, helper=True)
        t.nchild += 1

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def _fork(self):
        sim, t = _need()
        own = self._owner
        f = sim.point('fork', '', io='fork')
        if f is not None and f['kind'] == 'err':
            _err(sim, t, f, 'EAGAIN')
        img = fork_copy([o.__dict__.get(n) for o, n in sim.slots])
        label = '%s.%d' % (own.label, own.nchild)
        own.nchild += 1
        w = sim.spawn(label, self._work, Mem(img), parent=own, session=own.session, daemon=True)
        w.proc = _PoolProc(w)
        self._workers.append(w)

    def _work(self):
        sim, t = _need()
        ini, ia = self._init
        if ini:
            ini(*fork_copy(ia))
        n = 0
        while self._max is None or n < self._max:
            sim.point('pool.get', '')
            sim.wait(lambda: self._tasks or self._closed or self._terminated, 'pool task')
            if self._terminated or not self._tasks:
                return
            data, res, i = self._tasks.popleft()
            try:
                func, args, kw = self._loads(data)
                val = (True, func(*args, **kw))
            except Exception as e:
                val = (False, e)
            try:
                out = self._dumps(val)
            except Exception as e:
                out = self._dumps((False, RuntimeError('MaybeEncodingError: %s' % e)))
            sim.point('pool.put', '')
            self._done.append((out, res, i))
            n += 1
        # maxtasksperchild reached: replace this worker
        if not (self._closed and not self._tasks):
            self._respawn = True

    def _handle(self):
        sim, t = _need()
        while True:
            sim.wait(lambda: self._done or (self._closed and self._outstanding == 0) or self._terminated, 'pool results')
            if self._terminated or not self._done:
                return
            sim.point('pool.result', '')
            if not self._done:
                continue
            data, res, i = self._done.popleft()
            ok, val = self._loads(data)
            self._outstanding -= 1
            res._set(i, ok, val)

    def _submit(self, func, args, kw, res, i):
        self._outstanding += 1
        try:
            data = self._dumps((func, tuple(args), dict(kw or {})))
        except Exception as e:
            self._outstanding -= 1
            res._set(i, False, e)
            return
        self._tasks.append((data, res, i))

    def _running(self):
        if self._closed or self._terminated:
            raise ValueError('Pool not running')

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        sim, t = _need()
        self._running()
        sim.point('pool.apply', '')
        res = AsyncResult(self, 1, callback, error_callback)
        self._submit(func, args, kwds, res, 0)
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _map(self, func, arglist, callback=None, error_callback=None):
        sim, t = _need()
        self._running()
        sim.point('pool.map', '')
        res = AsyncResult(self, len(arglist), callback, error_callback, single=False)
        for i, a in enumerate(arglist):
            self._submit(func, a, {}, res, i)
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, [(x,) for x in iterable], callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, [tuple(x) for x in iterable], callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        res = self._map(func, [(x,) for x in iterable])
        n = len(res._vals)

        def gen():
            sim, t = _need()
            for i in range(n):
                sim.wait(lambda: any(o[0] == i for o in res._order), 'imap')
                o = [o for o in res._order if o[0] == i][0]
                if not o[1]:
                    raise o[2]
                yield o[2]
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._map(func, [(x,) for x in iterable])
        n = len(res._vals)

        def gen():
            sim, t = _need()
            for i in range(n):
                sim.wait(lambda: len(res._order) > i, 'imap')
                o = res._order[i]
                if not o[1]:
                    raise o[2]
                yield o[2]
        return gen()

    def close(self):
        sim, t = _need()
        sim.point('pool.close', '')
        self._closed = True

    def terminate(self):
        sim, t = _need()
        if t.dead:
            return
        sim.point('pool.terminate', '')
        self._closed = self._terminated = True
        for w in self._workers:
            if w.alive():
                sim.kill(w)

    def join(self):
        sim, t = _need()
        if not (self._closed or self._terminated):
            raise ValueError('Pool is still running')
        sim.point('pool.join', '')
        sim.wait(lambda: self._terminated or (self._outstanding == 0 and all(not w.alive() for w in self._workers)),
                 'pool join')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThreadPool(SimPool):
    """multiprocessing.pool.ThreadPool: the workers are threads of the calling process."""
    _loads = _dumps = staticmethod(lambda x: x)

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)

    def _fork(self):
        sim, t = _need()
        own = self._owner
        label = '%s+t%d' % (own.label, own.nthread)
        own.nthread += 1
        self._workers.append(sim.spawn(label, self._work, own.mem, parent=own, session=own.session, daemon=True,
                                       pid=own.pid, helper=True))


class _PoolProc(object):
    daemon = True

    def __init__(self, t):
        self._t = t
        self.name = 'ForkPoolWorker-' + t.label
        self._identity = tuple(int(x) + 1 for x in t.label.split('.')[1:])

    @property
    def pid(self):
        return self._t.pid
    ident = pid

    def is_alive(self):
        return self._t.alive()


class SimContext(object):
    Process = SimProcess
    Pool = staticmethod(lambda *a, **k: SimPool(*a, **k))
    Manager = staticmethod(lambda *a, **k: SimManager(*a, **k))
    Queue = staticmethod(lambda maxsize=0: SimQueue(maxsize, feeder=True))
    JoinableQueue = Queue
    SimpleQueue = staticmethod(lambda: SimQueue())
    Lock = staticmethod(lambda: SimLock())
    RLock = staticmethod(lambda: SimLock(recursive=True))
    Semaphore = staticmethod(lambda value=1: SimLock(value=value))
    BoundedSemaphore = Semaphore
    Event = staticmethod(lambda: SimEvent())
    Value = staticmethod(lambda *a, **k: SimValue(*a, **k))
    cpu_count = staticmethod(lambda: mp.cpu_count())
    current_process = staticmethod(_current_process)
    TimeoutError = mp.TimeoutError

    @staticmethod
    def get_start_method(allow_none=False):
        return 'fork'

    @staticmethod
    def get_context(method=None):
        return CONTEXT


CONTEXT = SimContext()


def _patch_mp():
    REAL.current_process = mp.current_process
    REAL.mp_cpu_count = mp.cpu_count
    pairs = {}
    for n in ('Process', 'Pool', 'Manager', 'Queue', 'JoinableQueue', 'SimpleQueue', 'Lock', 'RLock',
              'Semaphore', 'BoundedSemaphore', 'Event', 'Value'):
        real = getattr(mp, n)
        setattr(REAL, 'mp_' + n, real)
        pairs[n] = real
        simv = getattr(SimContext, n)
        if n == 'Process':
            mp.Process = SimProcess
            continue

        def f(*a, _real=real, _sim=simv, **kw):
            sim, t = cur()
            return _real(*a, **kw) if sim is None else _sim(*a, **kw)
        f.__name__ = n
        setattr(mp, n, f)

    def cpu_count():
        sim, t = cur()
        return REAL.mp_cpu_count() if sim is None else sim.cpu
    mp.cpu_count = cpu_count
    mp.current_process = _current_process

    def get_context(method=None):
        sim, t = cur()
        return REAL.mp_get_context(method) if sim is None else CONTEXT
    REAL.mp_get_context = mp.get_context
    mp.get_context = get_context

    def active_children():
        sim, t = cur()
        if sim is None:
            return REAL.mp_active_children()
        return [c.proc for c in sim.tasks if c.parent is proc_of(t) and c.alive() and not c.helper]
    REAL.mp_active_children = mp.active_children
    mp.active_children = active_children
    mp.pool.Pool = SimPool
    import multiprocessing.managers as managers
    REAL.SyncManager = managers.SyncManager

    def SyncManager(*a, **kw):
        sim, t = cur()
        return REAL.SyncManager(*a, **kw) if sim is None else SimManager(*a, **kw)
    managers.SyncManager = SyncManager
    REAL.ThreadPool = mp.pool.ThreadPool

    def ThreadPool(*a, **kw):
        sim, t = cur()
        return REAL.ThreadPool(*a, **kw) if sim is None else SimThreadPool(*a, **kw)
    mp.pool.ThreadPool = ThreadPool
    mp.process.current_process = _current_process


def install(root):
    """Replace the seams; `root` is the scratch directory standing for the machine's disk."""
    global ROOT
    ROOT = os.path.realpath(root)
    REAL.open = io.open
    REAL.rmtree = shutil.rmtree
    _patch_os()
    _patch_time()
    _patch_mp()
    threads.install()
    builtins.open = sim_open
    io.open = sim_open
    # modules that hold the function itself
    for name, mod in list(sys.modules.items()):
        if name == '_io' or name.partition('.')[0] == 'sim' or not isinstance(mod, types.ModuleType):
            continue
        for k in [k for k, v in list(vars(mod).items()) if v is REAL.open]:
            setattr(mod, k, sim_open)

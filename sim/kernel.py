"""Deterministic scheduler: simulated processes, queues, locks, pools, clock.

A simulated process ("task") is a real Python thread that is parked on its own
lock; exactly one task runs at any time and every hand-over happens inside
`Sim.point` / `Sim.wait`, where the next task is chosen by the seeded (or
replayed) choice list.  Nothing here reads a real clock or a real random source.
"""
import _thread
import collections
import copy
import hashlib
import io
import logging
import pickle
import queue as _queue_mod
import random
import re
import sys
import threading
import types
import concurrent.futures.thread as _cf_thread

_allocate_lock = _thread.allocate_lock
_RealThread = threading.Thread

CUR = None            # the Sim now running, or None
BYPASS = [0]          # > 0 while the simulator itself creates a real thread


class SimKilled(BaseException):
    """The simulated process was killed (SIGKILL)."""


class SimAbort(BaseException):
    """The run is over; unwind."""


class HarnessError(Exception):
    """A defect of the simulator itself."""


class Mem(object):
    """Address space of a simulated process: its image of the module globals."""
    __slots__ = ('image',)

    def __init__(self, image):
        self.image = image


class Task(object):
    def __init__(self, sim, label, fn, mem, parent=None, pid=None, session=None, daemon=False):
        self.born = sim.step
        self.sim = sim
        self.label = label
        self.fn = fn
        self.mem = mem
        self.parent = parent
        self.pid = pid
        self.session = session if session is not None else self
        self.daemon = daemon
        self.lock = _allocate_lock()
        self.lock.acquire()
        self.state = 'ready'        # ready | blocked | done
        self.pred = None
        self.deadline = None
        self.dead = False           # killed; ignore everything it still does
        self.pending = None         # asynchronous exception to raise at next point
        self.exitcode = None
        self.result = None
        self.error = None
        self.nops = 0
        self.nchild = 0
        self.weight = 1.0
        self.index = len(sim.tasks)
        self.t_end = None
        self.helper = False         # thread inside another process
        self.io_writes = 0
        self.feeds = set()
        self.tlocks = {}            # locks of `threading` held in this process: lock -> [task, depth]
        self.nthread = 0
        self.pythread = None        # the Thread object of a simulated thread
        self.sigs = {}              # signal handlers that were installed

    def alive(self):
        return self.state != 'done'


def proc_of(t):
    """The process a task belongs to (itself, unless it is a thread)."""
    return t.parent if t.helper and t.parent is not None else t


class Sim(object):
    def __init__(self, seed=0, choices=None, faults=(), params=None):
        self.params = dict(params or {})
        self.seed = seed
        self.rng = random.Random('sched-%s' % seed)
        self.env_rng = random.Random('env-%s' % self.params.get('env_seed', seed))
        self.replay = list(choices) if choices is not None else None
        self.choices = []
        self.tasks = []
        self.cur = None
        self.main_lock = _allocate_lock()
        self.main_lock.acquire()
        self.step = 0
        self.now = float(self.params.get('t0', 1700000000.0))
        self.t0 = self.now
        self.skew = 0.0         # of the wall clock
        self.clock = sorted(map(tuple, self.params.get('clock') or ()))     # (step, seconds): somebody sets it
        self.tick = float(self.params.get('tick', 0.001))
        self.idle = 0
        self.stall_p = float(self.params.get('stall_p', 0.0))
        self.stall_max = float(self.params.get('stall', 45.0))
        self.max_steps = int(self.params.get('max_steps', 60000))
        self.p_switch = float(self.params.get('p_switch', 0.5))
        self.weights_mode = self.params.get('weights', 'flat')
        self.cpu = int(self.params.get('cpu', 4))
        self.pid_mode = self.params.get('pid_mode', 'fresh')
        self.bufsize = int(self.params.get('bufsize', 8192))
        self.log = []
        self.loghash = hashlib.blake2b(digest_size=16)
        self.orderhash = hashlib.blake2b(digest_size=8)
        self.faults = {}
        self.global_faults = {}
        for f in faults:
            if f.get('proc') is None:
                self.global_faults.setdefault(int(f['n']), []).append(f)
            else:
                self.faults.setdefault((f['proc'], int(f['n'])), []).append(f)
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.verdict = None          # None | 'deadlock' | 'livelock'
        self.verdict_detail = None
        self.aborting = False
        self.used_pids = set()
        self.next_pid = 1000 + self.env_rng.randrange(100)
        self.nqueues = 0
        self.keep_log = bool(self.params.get('keep_log', False))
        self.ops = [] if self.params.get('keep_ops') else None
        self.exists = lambda rel: False
        self.created = {} if self.params.get('keep_files') else None
        self.disk_full_until = (1 << 60) if self.params.get('disk_full') else -1
        self.open_fds = {}
        self.raws = []             # files opened, for those that must not stay open
        self.flocks = {}
        self.slots = []
        self.root = None
        self.blocked_write = []
        self.managers = []        # session of each manager process
        self.managers_dead = set()
        self.harness_errors = []

    # ---------------------------------------------------------------- choice
    def choose(self, n, default=0, weights=None):
        """One recorded scheduling decision in range(n)."""
        if n <= 1:
            return 0
        k = len(self.choices)
        if self.replay is not None:
            v = self.replay[k] if k < len(self.replay) else 0
            if v >= n:
                v = 0
        else:
            if self.rng.random() >= self.p_switch:
                v = default
            elif weights:
                tot = sum(weights)
                r = self.rng.random() * tot
                v = n - 1
                for i, w in enumerate(weights):
                    r -= w
                    if r < 0:
                        v = i
                        break
            else:
                v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    # ---------------------------------------------------------------- log
    def record(self, label, kind, detail):
        line = '%s|%s|%s' % (label, kind, detail)
        self.loghash.update(line.encode('utf-8', 'surrogatepass'))
        self.orderhash.update(('%s|%s;' % (label, kind)).encode())
        if self.keep_log:
            self.log.append((label, kind, detail))

    # ---------------------------------------------------------------- pids
    def new_pid(self):
        live = {t.pid for t in self.tasks if t.alive()}
        if self.pid_mode == 'reuse':
            pool = list(range(1000, 1000 + 8 + len(live)))
            cand = [p for p in pool if p not in live]
            return cand[self.env_rng.randrange(len(cand))] if self.env_rng.random() < 0.3 else cand[0]
        if self.pid_mode == 'mixed':
            # numbers that look alike: one the beginning or the end of another, the same low digits or bits
            for _ in range(50):
                base = self.env_rng.choice([t.pid for t in self.tasks] or [self.env_rng.choice([12, 317, 1000, 4096])])
                d = self.env_rng.randrange(10)
                p = self.env_rng.choice([base * 10 + d, base * 10 + d, base // 10, base + 1000, base + 32768, base + 65536,
                                         base + 10 ** (len(str(base))), base + 1])
                if 2 <= p < 4194304 and p not in live:
                    return p
        self.next_pid += 1 + self.env_rng.randrange(3)
        while self.next_pid in live:
            self.next_pid += 1
        return self.next_pid

    # ---------------------------------------------------------------- tasks
    def spawn(self, label, fn, mem, parent=None, session=None, daemon=False, pid=None, helper=False):
        t = Task(self, label, fn, mem, parent=parent, pid=pid if pid is not None else self.new_pid(),
                 session=session, daemon=daemon)
        t.helper = helper
        if parent is not None and not helper:       # fork: handlers and locks are inherited, threads are not
            t.sigs = dict(parent.sigs)
            for lk, (owner, depth) in parent.tlocks.items():
                if not lk.atfork:
                    t.tlocks[lk] = [t if owner is self.cur else None, depth]
        if self.weights_mode == 'skew':
            t.weight = self.env_rng.choice([0.02, 0.2, 1.0, 1.0, 5.0, 40.0])
        self.tasks.append(t)
        BYPASS[0] += 1
        try:
            th = _RealThread(target=self._body, args=(t,), name='sim-' + label)
            th.daemon = True
            t.thread = th
            th.start()
        finally:
            BYPASS[0] -= 1
        return t

    def _body(self, t):
        t.lock.acquire()
        try:
            if self.aborting or t.dead:
                raise SimAbort()
            try:
                t.result = t.fn()
            except (SimKilled, SimAbort):
                raise
            except BaseException:
                self._join_threads(t)
                raise
            self._join_threads(t)
            t.exitcode = 0
        except SimKilled:
            t.exitcode = -9
        except SimAbort:
            t.exitcode = -9
        except SystemExit as e:
            c = e.code
            t.exitcode = 0 if c is None else (c if isinstance(c, int) else 1)
        except BaseException as e:
            t.exitcode = 1
            t.error = (type(e).__name__, str(e)[:300], _tb_summary(e))
            t.exc_type = type(e)
        if t.dead:
            t.exitcode = -9
        self._finish(t)

    def _join_threads(self, t):
        """A process ends after its (non-daemonic) threads."""
        if t.helper or t.dead or self.aborting:
            return
        mine = [c for c in self.tasks if c.helper and c.parent is t and c.pythread is not None and not c.daemon
                and c.pythread not in _cf_thread._threads_queues]
        if any(c.alive() for c in mine):
            self.wait(lambda: not any(c.alive() for c in mine), 'threads')

    def _finish(self, t):
        t.state = 'done'
        t.fn = None
        t.pred = None
        if self.aborting:
            t.sim.main_lock.release()
            return
        self.record(t.label, 'exit', t.exitcode)
        if not t.helper and t.session is t:
            # orderly or disorderly end of a session's main process
            for c in self.tasks:
                if c.session is t and c is not t and c.alive() and not t.dead:
                    if c.daemon or c.helper:
                        self._mark_dead(c)
        elif not t.helper:
            for c in self.tasks:
                if c.helper and c.parent is t and c.alive():
                    self._mark_dead(c)
        nxt = self._pick(None)
        if nxt is None:
            self.main_lock.release()
        else:
            self._switch_mem(t, nxt)
            self.cur = nxt
            nxt.lock.release()

    def _mark_dead(self, t):
        if t.state == 'done':
            return
        t.dead = True
        if t.state == 'blocked':
            t.state = 'ready'
            t.pred = None
            t.deadline = None

    def kill(self, t):
        """SIGKILL a process (and the helper threads inside it)."""
        self._mark_dead(t)
        for c in self.tasks:
            if c.helper and c.parent is t:
                self._mark_dead(c)

    def kill_session(self, root):
        for c in self.tasks:
            if c.session is root and c.alive():
                self._mark_dead(c)

    def _ready(self):
        for t in self.tasks:
            if t.state == 'blocked':
                if t.dead or t.pending is not None or t.pred() or (t.deadline is not None and t.deadline <= self.now):
                    t.state = 'ready'
        return [t for t in self.tasks if t.state == 'ready']

    def _sessions_live(self):
        return any(t.session is t and not t.helper and t.alive() for t in self.tasks)

    def _pick(self, cur):
        """Choose who runs next; None means the run is over."""
        while True:
            ready = self._ready()
            if ready:
                break
            if not self._sessions_live():
                return None
            dl = [t.deadline for t in self.tasks if t.state == 'blocked' and t.deadline is not None]
            if dl:
                self.now = max(self.now, min(dl))
                self.idle += 1
                if self.idle > 300:         # timed waits may be late: someone polls while another is stalled for long
                    self.now += 0.05 * max(0.0, max(dl) - self.now)
                continue
            self.verdict = 'deadlock'
            self.verdict_detail = ', '.join('%s waits for %s' % (t.label, getattr(t, 'waiting', '?'))
                                            for t in self.tasks if t.state == 'blocked')
            return None
        if not self._sessions_live() and not any(t.dead for t in ready) and self.params.get('stop_with_sessions', False):
            return None
        if cur is not None and cur.state == 'ready':
            ready.remove(cur)
            ready.insert(0, cur)
        w = [t.weight for t in ready] if self.weights_mode == 'skew' else None
        return ready[self.choose(len(ready), 0, w)]

    def _switch_mem(self, a, b):
        if a.mem is b.mem or not self.slots:
            return
        save, load = a.mem.image, b.mem.image
        for i, (owner, name) in enumerate(self.slots):
            save[i] = owner.__dict__.get(name)
            v = load[i]
            if v is not save[i]:
                setattr(owner, name, v)

    def _yield(self, t):
        """Give the scheduler the choice; returns when t runs again."""
        nxt = self._pick(t)
        if nxt is t:
            return
        if nxt is None:
            self.main_lock.release()
            t.lock.acquire()
        else:
            self._switch_mem(t, nxt)
            self.cur = nxt
            nxt.lock.release()
            t.lock.acquire()
        if self.aborting:
            raise SimAbort()

    @property
    def wall(self):
        return self.now + self.skew

    def point(self, kind, detail='', io=None):
        """An interaction of the running process with the outside world."""
        if self.aborting:
            raise SimAbort()
        t = self.cur
        if t.dead:
            raise SimKilled()
        self.step += 1
        if self.step > self.max_steps:
            self.verdict = 'livelock'
            self.verdict_detail = '%d steps without finishing' % self.step
            self.main_lock.release()
            t.lock.acquire()
            raise SimAbort()
        self.now += self.tick
        while self.clock and self.step >= self.clock[0][0]:
            self.skew += self.clock.pop(0)[1]
            self.fired['clock_jump'] += 1
        if self.stall_p and self.env_rng.random() < self.stall_p:
            long = self.env_rng.random() * self.stall_max
            self.fired['stall'] += 1
            if self.env_rng.random() < 0.5 or t.helper:
                self.now += long            # the whole machine
            else:
                self.wait(lambda: False, 'stalled', timeout=long)
        self._yield(t)
        if t.dead:
            raise SimKilled()
        if t.pending is not None:
            self._deliver(t)
        t.nops += 1
        self.record(t.label, kind, detail)
        if self.ops is not None:
            self.ops.append((t.label, t.nops, kind, detail, io, self.step, t.helper))
        if self.created is not None and io in ('create', 'rename', 'mkdir') and isinstance(detail, str) \
                and not (io == 'mkdir' and self.exists(detail)):
            self.created.setdefault(detail, set()).add(t.label)
        hit = None
        gf = self.global_faults.pop(self.step, None)
        fl = self.faults.pop((t.label, t.nops), None)
        for f in (gf or []) + (fl or []):
            h = self._apply_fault(t, f, kind, io)
            if h is not None:
                hit = h
        return hit

    def _deliver(self, t):
        e, t.pending = t.pending, None
        if isinstance(e, BaseException):
            raise e
        e()

    def signal(self, root, num):
        """A signal arrives at a process; False if it is to be killed."""
        import signal as _s
        num = _s.Signals(num)
        if num == _s.SIGKILL:
            return False
        h = root.sigs.get(num, _s.default_int_handler if num == _s.SIGINT else _s.SIG_DFL)
        if h is _s.SIG_IGN:
            return True
        if h is _s.SIG_DFL:
            return num in (_s.SIGCHLD, _s.SIGCONT, _s.SIGURG, _s.SIGWINCH)
        root.pending = KeyboardInterrupt() if h is _s.default_int_handler else (lambda: h(int(num), None))
        return True

    def _apply_fault(self, t, f, kind, io):
        k = f['kind']
        if k == 'kill':
            self.fired['kill'] += 1
            self.record(t.label, 'FAULT', k)
            self.kill(t)
            if t.helper:
                return None
            raise SimKilled()
        if k == 'kill_session':
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            self.kill_session(t.session)
            raise SimKilled()
        if k == 'kill_main':
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            root = t.session
            self.kill(root)
            if root is t:
                raise SimKilled()
            return None
        if k == 'sigint':
            root = t.session
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            if not self.signal(root, 2):
                self.kill(root)
                if root is t:
                    raise SimKilled()
            elif root is t and t.pending is not None:
                self._deliver(t)
            return None
        if k == 'kill_child':
            # kill some live child process of this session (chosen by index)
            kids = [c for c in self.tasks if c.session is t.session and c is not c.session
                    and not c.helper and c.alive() and not c.dead]
            if kids:
                self.fired['kill'] += 1
                v = kids[f.get('i', 0) % len(kids)]
                self.record(v.label, 'FAULT', 'kill')
                self.kill(v)
                if v is t:
                    raise SimKilled()
            return None
        if k == 'kill_manager':
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            self.managers_dead.update(i for i, m in enumerate(self.managers) if m == t.session)
            return None
        if k == 'clock_jump':
            self.fired[k] += 1
            self.skew += float(f.get('by', 3600.0))
            return None
        if k == 'stall':
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            by = float(f.get('by', 700.0))
            if t.helper:
                self.now += by
            else:
                self.wait(lambda: False, 'stalled', timeout=by)
            return None
        if k == 'memerr':
            if f.get('io') and io is None:
                return None
            self.fired[k] += 1
            self.record(t.label, 'FAULT', k)
            raise MemoryError('simulated allocation failure')
        if k in ('err', 'torn', 'short', 'disk_full'):
            if io is None or (k == 'err' and io == 'stat' and not f.get('stat')):
                return None         # os.path.exists hides such errors; see DESIGN.md
            if k == 'torn' and io != 'write':
                self.fired['kill'] += 1
                self.record(t.label, 'FAULT', 'kill')
                self.kill(t)
                raise SimKilled()
            if k == 'short' and io != 'write':
                return None
            if k == 'disk_full':
                if io not in ('write', 'create', 'mkdir'):
                    return None
                self.disk_full_until = self.step + int(f.get('span', 200))
                self.fired[k] += 1
                self.record(t.label, 'FAULT', k)
                return None
            return f
        raise HarnessError('unknown fault kind %r' % (k,))

    def wait(self, pred, what, timeout=None):
        """Block the running process until pred() holds; True if it did."""
        t = self.cur
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        while not pred():
            if deadline is not None and self.now >= deadline:
                return False
            t.state = 'blocked'
            t.pred = pred
            t.deadline = deadline
            t.waiting = what
            self._yield(t)
            if t.dead:
                raise SimKilled()
            if t.pending is not None:
                self._deliver(t)
        return True

    # ---------------------------------------------------------------- run
    def run(self, session_fns, wall=120.0):
        """Run session main functions [(label, fn, start_delay)] to completion."""
        global CUR
        from . import seams
        if CUR is not None:
            raise HarnessError('nested simulation')
        self.slots = seams.global_slots()
        base = [o.__dict__.get(n) for o, n in self.slots]
        CUR = self
        try:
            for label, fn in session_fns:
                mem = Mem([fork_copy(v) for v in base])
                self.spawn(label, fn, mem)
            first = self._pick(None)
            if first is None:
                return
            img = first.mem.image
            for i, (o, n) in enumerate(self.slots):
                setattr(o, n, img[i])
            self.cur = first
            first.lock.release()
            if not self.main_lock.acquire(timeout=wall):
                self.verdict = 'wall'
                self.verdict_detail = 'no simulated operation for %.0f s in %s' % (
                    wall, self.cur.label)
                self.aborting = True
                return
        finally:
            self.aborting = True
            if self.verdict != 'wall':
                for t in self.tasks:
                    if t.state != 'done':
                        t.dead = True
                        self.cur = t
                        t.lock.release()
                        if not self.main_lock.acquire(timeout=60):
                            self.harness_errors.append('could not unwind %s' % t.label)
                            break
                for t in self.tasks:
                    t.thread.join(10)
            CUR = None
            for (o, n), v in zip(self.slots, base):
                setattr(o, n, v)

    def state_hash(self):
        return self.loghash.hexdigest()


def _tb_summary(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        fn = c.co_filename
        if '/nephosem/' in fn:
            out.append('%s:%s' % (fn.split('/nephosem/')[-1], c.co_name))
        tb = tb.tb_next
    return out[-4:]


# ------------------------------------------------------------------ fork copy
_ATOMIC = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType,
           types.BuiltinFunctionType, types.ModuleType, re.Pattern, re.Match, range,
           types.CodeType, property, staticmethod, classmethod, types.GeneratorType,
           io.IOBase, type(Ellipsis), type(NotImplemented))


def _handler(h, memo):
    """A log handler in a forked process: its own state and buffers, on the same open file."""
    from . import seams
    y = object.__new__(type(h))
    memo[id(h)] = (y, h)
    for k, v in h.__dict__.items():
        y.__dict__[k] = v if k in ('lock', 'formatter', 'filters') else seams.forked_stream(v) if isinstance(v, io.TextIOWrapper) else _fc(v, memo)
    return y


class Shared(object):
    """Base of simulator objects that live outside any process."""


def fork_copy(x, memo=None):
    """What a forked child sees: a deep copy of everything except shared OS objects."""
    if memo is None:
        memo = {}
    return _fc(x, memo)


def _fc(x, memo):
    cls = x.__class__ if not isinstance(x, type) else type
    if cls in (str, int, float, bool, type(None), bytes):
        return x
    if isinstance(x, _ATOMIC) or isinstance(x, Shared):
        return x
    i = id(x)
    if i in memo:
        return memo[i][0]
    tx = type(x)
    if tx is list:
        y = []
        memo[i] = (y, x)
        y.extend(_fc(v, memo) for v in x)
        return y
    if tx is dict:
        y = {}
        memo[i] = (y, x)
        for k, v in x.items():
            y[_fc(k, memo)] = _fc(v, memo)
        return y
    if tx is tuple:
        y = tuple(_fc(v, memo) for v in x)
        memo[i] = (y, x)
        return y
    if tx is set:
        y = set()
        memo[i] = (y, x)
        y.update(_fc(v, memo) for v in x)
        return y
    if tx is frozenset:
        y = frozenset(_fc(v, memo) for v in x)
        memo[i] = (y, x)
        return y
    if tx is collections.deque:
        y = collections.deque(maxlen=x.maxlen)
        memo[i] = (y, x)
        y.extend(_fc(v, memo) for v in x)
        return y
    if tx is collections.defaultdict:
        y = collections.defaultdict(x.default_factory)
        memo[i] = (y, x)
        for k, v in x.items():
            y[_fc(k, memo)] = _fc(v, memo)
        return y
    if tx in (collections.OrderedDict, collections.Counter):
        y = tx()
        memo[i] = (y, x)
        for k, v in x.items():
            y[_fc(k, memo)] = _fc(v, memo)
        return y
    if tx is types.MethodType:
        y = types.MethodType(x.__func__, _fc(x.__self__, memo))
        memo[i] = (y, x)
        return y
    mod = tx.__module__ or ''
    if isinstance(x, logging.Handler):
        return _handler(x, memo)
    if mod.startswith(('logging', 'threading', '_thread', 'tqdm')):
        return x
    if mod.startswith(('numpy', 'scipy', 'pandas', 'sklearn')):
        y = copy.deepcopy(x)
        memo[i] = (y, x)
        return y
    if tx.__name__ == 'partial' and mod == 'functools':
        y = tx(_fc(x.func, memo), *[_fc(a, memo) for a in x.args],
               **{k: _fc(v, memo) for k, v in x.keywords.items()})
        memo[i] = (y, x)
        return y
    d = getattr(x, '__dict__', None) if not mod.startswith('nephosem') else x.__dict__
    if isinstance(d, dict) and not hasattr(tx, '__slots__') and not isinstance(
            x, (list, dict, set, tuple, str, int, float)):
        try:
            y = object.__new__(tx)
        except TypeError:
            y = copy.deepcopy(x)
            memo[i] = (y, x)
            return y
        memo[i] = (y, x)
        yd = y.__dict__
        for k, v in d.items():
            yd[k] = _fc(v, memo)
        return y
    y = copy.deepcopy(x)
    memo[i] = (y, x)
    return y

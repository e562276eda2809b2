"""The log file holds every warning of every session, worker and thread, once."""
import collections
import copy
import importlib
import logging
import multiprocessing as mp
import os
import random
import re
import threading

from sim import builds, disk, env, faults, kernel, seams

ID = 'C18'

LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}
LOGGERS = ['nephosem', 'nephosem.core.handler', 'nephosem.models.typetoken', 'nephosem.models.cbc', 'nephosem.study', 'nephosem.utils']
LOGS = ['own.log', 'other.log', 'sub/own.log', 'a log']
BITS = ['', 'x', ' %d of %s' % (3, 'y'), ' 100%', ' {}', 'é™中', '\nsecond line', '\tTAB ', 'WARNING: ', ' "q\'', 'z' * 300, 'long ' * 900, '[ERROR]']
HEAD = re.compile(r'(?m)^\d\d/\d\d/\d\d\d\d \d\d:\d\d:\d\d \[([A-Z]+)\]: ')


# ------------------------------------------------------------------ generation
def gen_msg(rng):
    return {'level': rng.choice(['warning', 'warning', 'warning', 'error', 'error', 'critical', 'info', 'info', 'debug', 'exception', 'log']),
            'lg': rng.choice(LOGGERS), 'pre': rng.choice(BITS), 'post': rng.choice(BITS), 'args': rng.random() < 0.2,
            'same': rng.random() < 0.1}


def gen_op(rng, tier):
    what = rng.choice(['log'] * 8 + ['build'] * 2 + ['fork', 'fork', 'pool', 'threads', 'change', 'level', 'start', 'match'])
    if what == 'log':
        return {'op': 'log', 'msgs': [gen_msg(rng) for _ in range(rng.choice([1, 1, 2, 5]))]}
    if what == 'build':
        return {'op': 'build', 'b': builds.gen_build(rng, rng.choice(['dep', 'dep', 'dep', 'col', 'token', 'item']), small=True, tier=tier),
                'tmp': rng.choice([None, None, 'tmp'])}
    if what in ('fork', 'pool', 'threads'):
        return {'op': what, 'msgs': [[gen_msg(rng) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(rng.choice([1, 2, 3]))],
                'mine': [gen_msg(rng) for _ in range(rng.choice([0, 1, 2]))]}
    if what == 'change':
        return {'op': 'change', 'name': rng.choice(LOGS)}
    if what == 'match':
        return {'op': 'match', 'edges': rng.choice([[[1, 2], [2, 1]], [[1, 2], [3, 4]], [[1, 2], [2, 3], [3, 1]]])}
    if what == 'level':
        return {'op': 'level', 'level': rng.choice([10, 20, 30])}
    return {'op': 'start'}


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    ses = [[{'op': 'start'}] + [gen_op(rng, tier) for _ in range(rng.randrange(1, 6))] for _ in range(n)]
    p = builds.sched_params(rng)
    p['stall_p'] = 0
    p['bufsize'] = 8192                 # a message is one write
    p['max_steps'] = 200000
    r = rng.random()
    old = {}
    for k in ['home'] + LOGS:
        if rng.random() < 0.5:
            old[k] = rng.choice([1, 40, 40, 3000, 3000, 200000, 12000000 if rng.random() < 0.15 else 3])
    fl = [{'id': rng.randrange(1 << 30), 'what': rng.choice(['kill_session', 'kill_session', 'kill_main', 'kill', 'logio', 'logio', 'sigint', 'memerr'])}
          for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'ses': ses, 'params': p, 'home': rng.random() < 0.8, 'old': old, 'faults': fl}


# ------------------------------------------------------------------ what the processes do
class Truth(object):
    """What was logged, kept outside the simulated machine."""

    def __init__(self):
        self.calls = []             # [process, session, file, level, text, returned, clean]
        self.file = collections.defaultdict(lambda: [(-1, None)])       # session -> since when its log file is which
        self.depth = collections.Counter()
        self.screen = collections.defaultdict(list)
        self.level = {}
        self.ctx = None
        self.broken = []            # calls that are no message


T = [None]


def file_of(tr, p):
    """The log file of a process, that of its session when it was forked."""
    out = None
    for step, f in tr.file[p.session.label]:
        if p is p.session or step < p.born:
            out = f
    return out


def _key():
    s, t = seams.cur()
    return s, t, (kernel.proc_of(t) if t is not None else None)


class Screen(object):
    """The console."""
    encoding = 'utf-8'
    errors = 'strict'
    name = '<stdout>'
    mode = 'w'
    closed = False

    def write(self, x):
        s, t, p = _key()
        if t is not None and T[0] is not None and not t.dead:
            T[0].screen[p.session.label].append(x)
        return len(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError('no descriptor')

    def close(self):
        pass


def observe(name, orig):
    def f(self, *a, **kw):
        s, t, p = _key()
        if t is None or T[0] is None or not (self.name == 'nephosem' or self.name.startswith('nephosem.')):
            return orig(self, *a, **kw)
        tr = T[0]
        if tr.depth[t.label]:
            return orig(self, *a, **kw)
        try:
            args = a
            level = {'exception': 40, 'warn': 30}.get(name) or LEVELS.get(name)
            if name == 'log':
                level, args = a[0], a[1:]
            text = logging.LogRecord(self.name, level, '', 0, args[0], args[1:], None).getMessage()
        except Exception as err:
            tr.broken.append('%r cannot be logged: %s' % (a, err))
            return orig(self, *a, **kw)
        se = p.session.label
        e = [p.label if p.label == t.label else t.label, se, file_of(tr, p), level, text, False, False, tr.level.get(se, 20)]
        tr.calls.append(e)
        n0 = seams.fired_total()
        tr.depth[t.label] += 1
        try:
            r = orig(self, *a, **kw)
        finally:
            tr.depth[t.label] -= 1
        if not t.dead:
            e[5], e[6] = True, seams.fired_total() == n0
        return r
    return f


NAMES = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'fatal', 'exception', 'log')


class observed(object):
    """Loggers live and watched, their state that of a process."""

    def __enter__(self):
        for n in LOGGERS:
            logging.getLogger(n)
        self.orig = {n: getattr(logging.Logger, n) for n in NAMES if hasattr(logging.Logger, n)}
        for n, f in self.orig.items():
            setattr(logging.Logger, n, observe(n, f))
        lgs = [lg for n, lg in sorted(logging.Logger.manager.loggerDict.items())
               if (n == 'nephosem' or n.startswith('nephosem.')) and isinstance(lg, logging.Logger)]
        self.lgs = lgs
        seams.EXTRA_SLOTS[:] = [(lg, a) for lg in lgs for a in ('handlers', 'level', 'propagate', 'disabled', '_cache', 'filters')]
        self.null, self.raise_ = env.STATE['null'], logging.raiseExceptions
        env.STATE['null'] = Screen()
        logging.raiseExceptions = False
        logging.disable(logging.NOTSET)
        for lg in lgs:
            lg._cache.clear()
        T[0] = Truth()
        return T[0]

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        logging.raiseExceptions = self.raise_
        env.STATE['null'] = self.null
        seams.EXTRA_SLOTS[:] = []
        for n, f in self.orig.items():
            setattr(logging.Logger, n, f)
        for lg in self.lgs:
            lg._cache.clear()
        T[0] = None


def say(m, tag):
    """One message of a user's program."""
    lg = logging.getLogger(m['lg'])
    text = m['pre'] + '<%s>' % tag + m['post'] if not m['same'] else 'once more'
    a = ()
    if m['args']:
        text, a = text.replace('%', '%%') + ' %s and %d', ('one', 2)
    if m['level'] == 'exception':
        try:
            raise ValueError('no such thing')
        except ValueError:
            lg.exception(text, *a)
    elif m['level'] == 'log':
        lg.log(30, text, *a)
    else:
        getattr(lg, m['level'])(text, *a)


def worker(i, msgs, tag):
    for j, m in enumerate(msgs):
        say(m, '%s.%s.%d' % (tag, i, j))


def session(ctx, scn, i):
    tr = T[0]
    me = 's%d' % i
    home = ctx.home + '/tmp/nephosem.log'

    def f():
        nlog = importlib.import_module('nephosem.logging')
        from nephosem.core.graph import SentenceGraph
        for k, op in enumerate(scn['ses'][i]):
            what, tag = op['op'], '%s.%d' % (me, k)
            n0, err, res = seams.fired_total(), None, None
            try:
                if what == 'start':
                    nlog.init_logging()
                    tr.file[me].append((seams.cur()[0].step, home))
                    tr.level[me] = 20
                elif what == 'change':
                    nlog.change_log_file(logging.getLogger('nephosem'), ctx.path('logs', op['name']))
                    tr.file[me].append((seams.cur()[0].step, ctx.path('logs', op['name'])))
                elif what == 'level':
                    logging.getLogger('nephosem').setLevel(op['level'])
                    tr.level[me] = op['level']
                elif what == 'log':
                    for j, m in enumerate(op['msgs']):
                        say(m, '%s.%d' % (tag, j))
                elif what == 'match':       # a sentence that is no tree
                    edges = {tuple(e): {'deprel': 'x'} for e in op['edges']}
                    g = SentenceGraph(nodes={v: {'lemma': 'w%d' % v} for e in edges for v in e}, edges=edges, fname='<%s>' % tag)
                    g.match_pattern(None)
                elif what == 'build':
                    b = op['b']
                    paths = {'tmp-path': ctx.path(op['tmp'])} if op['tmp'] else {}
                    res = builds.session(b, ctx.path('corpus%d.%d' % (i, k)), ctx.path('aux%d.%d' % (i, k)), paths)()
                elif what == 'fork':
                    ps = [mp.Process(target=worker, args=(j, m, tag)) for j, m in enumerate(op['msgs'])]
                    for p in ps:
                        p.start()
                    worker('m', op['mine'], tag)
                    for p in ps:
                        p.join()
                elif what == 'threads':
                    ps = [threading.Thread(target=worker, args=(j, m, tag)) for j, m in enumerate(op['msgs'])]
                    for p in ps:
                        p.start()
                    worker('m', op['mine'], tag)
                    for p in ps:
                        p.join()
                else:
                    with mp.Pool(2) as pool:
                        rs = [pool.apply_async(worker, (j, m, tag)) for j, m in enumerate(op['msgs'])]
                        worker('m', op['mine'], tag)
                        for r in rs:
                            r.get(timeout=500)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            hit = seams.fired_total() > n0
            only = hit and [f.get('log') for f in ctx.trace[-1]['faults']] == [True]
            if err is not None:
                if what in ('start', 'change'):
                    if not hit:
                        return 'exception', '%s raised %s: %s' % (what, type(err).__name__, err)
                    return None
                if only and what == 'build' and not builds.may_raise(op['b'], builds.expected(op['b'])):
                    return 'log-failure', 'a build failed because the log cannot be written: %s: %s' % (type(err).__name__, err)
                if not hit and not (what == 'build' and builds.may_raise(op['b'], builds.expected(op['b']))):
                    return 'exception', '%s raised %s: %s' % (what, type(err).__name__, err)
                ctx.probe('failed')
                if what == 'threads':
                    return None             # they may still be at it
            elif what == 'build':
                d = builds.check_result(op['b'], res, builds.expected(op['b']))
                if d:
                    return 'wrong-result', 'a %s build: %s' % (op['b']['kind'], d)
                ctx.probe('build')
        return None
    return f


# ------------------------------------------------------------------ the verdict
def old_text(name, n):
    line = 'earlier line of %s é' % name
    return (line + '\n') * (n // len(line)) + 'x' * (n % len(line)) + ('\n' if n % 2 else '')


def logfile(ctx, name):
    return ctx.home + '/tmp/nephosem.log' if name == 'home' else ctx.path('logs', name)


def prepare(ctx, scn):
    if scn['home']:
        os.makedirs(ctx.home + '/tmp', exist_ok=True)
    os.makedirs(ctx.path('logs', 'sub'), exist_ok=True)
    for name, n in scn['old'].items():
        if name != 'home' or scn['home']:
            disk.put(logfile(ctx, name), old_text(name, n).encode('utf-8'))
    for i, ops in enumerate(scn['ses']):
        for k, op in enumerate(ops):
            if op['op'] == 'build':
                builds.prepare(op['b'], ctx.path('corpus%d.%d' % (i, k)), ctx.path('aux%d.%d' % (i, k)))


def verdict(ctx, scn, tr, s, exact):
    """Compare the log files with what was logged."""
    if tr.broken:
        ctx.fail('log-message', tr.broken[0])
    vague = {e[1] for e in tr.calls if e[2] is None}
    hurt = {f['proc'].split('+')[0].split('.')[0] for f in ctx.trace[-1]['faults'] if f.get('log')}
    for name in ['home'] + LOGS:
        p = logfile(ctx, name)
        try:
            with seams.REAL.open(p, 'rb') as f:
                data = f.read()
        except FileNotFoundError:
            data = None
        calls = [e for e in tr.calls if e[2] == p]
        old = old_text(name, scn['old'][name]).encode('utf-8') if name in scn['old'] and (name != 'home' or scn['home']) else b''
        if data is None:
            if old:
                ctx.fail('log-lost', 'the log file %s is gone' % name)
            data = b''
        if not data.startswith(old):
            ctx.fail('log-lost', 'what was in the log file %s before is not there any more: %d bytes instead of %d' % (name, len(data), len(old)))
        try:
            new = data[len(old):].decode('utf-8')
        except UnicodeDecodeError:
            if exact:
                ctx.fail('log-damaged', 'the log file %s cannot be decoded' % name)
            new = data[len(old):].decode('utf-8', 'replace')
        must, may = collections.Counter(), collections.Counter()
        for proc, se, file, level, text, ret, clean, lv in calls:
            key = (logging.getLevelName(level), text)
            if level >= 30:
                may[key] += 1
                must[key] += ret and clean and se not in hurt
            elif '[%s]: %s\n' % key in new:
                ctx.fail('log-level', 'a message of level %s is in the log file %s: %.200r' % (key[0], name, text))
        for (level, text), n in sorted(may.items()):
            have = new.count('[%s]: %s\n' % (level, text))
            if not must[level, text] <= have <= n:
                ctx.fail('log-message', '%s %.200r was logged %d times (%d of them surely) but is %d times in the log file %s' % (
                    level, text, n, must[level, text], have, name))
        ctx.probe('messages', sum(must.values()))
        if exact and not vague:
            heads = len(HEAD.findall(new if not old or old.endswith(b'\n') else '\n' + new))
            # the first one may follow an unfinished line
            if not sum(may.values()) - 1 <= heads <= sum(may.values()) and calls:
                ctx.fail('log-message', '%d messages were logged, the log file %s got %d' % (sum(may.values()), name, heads))
            if not calls and new:
                ctx.fail('log-message', 'nothing was logged to %s but it got %.200r' % (name, new))
        # in the order of their process
        last = {}
        for proc, se, file, level, text, ret, clean, lv in calls:
            if level < 30 or not (ret and clean) or se in hurt or may[logging.getLevelName(level), text] > 1:
                continue
            at = new.find('[%s]: %s\n' % (logging.getLevelName(level), text))
            if at < last.get(proc, -1):
                ctx.fail('log-order', 'a later message of %s comes before an earlier one in the log file %s: %.200r' % (proc, name, text))
            last[proc] = at
    if exact:
        for se in {e[1] for e in tr.calls}:
            out = ''.join(tr.screen[se])
            want = collections.Counter(e[4] for e in tr.calls if e[1] == se and e[3] >= e[7] and re.search(r'<s\d+\.[\w.]+>', e[4]))
            for text, n in sorted(want.items()):
                if out.count(text) != n:
                    ctx.fail('console', '%.200r was logged once but is %d times on the console' % (text, out.count(text)))
            ctx.probe('console', len(want))


def place(rng, what, ops):
    logs = [o for o in ops if str(o[3]).endswith(('.log', 'a log'))]
    if what == 'logio':
        o = faults.by_class(rng, [o for o in faults.io_ops(logs)])
        f = o and faults.io_error(rng, o)
        if f and f['kind'] == 'disk_full':
            f = {'proc': f['proc'], 'n': f['n'], 'kind': 'err', 'errno': 'ENOSPC', 'frac': 0.0}
        if f:
            f['log'] = True
        return f
    if what == 'kill':
        o = faults.by_class(rng, [o for o in (logs if rng.random() < 0.5 else ops) if faults.is_child(o[0])])
        return o and faults.kill_at(rng, o, torn=False)
    if rng.random() < 0.6 and logs:             # around a message
        o = rng.choice(logs)
        d = rng.choice([0, 1, 1, 2])
        return {'proc': o[0], 'n': o[1] + d, 'kind': what}
    o = faults.by_class(rng, [o for o in ops if o[0].split('+')[0] == o[0]])
    return o and {'proc': o[0], 'n': o[1], 'kind': what}


def run(scn, ctx):
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)

    def go(name, params, fl=(), exact=True):
        prepare(ctx, scn)
        with observed() as tr:
            s = ctx.sim([('s%d' % i, session(ctx, scn, i)) for i in range(len(scn['ses']))], params, faults=fl, name=name)
        for r in s.raws:                # the files of loggers stay open
            if r() is not None:
                r().close()
        ctx.hang(s, 'a session')
        for t in s.tasks[:len(scn['ses'])]:
            if t.error is not None:
                ctx.fail('exception', 'session died: %s: %s at %s' % t.error)
            if t.result is not None:
                ctx.fail(*t.result)
        verdict(ctx, scn, tr, s, exact)
        return s
    s = go('rec', dict(params, keep_ops=True))
    if not scn['faults']:
        return
    ctx.reset()

    def fl():
        out = [place(random.Random('%s-%s' % (ctx.seed, f['id'])), f['what'], s.ops) for f in scn['faults']]
        return [f for f in out if f]
    go('fault', params, fl, exact=False)


def shrinks(scn):
    for i in range(len(scn['ses'])):
        if len(scn['ses']) > 1:
            x = copy.deepcopy(scn)
            del x['ses'][i]
            yield x
        for j in range(1, len(scn['ses'][i])):
            x = copy.deepcopy(scn)
            del x['ses'][i][j]
            yield x
        for j, op in enumerate(scn['ses'][i]):
            for k in range(len(op.get('msgs', ()))):
                if len(op['msgs']) > 1:
                    x = copy.deepcopy(scn)
                    del x['ses'][i][j]['msgs'][k]
                    yield x
            if op.get('mine'):
                x = copy.deepcopy(scn)
                x['ses'][i][j]['mine'] = []
                yield x
            if op['op'] == 'build':
                for b in builds.shrink_build(op['b']):
                    x = copy.deepcopy(scn)
                    x['ses'][i][j]['b'] = b
                    yield x
    for k in scn['old']:
        x = copy.deepcopy(scn)
        del x['old'][k]
        yield x

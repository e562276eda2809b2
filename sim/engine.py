"""One case = one scenario and a sequence of simulated executions; search, replay, shrink."""
import collections
import copy
import gc
import hashlib
import json
import os
import random
import time

from . import env, kernel, seams
from .kernel import Sim, HarnessError


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class WallTimeout(Exception):
    """Real code ran without any simulated operation for too long; this process is spent."""


class Ctx(object):
    """What a property's run function gets: simulate, record, check."""

    def __init__(self, seed, stats, trace=None):
        self.seed = seed
        self.stats = stats
        self.trace_in = trace
        self.trace = []
        self.n = 0
        self.notes = {}
        self.scratch = env.STATE['scratch']
        self.home = self.scratch + '/home'
        self.work = self.scratch + '/work'
        self.clock = None           # when the last simulation ended
        self.keep_log = False
        self.logs = []

    def path(self, *a):
        return '/'.join((self.work,) + a)

    def sim(self, fns, params, faults=(), wall=None, name='', count=True):
        """Run one simulation; faults may be a callable evaluated only outside replay."""
        k = self.n
        self.n += 1
        choices = None
        if self.trace_in is not None:
            ent = None
            if name:
                ent = next((e for e in self.trace_in if e.get('name') == name), None)
            elif k < len(self.trace_in):
                ent = self.trace_in[k]
            ent = ent or {'choices': [], 'faults': []}
            choices, faults = ent['choices'], ent['faults']
        elif callable(faults):
            faults = faults()
        params = dict(params)
        params.setdefault('env_seed', '%s/%s' % (self.seed, name or k))
        if self.keep_log:
            params['keep_log'] = True
        gap = random.Random('gap-%s-%d' % (self.seed, k)).choice([0, 1, 60, 20000, 300000])
        params.setdefault('t0', self.clock + gap if self.clock else 1700000000.0)
        s = Sim(seed=params.get('sched_seed', '%s/%s' % (self.seed, name or k)), choices=choices, faults=list(faults), params=params)
        s.exists = seams.exists
        ent = {'choices': s.choices, 'faults': list(faults), 'name': name}
        self.trace.append(ent)
        # helper state of the library that outlives a machine is reset per simulation
        env.seed_all(params['env_seed'])
        seams.age(self.scratch, s.now, params['env_seed'])
        with env.quiet():
            s.run(fns, wall=wall or float(os.environ.get('SIM_WALL', '120')))
        self.clock = s.now
        ent['hash'] = s.state_hash()
        if self.keep_log:
            self.logs.append((name, s.log))
        st = self.stats
        st['sims'] += 1
        st['steps'] += s.step
        st['sim_seconds'] += s.now - s.t0
        st['faults_planned'] += len(list(faults))
        for f, c in s.fired.items():
            st['fault:' + f] += c
        if len(s.tasks) > len(fns):
            st['sims_with_children'] += 1
        st_set = self.stats_sets.setdefault('orders', set()) if hasattr(self, 'stats_sets') else None
        if st_set is not None:
            st_set.add(s.orderhash.digest())
            if count and (s.fired or (len(s.tasks) > 1)):
                self.stats_sets.setdefault('nontrivial', set()).add(s.loghash.digest()[:8])
        if s.harness_errors:
            raise HarnessError('; '.join(s.harness_errors))
        if s.verdict == 'wall':
            raise WallTimeout(s.verdict_detail)
        for t in s.tasks:
            if t.error is not None and t.error[0] in ('HarnessError', 'NotImplementedError') and 'simulated' in t.error[1]:
                raise HarnessError(str(t.error))
            if t.error is not None and t.error[0] == 'HarnessError':
                raise HarnessError(str(t.error))
        return s

    def reset(self):
        """A fresh machine (empty disk) for the next simulation of this case."""
        env.wipe()
        os.chdir(self.work)
        seams._SHARED.clear()
        self.clock = None

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def hang(self, s, what='build'):
        if s.verdict in ('deadlock', 'livelock'):
            self.fail('hang', '%s never returns (%s: %s)' % (what, s.verdict, s.verdict_detail))

    def distinct(self, *what):
        """Count a behaviour of a run without simulated operations (random selections)."""
        if hasattr(self, 'stats_sets'):
            self.stats_sets.setdefault('nontrivial', set()).add(hashlib.blake2b(repr(what).encode('utf-8', 'replace'), digest_size=8).digest())

    def probe(self, name, n=1):
        self.stats['probe:' + name] += n


def case_seed(base, idx):
    return '%s:%d' % (base, idx)


def run_case(prop, seed, scn, trace, stats, sets=None, keep_log=False):
    """Run one case; returns (violation or None, ctx)."""
    env.wipe()
    os.chdir(env.STATE['scratch'] + '/work')
    seams._SHARED.clear()
    ctx = Ctx(seed, stats, trace)
    ctx.stats_sets = sets if sets is not None else {}
    ctx.keep_log = keep_log
    v = None
    try:
        prop.run(scn, ctx)
    except Violation as e:
        v = e
    except WallTimeout as e:
        v = Violation('hang', str(e))
        v.spent = True
    return v, ctx


def gen(prop, seed, tier):
    rng = random.Random('scn-%s-%s' % (prop.ID, seed))
    scn = prop.gen(rng, tier)
    return json.loads(json.dumps(scn))


# ------------------------------------------------------------------ shrinking
def _shrinks(prop, scn):
    p = scn.get('params') or {}
    for k, v in (('clock', []), ('stall_p', 0), ('mtime_gran', 0)):
        if p.get(k):
            yield dict(scn, params=dict(p, **{k: v}))
    for s in prop.shrinks(scn):
        yield s


def shrink(prop, seed, scn, trace, kind, budget=45.0):
    """Greedy minimisation of faults, schedule and scenario; same violation kind must persist."""
    t_end = time.monotonic() + budget
    stats = collections.Counter()
    best = (copy.deepcopy(scn), _clean(trace))
    tries = 0

    def attempt(scn2, trace2):
        nonlocal best, tries
        if time.monotonic() > t_end:
            return False
        tries += 1
        try:
            v, ctx = run_case(prop, seed, copy.deepcopy(scn2), copy.deepcopy(trace2), stats)
        except Exception:
            return False
        if getattr(v, 'spent', False):
            raise SystemExit(3)
        if v is not None and v.kind == kind:
            best = (copy.deepcopy(scn2), _clean(ctx.trace))
            return True
        return False

    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        # 1. faults
        for k in range(len(best[1])):
            j = 0
            while k < len(best[1]) and j < len(best[1][k]['faults']):
                t2 = copy.deepcopy(best[1])
                del t2[k]['faults'][j]
                if attempt(best[0], t2):
                    progress = True
                else:
                    j += 1
        # 2. scenario
        cont = True
        while cont and time.monotonic() < t_end:
            cont = False
            for s2 in _shrinks(prop, copy.deepcopy(best[0])):
                if attempt(s2, best[1]):
                    progress = cont = True
                    break
                if time.monotonic() > t_end:
                    break
        # 3. schedule: zero out blocks of choices, then truncate
        for k in range(len(best[1])):
            ch = best[1][k]['choices']
            if not any(ch):
                continue
            t2 = copy.deepcopy(best[1])
            t2[k]['choices'] = []
            if attempt(best[0], t2):
                progress = True
                continue
            size = max(1, len(ch) // 2)
            while size >= 1 and time.monotonic() < t_end:
                i = 0
                while i < len(best[1][k]['choices']):
                    ch = best[1][k]['choices']
                    if any(ch[i:i + size]):
                        t2 = copy.deepcopy(best[1])
                        t2[k]['choices'] = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:]
                        if attempt(best[0], t2):
                            progress = True
                    i += size
                    if time.monotonic() > t_end:
                        break
                size //= 2
    for e in best[1]:
        c = e['choices']
        while c and c[-1] == 0:
            c.pop()
    return best, tries


def _clean(trace):
    return [{'choices': list(e['choices']), 'faults': list(e['faults']), 'name': e.get('name', '')} for e in trace]


def trace_hash(ctx):
    h = hashlib.blake2b(digest_size=16)
    for e in ctx.trace:
        h.update(e['hash'].encode())
    return h.hexdigest()

"""Histories: steps run one after another, each in a simulated process of its own."""
import random

from . import faults, seams


def chain(steps, main):
    """Session functions; the steps of a group run together, after all of the previous group."""
    out = []
    prev, cur, g = [], [], None
    for st in steps:
        if st.get('g', st['id']) != g:
            prev, cur, g = cur, [], st.get('g', st['id'])
        out.append(('s%d' % st['id'], _after(list(prev), main(st))))
        cur.append('s%d' % st['id'])
    return out


def _after(prev, f):
    def main():
        for p in prev:
            seams.wait_session(p)
        if prev:
            seams.free_disk()
        return f()
    return main


def groups(steps):
    """[[index, ...]] of the steps that run together."""
    out, g = [], None
    for i, st in enumerate(steps):
        if st.get('g', st['id']) != g:
            out.append([])
            g = st.get('g', st['id'])
        out[-1].append(i)
    return out


class Versions(object):
    """What loading each key may give: a list of versions; None stands for "the load may raise"."""

    def __init__(self):
        self.state = {}

    def get(self, key):
        return self.state.get(key, [None])

    def during(self, key, saves, atomic=True):
        """Acceptable while the given saves [(outcome, version)] run."""
        return self.get(key) + [w for _, w in saves] + ([] if atomic else [None])

    def after(self, key, saves, atomic=True):
        if not saves:
            return
        ok = [w for how, w in saves if how == 'ok']
        bad = [w for how, w in saves if how != 'ok']
        cur = self.get(key)
        if len(saves) == 1 and ok:
            self.state[key] = ok
        elif ok:
            self.state[key] = ok + bad
        else:
            self.state[key] = cur + bad + ([None] if not atomic and None not in cur else [])


KINDS = ['kill', 'kill', 'kill', 'io', 'io', 'io', 'memerr', 'sigint']


def place(rng, st, ops):
    """Faults for one step, at operations recorded for it."""
    label = 's%d' % st['id']
    mine = [o for o in ops if o[0] == label]
    out = []
    for what in st.get('fault') or ():
        if what == 'io':
            o = faults.by_class(rng, faults.io_ops(mine))
            f = o and faults.io_error(rng, o)
        elif what == 'kill':
            o = faults.by_class(rng, mine)
            f = o and faults.kill_at(rng, o)
        else:
            o = faults.by_class(rng, mine)
            f = o and {'proc': o[0], 'n': o[1], 'kind': what}
        if f:
            out.append(f)
    return out


def run(ctx, steps, main, params, prepare=None):
    """Record the history without faults, then run it with them; returns the faulty simulation."""
    params = dict(params, sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)
    rec = []
    if any(st.get('fault') for st in steps):
        if prepare:
            prepare()
        s = ctx.sim(chain(steps, main), dict(params, keep_ops=True), name='rec', count=False)
        ctx.hang(s, 'history')
        rec = s.ops
        ctx.reset()
    if prepare:
        prepare()

    def fl():
        out = []
        for st in steps:
            if st.get('fault'):
                out += place(random.Random('%s-%s' % (ctx.seed, st['id'])), st, rec)
        return out
    s = ctx.sim(chain(steps, main), params, faults=fl, name='hist')
    ctx.hang(s, 'history')
    return s


def outcome(s, i):
    """'ok' | 'raised' | 'killed' of step i of a simulation."""
    t = s.tasks[i]
    if t.error is not None:
        return 'raised'
    if t.dead or t.exitcode != 0:
        return 'killed'
    return 'ok'


def hit(ctx, st, steps=()):
    """Whether any fault was aimed at this step in the last simulation (a full disk strikes its whole group)."""
    mates = {'s%d' % x['id'] for x in steps if x.get('g') is not None and x.get('g') == st.get('g')}
    return any(f.get('proc') == 's%d' % st['id'] or f['kind'] == 'disk_full' and f.get('proc') in mates
               for f in ctx.trace[-1]['faults'])

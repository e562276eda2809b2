"""A rebuild after crashes is exact; a successful build leaves no temporary files; the corpus is never changed."""
import copy
import os
import random

from sim import builds, disk, faults, seams

ID = 'C07'


def gen(rng, tier):
    kind = rng.choice(['item', 'col', 'col', 'col', 'token', 'token', 'token', 'dep'])
    b = builds.gen_build(rng, kind, small=rng.random() < 0.6, tier=tier)
    p = builds.sched_params(rng)
    p['pid_mode'] = rng.choice(['reuse', 'reuse', 'mixed', 'mixed', 'fresh'])
    n = rng.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 3, 5])
    att = []
    for _ in range(n):
        att.append({'id': rng.randrange(1 << 30),
                    'what': rng.choice(['kill_session'] * 5 + ['kill_main'] * 4 + ['sigint', 'io', 'io', 'kill', 'none'])})
    return {'b': b, 'params': p, 'attempts': att, 'tmp': rng.choice(['own', 'own', 'default']), 'corpus_ro': rng.random() < 0.3}


def place(rng, what, ops, label):
    if what == 'none' or not ops:
        return []
    if what == 'io':
        o = faults.by_class(rng, faults.io_ops(ops))
        f = o and faults.io_error(rng, o)
    elif what == 'kill':
        o = faults.by_class(rng, [o for o in ops if faults.is_child(o[0])])
        f = o and faults.kill_at(rng, o)
    elif what == 'sigint':
        o = faults.by_class(rng, [o for o in ops if o[0] == 's0'])
        f = o and {'proc': o[0], 'n': o[1], 'kind': 'sigint'}
    else:
        o = faults.by_class(rng, [o for o in ops if not o[6]])
        f = o and {'proc': o[0], 'n': o[1], 'kind': what}
    if not f:
        return []
    f['proc'] = label + f['proc'][2:]
    return [f]


def run(scn, ctx):
    b = scn['b']
    root, aux = ctx.path('corpus'), ctx.path('aux')
    paths = {'output-path': ctx.path('out')}
    if scn['tmp'] == 'own':
        paths['tmp-path'] = ctx.path('tmp')
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)
    if scn['corpus_ro']:
        params['readonly'] = ['work/corpus']
    exp = builds.expected(b)
    builds.prepare(b, root, aux)
    s = ctx.sim([('s0', builds.session(b, root, aux, paths))], dict(params, keep_ops=True), name='free')
    builds.check_single(ctx, b, s, exp)
    ops = s.ops

    ctx.reset()
    builds.prepare(b, root, aux)
    before = disk.snapshot(root)
    n = len(scn['attempts'])
    fns = []
    for i in range(n + 1):
        fns.append(('s%d' % i, _after(i, builds.session(b, root, aux, paths))))

    def fl():
        out = []
        for i, a in enumerate(scn['attempts']):
            out += place(random.Random('%s-%s' % (ctx.seed, a['id'])), a['what'], ops, 's%d' % i)
        return out
    params['max_steps'] = 120000
    s = ctx.sim(fns, dict(params, keep_files=True), faults=fl, name='crash')
    ctx.hang(s, 'rebuild')
    t = s.tasks[n]
    if t.error is not None:
        if not builds.may_raise(b, exp):
            ctx.fail('exception', 'the %s build after %d failed attempts raised %s: %s at %s' % ((b['kind'], n) + t.error))
        return
    d = builds.check_result(b, t.result, exp)
    if d:
        ctx.fail('wrong-result', '%s build after %d attempts (%s): %s' % (b['kind'], n, [a['what'] for a in scn['attempts']], d))
    for i in range(n + 1):
        t = s.tasks[i]
        if t.error is not None or t.dead or t.exitcode != 0:
            ctx.probe('attempt-failed')
            continue
        if i < n and s_faults(ctx, t.label):
            continue            # an error may have hit the removal itself
        tmp = (ctx.path('tmp') if scn['tmp'] == 'own' else ctx.path('out/tmp'))[len(ctx.scratch) + 1:] + '/'
        left = sorted(p for p, who in s.created.items() if any(l.split('+')[0].split('.')[0] == t.label for l in who)
                      and (os.path.isfile(ctx.scratch + '/' + p) or os.path.isdir(ctx.scratch + '/' + p) and p.startswith(tmp) and '/' in p[len(tmp):]))
        if left:
            ctx.fail('litter', 'a successful %s build left %d temporary files or folders: %s' % (b['kind'], len(left), left[:3]))
        ctx.probe('successful')
    d = disk.changes(before, disk.snapshot(root))
    if d:
        ctx.fail('corpus-changed', 'the corpus directory was changed: ' + d)


def s_faults(ctx, label):
    return any(f['proc'].split('+')[0].split('.')[0] == label for f in ctx.trace[-1]['faults'])


def _after(i, f):
    def main():
        if i:
            seams.wait_session('s%d' % (i - 1))
            seams.free_disk()
        return f()
    return main


def shrinks(scn):
    if len(scn['attempts']) > 1:
        for i in range(len(scn['attempts'])):
            x = copy.deepcopy(scn)
            del x['attempts'][i]
            yield x
    for b in builds.shrink_build(scn['b']):
        yield dict(scn, b=b)

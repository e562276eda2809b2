"""A failed worker or file never yields a hang or a silently partial result."""
import copy
import os
import random

from sim import builds, cbcgen, corpus, faults, seams

ID = 'C06'


def gen(rng, tier):
    kind = rng.choice(['item', 'item', 'col', 'col', 'col', 'token', 'token', 'token', 'dep', 'dep', 'cbc'])
    p = builds.sched_params(rng)
    p['stall_p'] = 0
    nruns = 4 if tier == 'quick' else 8
    if kind == 'cbc':
        c = cbcgen.gen_cbc(rng, tier)
        return {'kind': 'cbc', 'c': c, 'params': dict(p, cpu=rng.choice([2, 3, 4])),
                'runs': [gen_plan(rng, kind) for _ in range(nruns)]}
    b = builds.gen_build(rng, kind, small=rng.random() < 0.5, tier=tier)
    return {'kind': kind, 'b': b, 'params': p, 'runs': [gen_plan(rng, kind) for _ in range(nruns)]}


def gen_plan(rng, kind):
    """What goes wrong in one run; the exact operation is drawn from the recorded run."""
    pl = {'id': rng.randrange(1 << 30), 'what': []}
    if kind != 'cbc':
        r = rng.random()
        if r < 0.05:
            pl['disk'] = 'missing'
        elif r < 0.13:
            pl['disk'] = 'undecodable'
        elif r < 0.16:
            pl['disk'] = 'truncated'
        elif r < 0.19:
            pl['disk'] = 'dangling'
        elif r < 0.23:
            pl['disk'] = 'denied'
    if rng.random() < 0.3:
        pl['slow'] = [rng.choice([0, 1, 3, 10]), rng.choice([8.0, 70.0, 700.0, 4000.0, 100000.0])]
    n = rng.choice([1, 1, 1, 1, 2, 3]) if 'disk' not in pl else rng.choice([0, 0, 1])
    for _ in range(n):
        if kind == 'cbc':
            pl['what'].append(rng.choice(['io', 'io', 'io', 'io-child', 'memerr-child', 'sigint']))
        else:
            pl['what'].append(rng.choice(['io'] * 5 + ['io-child'] * 3 + ['kill'] * 7 + ['kill-child'] * 2 + ['memerr'] * 2 +
                                         ['manager', 'sigint', 'io-main', 'io-main']))
    return pl


def place(rng, what, ops, kind):
    main = [o for o in ops if o[0] == 's0']
    kids = [o for o in ops if faults.is_child(o[0])]
    if kind == 'cbc':
        # the pool itself (fork, task hand-over) belongs to multiprocessing
        main = [o for o in main if o[4] is not None]
        kids = [o for o in kids if o[4] is not None]
    if what in ('io', 'io-child', 'io-main'):
        o = faults.by_class(rng, faults.io_ops({'io': main + kids, 'io-child': kids, 'io-main': main}[what]))
        return o and faults.io_error(rng, o)
    if what == 'kill':
        o = faults.by_class(rng, kids)
        return o and faults.kill_at(rng, o)
    if what == 'kill-child':
        o = faults.by_class(rng, main)
        return o and {'proc': o[0], 'n': o[1], 'kind': 'kill_child', 'i': rng.randrange(4)}
    if what in ('memerr', 'memerr-child'):
        o = faults.by_class(rng, kids if what == 'memerr-child' else main + kids)
        return o and {'proc': o[0], 'n': o[1], 'kind': 'memerr', 'io': kind == 'cbc'}
    if what == 'manager':
        o = faults.by_class(rng, main + kids)
        return o and {'proc': o[0], 'n': o[1], 'kind': 'kill_manager'}
    o = faults.by_class(rng, main)
    return o and {'proc': o[0], 'n': o[1], 'kind': 'sigint'}


def damage(pl, b, root, base):
    """Change a selected corpus file so that its content is not what the corpus says; True if the build cannot be exact."""
    how = pl.get('disk')
    idx = builds.selected(b)
    rng = random.Random(pl['id'])
    if not how or not idx:
        return False
    p = root + '/' + b['corpus']['files'][rng.choice(idx)]['path']
    if how == 'missing':
        if b['sel'] is None:
            return False
        os.remove(p)
        return True
    if how == 'dangling':
        os.remove(p)
        seams.REAL.symlink(root + '.elsewhere', p)
        return True
    if how == 'denied':
        no = [p]
        if b['sel'] is None and rng.random() < 0.5:             # a folder
            no = [os.path.dirname(p)]
        return [os.path.relpath(x, base) for x in no]
    enc = b['corpus']['enc']
    with seams.REAL.open(p, 'rb') as f:
        data = f.read()
    if how == 'undecodable' and enc == 'utf-8':
        k = rng.randrange(len(data) + 1)
        data = data[:k] + rng.choice([b'\xff', b'\xfe\xfa', b'\xc3\x28']) + data[k:]
    elif how == 'truncated' and enc == 'utf-8':
        data += '猫'.encode()[:rng.choice([1, 2])]
    elif enc == 'utf-16' and len(data) > 4:
        data = data[:-1]
    else:
        return False
    with seams.REAL.open(p, 'wb') as f:
        f.write(data)
    try:
        data.decode(enc)
    except UnicodeDecodeError:
        return True
    return False


def run(scn, ctx):
    kind = scn['kind']
    root, aux = ctx.path('corpus'), ctx.path('aux')
    paths = {'tmp-path': ctx.path('tmp'), 'output-path': ctx.path('out')}
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)

    def start():
        ctx.reset()
        if kind == 'cbc':
            return cbcgen.session(scn['c'], True)
        builds.prepare(scn['b'], root, aux)
        return builds.session(scn['b'], root, aux, paths)

    if kind == 'cbc':
        b = None
        s = ctx.sim([('s0', cbcgen.session(scn['c'], False))], {'env_seed': '%s/ref' % ctx.seed}, name='single', count=False)
        if s.tasks[0].error:
            return
        exp = s.tasks[0].result
    else:
        b = scn['b']
        exp = builds.expected(b)
    fn = start()
    s = ctx.sim([('s0', fn)], dict(params, keep_ops=True), name='free')
    if kind == 'cbc':
        ctx.hang(s, 'clustering')
        if s.tasks[0].error or cbcgen.compare(exp, s.tasks[0].result):
            return          # C05 decides the fault-free result
    else:
        builds.check_single(ctx, b, s, exp)
    ops = s.ops
    for pl in scn['runs']:
        fn = start()
        broken = damage(pl, b, root, ctx.scratch) if b else False
        name = 'f%d' % pl['id']

        def fl():
            rng = random.Random('%s-%s' % (ctx.seed, pl['id']))
            out = [f for f in (place(rng, w, ops, kind) for w in pl['what']) if f]
            if pl.get('slow') and out and faults.is_child(out[0]['proc']):
                # a process that stalls for a long time before it fails
                f = out[0]
                out.insert(0, {'proc': f['proc'], 'n': max(1, f['n'] - pl['slow'][0]), 'kind': 'stall', 'by': pl['slow'][1]})
            return out
        s = ctx.sim([('s0', fn)], dict(params, denied=broken) if isinstance(broken, list) else params, faults=fl, name=name)
        check(ctx, kind, b, s, exp, broken)


def check(ctx, kind, b, s, exp, broken):
    what = 'clustering' if kind == 'cbc' else '%s build' % kind
    ctx.hang(s, what)
    t = s.tasks[0]
    fired = {k: v for k, v in s.fired.items() if k not in ('stall', 'clock_jump')}
    if t.error is not None:
        ctx.probe('raised:' + kind)
        if fired or broken:
            return
        if b is not None and builds.may_raise(b, exp):
            return
        ctx.fail('exception', '%s raised without any fault: %s' % (what, t.error))
    if t.dead or t.exitcode != 0:
        return
    if broken:
        ctx.fail('partial-result', '%s of a corpus with an unreadable file returned a result' % what)
    d = cbcgen.compare(exp, t.result) if kind == 'cbc' else builds.check_result(b, t.result, exp)
    if d:
        ctx.fail('partial-result' if fired else 'wrong-result', '%s returned after %s: %s' % (what, dict(fired), d))
    ctx.probe('exact-despite-fault' if fired else 'no-fault-fired')


def shrinks(scn):
    if len(scn['runs']) > 1:
        for i in range(len(scn['runs'])):
            yield dict(scn, runs=[scn['runs'][i]])
    if 'b' in scn:
        for b in builds.shrink_build(scn['b']):
            yield dict(scn, b=b)
    else:
        for c in cbcgen.shrink_cbc(scn['c']):
            yield dict(scn, c=c)

"""Concurrent sessions and user files are isolated from each other."""
import copy
import os
import random

from sim import builds, disk, faults, seams

ID = 'C08'

NAMES = ['notes.txt', 'thesis/chapter.txt', 'sub.0.npz', 'sub.0.meta', 'col.freq/keep.npz', 'tokens/keep.meta', 'item.freq/x',
         'token/1000/sub.0.npz', 'col.freq/1000/sub.0.npz', 'col.freq/1001/sub.0.meta', 'col.freq/sub.0.npz', 'tmp/notes.txt',
         'tmp/col.freq/1002/sub.1.npz', '1001/sub.0.npz', '.hidden']


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 2, 3] if tier == 'quick' else [2, 2, 3, 4])
    ses = []
    for i in range(n):
        kind = rng.choice(['item', 'col', 'col', 'col', 'token', 'token', 'dep'])
        ses.append({'b': builds.gen_build(rng, kind, small=True, tier=tier), 'construct': rng.choice([0, 0, 1, 2]), 'build': rng.random() < 0.85,
                    'tmp': rng.choice([None, None, 'tmpA', 'tmpA', 'tmpB', 'outA']),
                    'out': rng.choice([None, None, 'outA', 'outA', 'outB'])})
    if n > 1 and rng.random() < 0.3:      # the same corpus folder
        for x in ses[1:]:
            if x['b']['kind'] == ses[0]['b']['kind']:
                x['b'] = copy.deepcopy(ses[0]['b'])
                x['b']['workers'] = rng.choice([1, 2, 3])
    p = builds.sched_params(rng)
    p['pid_mode'] = rng.choice(['mixed', 'mixed', 'reuse', 'reuse', 'fresh'])
    fl = []
    if n > 1 and rng.random() < 0.35:
        v = rng.randrange(n)
        fl.append({'proc': rng.choice(['s%d', 's%d', 's%d.0', 's%d.1']) % v, 'n': rng.choice([rng.randrange(1, 15), rng.randrange(1, 60)]),
                   'kind': rng.choice(['kill_session', 'kill_main', 'kill', 'sigint'])})
    dirs = rng.choice([True, True, False, 'empty', 'results'])
    return {'ses': ses, 'params': p, 'faults': fl, 'names': rng.sample(NAMES, rng.randrange(1, 6)), 'dirs': dirs}


def run(scn, ctx):
    n = len(scn['ses'])
    fns, exps = [], []
    keep = {}
    dirs = [ctx.home + '/tmp'] + [ctx.path(d) for d in ('tmpA', 'tmpB', 'outA', 'outB')]
    if scn['dirs'] in ('empty', 'results'):
        for d in dirs:              # directories the user made, still empty
            os.makedirs(d + ('/results' if scn['dirs'] == 'results' else ''), exist_ok=True)
    elif scn['dirs']:
        for d in dirs:
            for nm in scn['names']:
                disk.put(d + '/' + nm, ('precious %s' % nm).encode())
    for nm in scn['names']:
        disk.put(ctx.home + '/mine/' + nm, b'mine')
    same = {}
    for i, x in enumerate(scn['ses']):
        b = x['b']
        key = repr(b['corpus'])
        j = same.setdefault(key, i)
        root, aux = ctx.path('corpus%d' % j), ctx.path('aux%d' % i)
        builds.prepare(b, root, aux)
        paths = {}
        if x['tmp']:
            paths['tmp-path'] = ctx.path(x['tmp'])
        if x['out']:
            paths['output-path'] = ctx.path(x['out'])
        fns.append(('s%d' % i, _main(x, root, aux, paths)))
        exps.append(builds.expected(b))
    before = disk.snapshot(ctx.scratch)
    s = ctx.sim(fns, dict(scn['params'], keep_ops=True), faults=scn['faults'])
    ctx.hang(s, 'build')
    hurt = {int(f['proc'].split('.')[0][1:]) for f in ctx.trace[-1]['faults']}
    for i, x in enumerate(scn['ses']):
        t = s.tasks[i]
        b, exp = x['b'], exps[i]
        ctx.probe('kind:' + b['kind'])
        if t.dead or (i in hurt and t.error is not None):
            ctx.probe('hurt')
            continue
        if t.error is not None:
            if x['build'] and builds.may_raise(b, exp):
                continue
            ctx.fail('exception', '%s session %d of %d (tmp-path %s, output-path %s) raised %s: %s at %s' % (
                (b['kind'], i, n, x['tmp'], x['out']) + t.error))
        if x['build']:
            d = builds.check_result(b, t.result, exp)
            if d:
                ctx.fail('wrong-result', '%s session %d of %d: %s' % (b['kind'], i, n, d))
            ctx.probe('exact')
    after = disk.snapshot(ctx.scratch)
    d = disk.changes(before, after, new_ok=True)
    if d:
        ctx.fail('foreign-file', 'files that were there before: ' + d)
    # nobody touches a file another session created
    owner = {}
    for label, k, kind, path, io, step, helper in s.ops:
        me = label.split('+')[0].split('.')[0]
        if io == 'create' or io == 'rename':
            x = scn['ses'][int(me[1:])]
            tmp = 'work/' + x['tmp'] if x['tmp'] else 'work/%s/tmp' % x['out'] if x['out'] else 'home/tmp'
            if not path.startswith(tmp + '/'):
                ctx.fail('elsewhere', 'session %s (tmp-path %s, output-path %s) creates %s, its temporary directory is %s' % (
                    me, x['tmp'], x['out'], path, tmp))
            o = owner.get(path)
            if o is not None and o != me and 'a' not in kind:
                ctx.fail('foreign-file', 'session %s overwrites %s of session %s' % (me, path, o))
            owner[path] = me
        elif kind == 'remove':
            o = owner.get(path)
            if o is not None and o != me:
                ctx.fail('foreign-file', 'session %s removes %s of session %s' % (me, path, o))
            owner.pop(path, None)


def _main(x, root, aux, paths):
    b = x['b']
    settings = builds.make_settings(b, root, paths)
    fn = builds.fnames_arg(b, root, aux)

    def main():
        for _ in range(x['construct']):
            builds.new_handler(b, settings, aux)
        if x['build']:
            h, args = builds.new_handler(b, settings, aux)
            return builds.call_build(b, h, args, fn)
        if not x['construct']:
            builds.new_handler(b, settings, aux)
        return None
    return main


def shrinks(scn):
    if len(scn['ses']) > 1:
        for i in range(len(scn['ses'])):
            x = copy.deepcopy(scn)
            del x['ses'][i]
            yield x
    for i, y in enumerate(scn['ses']):
        if y['construct']:
            x = copy.deepcopy(scn)
            x['ses'][i]['construct'] = 0
            yield x
        for b in builds.shrink_build(y['b']):
            x = copy.deepcopy(scn)
            x['ses'][i]['b'] = b
            yield x
    for i in range(len(scn['names'])):
        x = copy.deepcopy(scn)
        del x['names'][i]
        yield x

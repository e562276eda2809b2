"""Loading a matrix is read-only and safe to do concurrently."""
import copy
import os

from sim import builds, disk, mats, seams

ID = 'C10'

NAMES = ['m', 'm.pac.x', 'm.x', 'mm', 'sub/m', 'a.wcmx.freq', 'né']


def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
    saved = []
    for i, nm in enumerate(names):
        for form in rng.choice([[True], [True], [False], [True, False]]):
            saved.append({'name': nm, 'pack': form, 'm': mats.gen_mat(rng, len(saved) + 1, tier)})
    n = rng.choice([1, 2, 2, 3, 4] if tier == 'quick' else [2, 3, 4, 6])
    ses = []
    hot = rng.random() < 0.5
    for i in range(n):
        ses.append([{'k': 0 if hot else rng.randrange(len(saved)), 'ext': rng.choice(['', '.pac']), 'rel': rng.random() < 0.3}
                    for _ in range(rng.choice([1, 1, 2, 3]))])
    mode = rng.choice(['plain', 'plain', 'ro', 'full', 'saver', 'saver'])
    scn = {'saved': saved, 'ses': ses, 'mode': mode, 'faults': []}
    if mode == 'saver':
        # other names, or the other form of a name that is being loaded
        have = {(x['name'], x['pack']) for x in saved}
        free = [(nm, f) for nm in NAMES + ['other'] for f in (True, False) if nm not in names or (nm, f) not in have]
        scn['saves'] = [{'name': nm, 'pack': f, 'm': mats.gen_mat(rng, 50 + j, tier)}
                        for j, (nm, f) in enumerate(rng.choice(free) for _ in range(rng.choice([1, 2])))]
    if rng.random() < 0.4:
        v = rng.randrange(n + (mode == 'saver'))
        k = rng.choice(['kill', 'kill', 'err', 'memerr', 'sigint'])
        f = {'proc': 's%d' % v, 'n': rng.randrange(1, 30), 'kind': k}
        if k == 'err':
            f['errno'] = rng.choice(['EIO', 'EMFILE', 'ENOENT'])
        scn['faults'] = [f]
    p = builds.sched_params(rng)
    scn['params'] = {k: p[k] for k in ('p_switch', 'weights', 'pid_mode', 'bufsize', 'tick', 'clock', 'listing', 'stall_p', 'mtime_gran')}
    if rng.random() < 0.3:          # saved once more, other values, and loaded by the same program
        scn['again'] = [dict(x, m=mats.variant(rng, x['m'])) for x in saved]
    return scn


def run(scn, ctx):
    import os
    data = ctx.path('data')
    os.makedirs(data + '/sub')

    def save_all(lst):
        def main():
            for x in lst:
                mats.build(x['m']).save(data + '/' + x['name'], pack=x['pack'], verbose=False)
        return main
    s = ctx.sim([('s0', save_all(scn['saved']))], {'tick': 0.001}, name='save', count=False)
    ctx.hang(s, 'save')
    if s.tasks[0].error:
        ctx.fail('exception', 'save raised %s: %s at %s' % s.tasks[0].error)
    if scn.get('again'):
        def main():
            out = []
            for lst in (scn['saved'], scn['again']):
                save_all(lst)()
                for lds in scn['ses']:
                    out += [(mats.plain(m), mats.want(lst[ld['k']]['m'])) for ld, m in zip(lds, _loads(scn, lds, data)())]
            return out
        s = ctx.sim([('s0', main)], {k: v for k, v in scn['params'].items() if k in ('tick', 'mtime_gran', 'bufsize')}, name='again')
        ctx.hang(s, 'load')
        t = s.tasks[0]
        if t.error:
            ctx.fail('exception', 'saving and loading in turn raised %s: %s at %s' % t.error)
        for got, w in t.result:
            if got != w:
                ctx.fail('wrong-load', 'load: ' + mats.describe(w, got))
        scn = dict(scn, saved=scn['again'])
        ctx.probe('saved-again')
    before = disk.snapshot(data)
    params = dict(scn['params'])
    if scn['mode'] == 'ro':
        params['readonly'] = ['work/data']
    fns = []
    for i, loads in enumerate(scn['ses']):
        fns.append(('s%d' % i, _loads(scn, loads, data)))
    n = len(fns)
    if scn['mode'] == 'saver':
        fns.append(('s%d' % n, save_all(scn['saves'])))
    params['disk_full'] = scn['mode'] == 'full'
    params['keep_files'] = scn['mode'] == 'saver'
    s = ctx.sim(fns, params, faults=scn['faults'], name='load')
    ctx.hang(s, 'load')
    hurt = {f['proc'] for f in ctx.trace[-1]['faults']}
    for i, loads in enumerate(scn['ses']):
        t = s.tasks[i]
        if t.error is not None:
            if t.label in hurt:
                ctx.probe('hurt')
                continue
            ctx.fail('exception', 'load (%s, %d sessions) raised %s: %s at %s' % ((scn['mode'], n) + t.error))
        if t.dead or t.result is None:
            ctx.probe('hurt')
            continue
        for ld, m in zip(loads, t.result):
            x = scn['saved'][ld['k']]
            try:
                got = mats.plain(m)
            except Exception as e:
                ctx.fail('wrong-load', 'load of %r returned an unusable matrix: %s: %s' % (x['name'], type(e).__name__, e))
            w = mats.want(x['m'])
            if got != w:
                ctx.fail('wrong-load', 'load of %s %r: %s' % ('packed' if x['pack'] else 'unpacked', x['name'], mats.describe(w, got)))
            ctx.probe('loaded')
    ctx.probe('mode:' + scn['mode'])
    after = disk.snapshot(data)
    if scn['mode'] == 'saver':
        own = tuple(x['name'] for x in scn['saves'])
        for k in list(after):
            if k not in before and (k.startswith(own) or s.created.get('work/data/' + k) == {'s%d' % n}):
                del after[k]
    d = disk.changes(before, after)
    if d:
        ctx.fail('directory-changed', 'loading changed the directory: ' + d)


def _loads(scn, loads, data):
    def main():
        from nephosem.core.matrix import TypeTokenMatrix
        out = []
        for ld in loads:
            x = scn['saved'][ld['k']]
            fn = ('data/' if ld['rel'] else data + '/') + x['name'] + ld['ext']
            out.append(TypeTokenMatrix.load(fn, pack=x['pack']))
        return out
    return main


def shrinks(scn):
    if scn.get('again'):
        yield {k: v for k, v in scn.items() if k != 'again'}
    if len(scn['ses']) > 1:
        for i in range(len(scn['ses'])):
            x = copy.deepcopy(scn)
            del x['ses'][i]
            yield x
    for i, loads in enumerate(scn['ses']):
        if len(loads) > 1:
            for j in range(len(loads)):
                x = copy.deepcopy(scn)
                del x['ses'][i][j]
                yield x
    for i, sv in enumerate(scn['saved']):
        for m in mats.shrink_mat(sv['m']):
            x = copy.deepcopy(scn)
            x['saved'][i]['m'] = m
            yield x
    if scn['mode'] != 'plain':
        x = copy.deepcopy(scn)
        x['mode'] = 'plain'
        yield x

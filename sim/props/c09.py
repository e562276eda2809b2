"""Saved matrices load back exactly, and a failed save never mixes versions."""
import copy

from sim import builds, hist, mats

ID = 'C09'

NAMES = ['m', 'a.wcmx.freq', 'dir.x/m', 'né', 'm.pac.old', 'a.wcmx.pmi', 'x.meta', '.pacs']


def gen(rng, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8] if tier == 'quick' else [3, 5, 8, 12])
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    forms = rng.choice([[True], [False], [True, False], [True, False]])
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'latin-1'])
    steps = []
    for i in range(n):
        st = {'id': i, 'name': rng.choice(names), 'pack': rng.choice(forms), 'ext': rng.choice(['', '', '.pac']),
              'enc': enc, 'op': 'save' if i == 0 or rng.random() < 0.6 else 'load'}
        if st['op'] == 'save':
            old = [x['m'] for x in steps if x['op'] == 'save' and x['name'] == st['name']]
            st['m'] = mats.variant(rng, old[-1]) if old and rng.random() < 0.3 else mats.gen_mat(rng, i + 1, tier)
            st['verbose'] = rng.random() < 0.3
        if i and rng.random() < (0.6 if st['op'] == 'save' else 0.15):
            st['fault'] = [rng.choice(hist.KINDS) for _ in range(rng.choice([1, 1, 1, 2]))]
        steps.append(st)
    k = n
    for nm in names:                 # everything is read back at the end
        for f in forms:
            steps.append({'id': k, 'op': 'load', 'name': nm, 'pack': f, 'ext': rng.choice(['', '.pac']), 'enc': enc})
            k += 1
    if rng.random() < 0.3 and True in forms:       # saves and loads of packed matrices at the same time
        for _ in range(rng.choice([1, 2])):
            i = rng.randrange(1, n)
            for st in steps[i:i + rng.choice([2, 2, 3])]:
                if st['id'] < n:
                    st['g'] = 'g%d' % i
                    st['pack'] = True
    p = builds.sched_params(rng)
    if any(len(s['m']['cols']) > 60000 for s in steps if 'm' in s):
        p['bufsize'] = 8192
    return {'steps': steps, 'params': {k: p[k] for k in ('bufsize', 'tick', 'clock', 'pid_mode', 'p_switch', 'weights', 'mtime_gran')}}


def run(scn, ctx):
    steps = scn['steps']

    def prepare():
        import os
        os.mkdir(ctx.path('dir.x'))

    def main(st):
        fn = ctx.path(st['name']) + st['ext']

        def save():
            m = mats.build(st['m'])
            before, form = mats.plain(m), mats.form(m)
            err = None
            try:
                m.save(fn, encoding=st['enc'], pack=st['pack'], verbose=st['verbose'])
            except Exception as e:
                err = e
            if mats.plain(m) != before:
                return ('changed', mats.describe(before, mats.plain(m)))
            if mats.form(m) != form:
                return ('changed', '%s instead of %s' % (mats.form(m), form))
            if err is not None:
                raise err
            return ('saved',)

        def load():
            from nephosem.core.matrix import TypeTokenMatrix
            m = TypeTokenMatrix.load(fn, encoding=st['enc'], pack=st['pack'])
            return ('loaded', m)
        return save if st['op'] == 'save' else load

    s = hist.run(ctx, steps, main, scn['params'], prepare)
    model = hist.Versions()
    for grp in hist.groups(steps):
        saves = {}
        for i in grp:
            st = steps[i]
            if st['op'] != 'save':
                continue
            key = (st['name'], st['pack'])
            how, t, w = hist.outcome(s, i), s.tasks[i], mats.want(st['m'])
            form = 'packed' if st['pack'] else 'unpacked'
            if how == 'ok' and t.result[0] == 'changed':
                ctx.fail('object-changed', 'saving changed the matrix in memory: ' + t.result[1])
            if how == 'raised' and not hist.hit(ctx, st, steps) and mats.encodable(st['m'], st['enc']):
                ctx.fail('exception', '%s save raised %s: %s at %s' % ((form,) + t.error))
            saves.setdefault(key, []).append((how, w))
            ctx.probe('save-' + how)
        for i in grp:
            st = steps[i]
            if st['op'] != 'load':
                continue
            key = (st['name'], st['pack'])
            form = 'packed' if st['pack'] else 'unpacked'
            how, t = hist.outcome(s, i), s.tasks[i]
            cur = model.during(key, saves.get(key, []), st['pack'])
            if how == 'ok':
                try:
                    got = mats.plain(t.result[1])
                except Exception as e:
                    ctx.fail('wrong-load', '%s load of %r returned an unusable matrix: %s: %s' % (form, st['name'], type(e).__name__, e))
                ok = [v for v in cur if v is not None and v == got]
                real = [v for v in cur if v is not None]
                if not ok:
                    if not real and got in model.get((st['name'], not st['pack'])):
                        continue
                    ctx.fail('wrong-load', '%s load of %r returned neither the previous nor the new matrix: %s' % (
                        form, st['name'], mats.describe(real[-1], got) if real else 'nothing was saved'))
                if len(grp) == 1:
                    model.state[key] = [ok[0]]
                ctx.probe('loaded')
                if len(real) > 1:
                    ctx.probe('loaded-one-of-several')
            elif how == 'raised':
                if not hist.hit(ctx, st, steps) and None not in cur:
                    ctx.fail('lost', '%s load of %r raised %s: %s although a matrix was saved (steps %s)' % (
                        form, st['name'], t.error[0], t.error[1], _story(s, steps[:i])))
                ctx.probe('load-raised')
        for key, lst in saves.items():
            model.after(key, lst, key[1])


def _story(s, steps):
    return [(x['op'], x['name'], 'packed' if x['pack'] else 'unpacked', hist.outcome(s, j)) for j, x in enumerate(steps)]


def shrinks(scn):
    for i in range(len(scn['steps'])):
        x = copy.deepcopy(scn)
        del x['steps'][i]
        yield x
    for i, st in enumerate(scn['steps']):
        if 'm' in st:
            for m in mats.shrink_mat(st['m']):
                x = copy.deepcopy(scn)
                x['steps'][i]['m'] = m
                yield x

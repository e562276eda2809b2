"""Saved vocabularies load back exactly, and a failed save keeps the old one."""
import copy

from sim import builds, hist

ID = 'C11'

NAMES = ['v', 'brown.nodefreq', 'dir.x/v.json', 'né.vocab']
ITEMS = ['de/det', 'kat/noun', 'zit', 'a b', ' lead', 'trail ', '"q"', "l'eau", '\\', 'x/y/z', '1.5', '12', 'null', '{', '#c', '', '-', 'Zit', 'DE/det', 'de/DET']
ODD = ['café', 'straße', '猫', 'ελλ', '😀', 'ÿ', '\u0301x', '\ufeffbom']


def gen_vocab(rng, ver, enc):
    n = rng.choice([0, 1, 2, 3, 6, 10, 40])
    d = {}
    for j in range(n):
        r = rng.random()
        k = rng.choice(ITEMS) if r < 0.3 else (rng.choice(ODD) if r < 0.45 else 'v%di%d' % (ver, j))
        r = rng.random()
        v = ver * 1000 + rng.randrange(1000)
        d[k] = v if r < 0.6 else (0 if r < 0.65 else (v + 0.5 if r < 0.8 else rng.choice([v * 1e-9, v * 1e20, 1.0 / v, -v, 10 ** 18 + v, float(v)])))
    return d


def variant(rng, d):
    """The same items and (mostly) the same number of bytes, other frequencies."""
    if rng.random() < 0.5:
        return dict(zip(d, list(d.values())[::-1]))
    return {k: v + (1 if str(v)[-1] < '9' else -1) if isinstance(v, int) else v for k, v in d.items()}


def encodable(d, enc):
    try:
        ''.join(d).encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def gen(rng, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8] if tier == 'quick' else [4, 6, 9, 14])
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    how = {nm: {'fmt': rng.choice(['json', 'json', 'plain', 'txt']), 'enc': rng.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1', 'ascii'])}
           for nm in names}
    steps = []
    for i in range(n):
        nm = rng.choice(names)
        st = {'id': i, 'name': nm, 'op': 'save' if i == 0 or rng.random() < 0.65 else 'load'}
        if st['op'] == 'save':
            old = [x['d'] for x in steps if x['op'] == 'save' and x['name'] == nm]
            d = variant(rng, dict(map(tuple, old[-1]))) if old and rng.random() < 0.3 else gen_vocab(rng, i + 1, how[nm]['enc'])
            if not encodable(d, how[nm]['enc']) and rng.random() < 0.6:
                d = {k: v for k, v in d.items() if encodable([k], how[nm]['enc'])}
            st['d'] = list(d.items())
            st['verbose'] = rng.random() < 0.3
            st['encarg'] = rng.choice(['arg', 'arg', 'own'])
        if i and rng.random() < (0.6 if st['op'] == 'save' else 0.15):
            st['fault'] = [rng.choice(hist.KINDS) for _ in range(rng.choice([1, 1, 1, 2]))]
        steps.append(st)
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2])):
            i = rng.randrange(1, n)
            for st in steps[i:i + rng.choice([2, 2, 3])]:
                st['g'] = 'g%d' % i
    for j, nm in enumerate(names):
        steps.append({'id': n + j, 'op': 'load', 'name': nm})
    p = builds.sched_params(rng)
    return {'steps': steps, 'how': how, 'params': {k: p[k] for k in ('bufsize', 'tick', 'clock', 'pid_mode', 'p_switch', 'weights', 'mtime_gran')}}


def run(scn, ctx):
    steps, howto = scn['steps'], scn['how']

    def prepare():
        import os
        os.mkdir(ctx.path('dir.x'))

    def main(st):
        fn = ctx.path(st['name'])
        fmt, enc = howto[st['name']]['fmt'], howto[st['name']]['enc']

        def save():
            from nephosem.core.vocab import Vocab
            d = dict(map(tuple, st['d']))
            v = Vocab(dict(d), encoding=enc)
            err = None
            try:
                v.save(fn, encoding=enc if st['encarg'] == 'arg' else None, fmt=fmt, verbose=st['verbose'])
            except Exception as e:
                err = e
            if dict(v.freq_dict) != d:
                return ('changed',)
            if err is not None:
                raise err
            return ('saved',)

        def load():
            from nephosem.core.vocab import Vocab
            return ('loaded', Vocab.load(fn, encoding=enc, fmt=fmt))
        return save if st['op'] == 'save' else load

    s = hist.run(ctx, steps, main, scn['params'], prepare)
    model = hist.Versions()
    for grp in hist.groups(steps):
        saves = {}
        for i in grp:
            st = steps[i]
            if st['op'] != 'save':
                continue
            how, t, w = hist.outcome(s, i), s.tasks[i], dict(map(tuple, st['d']))
            fmt, enc = howto[st['name']]['fmt'], howto[st['name']]['enc']
            if how == 'ok' and t.result[0] == 'changed':
                ctx.fail('object-changed', 'saving changed the vocabulary in memory')
            if how == 'raised' and not hist.hit(ctx, st, steps) and encodable(w, enc):
                ctx.fail('exception', '%s save in %s raised %s: %s at %s' % ((fmt, enc) + t.error))
            if how == 'ok' and not encodable(w, enc):
                ctx.probe('unencodable-saved')
            saves.setdefault(st['name'], []).append((how, w))
            ctx.probe('save-' + how)
        for i in grp:
            st = steps[i]
            if st['op'] != 'load':
                continue
            key = st['name']
            how, t = hist.outcome(s, i), s.tasks[i]
            cur = model.during(key, saves.get(key, []))
            if how == 'ok':
                try:
                    got = dict(t.result[1].freq_dict)
                except Exception as e:
                    ctx.fail('wrong-load', 'load of %r returned an unusable vocabulary: %s: %s' % (key, type(e).__name__, e))
                ok = [v for v in cur if v is not None and v == got]
                real = [v for v in cur if v is not None]
                if not ok:
                    ctx.fail('wrong-load', '%s %s load of %r returned neither the previous nor the new vocabulary: %s' % (
                        howto[key]['fmt'], howto[key]['enc'], key, builds.diff(real[-1], got) if real else 'nothing was saved'))
                if len(grp) == 1:
                    model.state[key] = [ok[0]]
                ctx.probe('loaded')
                if len(real) > 1:
                    ctx.probe('loaded-one-of-several')
            elif how == 'raised':
                if not hist.hit(ctx, st, steps) and None not in cur:
                    ctx.fail('lost', 'load of %r raised %s: %s although a vocabulary was saved (steps %s)' % (
                        key, t.error[0], t.error[1], [(x['op'], x['name'], hist.outcome(s, j)) for j, x in enumerate(steps[:i])]))
                ctx.probe('load-raised')
        for key, lst in saves.items():
            model.after(key, lst)


def shrinks(scn):
    for i in range(len(scn['steps'])):
        x = copy.deepcopy(scn)
        del x['steps'][i]
        yield x
    for i, st in enumerate(scn['steps']):
        if st.get('d'):
            n = len(st['d'])
            for j in sorted({0, n // 2, n - 1}):
                x = copy.deepcopy(scn)
                del x['steps'][i]['d'][j]
                yield x
            if n > 3:
                x = copy.deepcopy(scn)
                x['steps'][i]['d'] = st['d'][:n // 2]
                yield x
                x = copy.deepcopy(scn)
                x['steps'][i]['d'] = st['d'][n // 2:]
                yield x

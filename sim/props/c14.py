"""One handler used again and again: every call returns what a new handler would; arguments stay as they were."""
import copy
import random

from sim import builds, corpus, faults, seams

ID = 'C14'


def gen(rng, tier):
    kind = rng.choice(['item', 'col', 'col', 'token', 'token', 'dep', 'dep'])
    b = builds.gen_build(rng, kind, small=rng.random() < 0.6, tier=tier)
    if rng.random() < 0.3 and not b['workers']:
        b['workers'] = 2
    p = builds.sched_params(rng)
    p['stall_p'] = 0
    p['max_steps'] = 150000
    calls = []
    two = rng.random() < 0.3
    n = rng.choice([2, 2, 3, 4] if tier == 'quick' else [2, 3, 5, 7])
    fresh = rng.random() < 0.35         # the corpus changes between the calls
    nfiles = len(b['corpus']['files'])
    for i in range(n):
        c = {'h': rng.randrange(2) if two else 0, 'sel': builds.gen_sel(rng, b['corpus']) if rng.random() < 0.7 else b['sel']}
        if rng.random() < 0.06:             # nothing at all
            c['sel'] = {'how': rng.choice(['list', 'fnames']), 'idx': []}
        r = rng.random()
        if i < n - 1 and r < 0.12:
            c['missing'] = True
        elif r < 0.3:
            c['spoil'] = True
        if kind == 'dep' and i and rng.random() < 0.2:
            c['reread'] = rng.choice(['own', 'args'])
        if fresh and i and rng.random() < 0.4:
            c['twist'] = {str(x): rng.choice([1, 1, 2, 3]) for x in rng.sample(range(nfiles), rng.randrange(1, nfiles + 1))}
        if fresh and i and rng.random() < 0.3:
            c['sly'] = True
        if fresh and nfiles > 1 and i:
            keep = set(range(nfiles)) if c['sel'] is None else set(c['sel']['idx'])
            if rng.random() < 0.6:
                g = rng.sample(range(nfiles), rng.randrange(1, nfiles))
                c['gone'] = [x for x in g if c['sel'] is None or x not in keep]
            if rng.random() < 0.6:
                c['alt'] = {str(x): rng.randrange(nfiles) for x in rng.sample(range(nfiles), rng.randrange(1, nfiles + 1))}
        calls.append(c)
    if kind == 'col' and b['vocab_at'] == 'call' and rng.random() < 0.7:
        # every call with vocabularies of its own
        types = corpus.all_types(b['corpus'], b['fmt']) or b['rows']
        collocs = corpus.all_types(b['corpus'], b['fmt'], 'colloc') or b['rows']
        for c in calls[1:]:
            if rng.random() < 0.7:
                c['rows'] = rng.sample(types, rng.randrange(1, len(types) + 1))
            if b['cols'] and rng.random() < 0.5:
                c['cols'] = rng.sample(collocs, rng.randrange(1, len(collocs) + 1))
    nf = rng.choice([0, 1, 1, 2])
    return {'b': b, 'params': p, 'calls': calls, 'shared': rng.random() < 0.6, 'chain': rng.random() < 0.3,
            'faults': [{'id': rng.randrange(1 << 30), 'what': rng.choice(['io', 'io', 'io-main', 'kill', 'kill', 'memerr', 'sigint', 'manager'])}
                       for _ in range(nf)]}


def place(rng, what, ops):
    main = [o for o in ops if o[0] == 's0']
    kids = [o for o in ops if faults.is_child(o[0])]
    if what in ('io', 'io-main'):
        o = faults.by_class(rng, faults.io_ops(main if what == 'io-main' else main + kids))
        return o and faults.io_error(rng, o)
    if what == 'kill':
        o = faults.by_class(rng, kids)
        return o and faults.kill_at(rng, o)
    o = faults.by_class(rng, main if what == 'sigint' else main + kids)
    if what == 'manager':
        what = 'kill_manager'
    return o and {'proc': o[0], 'n': o[1], 'kind': what}


def spoil(res):
    """The caller goes on working with a result."""
    if 'freq' in res:
        res['vocab'].freq_dict.clear()
    elif res['mtx'] is not None:
        m = res['mtx']
        m.row_items[:] = ['x%d' % i for i in range(len(m.row_items))]
        if hasattr(m.matrix, 'data'):
            m.matrix.data[:] = 77


def now_sel(b, c):
    """What the call selects: all files that are still there, or those of its own selection."""
    if c['sel'] is not None or not c.get('gone'):
        return c['sel']
    return {'how': 'list', 'idx': [i for i in range(len(b['corpus']['files'])) if i not in c['gone']]}


def session(scn, ctx, root, aux, paths):
    b = scn['b']
    fns = [builds.fnames_arg(b, root, aux, c['sel']) for c in scn['calls']]
    bs = [builds.edited(b, c) for c in scn['calls']]
    bs = [dict(x, **{k: c[k] for k in ('rows', 'cols') if c.get(k)}) for x, c in zip(bs, scn['calls'])]
    exps = [builds.expected(x, now_sel(x, c)) for x, c in zip(bs, scn['calls'])]

    def attempt(f):
        """f() again when an injected fault made it fail."""
        for _ in range(4):
            n0 = seams.fired_total()
            try:
                return f()
            except (Exception, KeyboardInterrupt):
                if seams.fired_total() == n0:
                    raise
                seams.free_disk()
        return f()

    def main():
        settings = builds.make_settings(b, root, paths)
        set0 = copy.deepcopy(settings)
        hs = [attempt(lambda: builds.new_handler(b, settings, aux))]
        if any(c['h'] for c in scn['calls']):
            hs.append(attempt(lambda: builds.new_handler(b, settings, aux, args=hs[0][1] if scn['shared'] else None)))
        own = {i: builds.new_args(bs[i], aux) for i, c in enumerate(scn['calls']) if c.get('rows') or c.get('cols')}
        given = [a for h, a in hs] + list(own.values())
        pics = [builds.picture(a) for a in given]
        kept = []
        for i, c in enumerate(scn['calls']):
            h, args = hs[c['h']][0], own.get(i, hs[c['h']][1])
            builds.apply_edits(b, bs[i], root, c.get('gone', ()), c.get('sly'))
            what = 'call %d (%s, %s)' % (i + 1, b['kind'], c['sel'] and c['sel']['idx'])
            fn = fns[i]
            if c.get('missing'):
                fn = builds.paths_of(b, root, c['sel']) + [root + '/no such file']
            if c.get('reread') == 'args':
                h.read_templates(macros=args['macros'])
            elif c.get('reread') == 'own':
                h.read_templates(macros=(hs[-1][0] if scn['chain'] else h).macros)
            n0, err, res = seams.fired_total(), None, None
            fn0 = copy.copy(fn)
            try:
                res = builds.call_build(b, h, args, fn)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            hit = seams.fired_total() > n0
            seams.free_disk()
            if fn != fn0:
                return 'argument-changed', '%s changed the list of file names: %s was %s' % (what, fn, fn0)
            if settings != set0:
                return 'argument-changed', '%s changed the settings: %s' % (what, builds.diff(set0, settings))
            for a, pic in zip(given, pics):
                now = builds.picture(a)
                if now != pic:
                    k = [k for k in pic if now[k] != pic[k]][0]
                    return 'argument-changed', '%s changed %s: %.300s was %.300s' % (what, k, now[k], pic[k])
            if c.get('gone') or c.get('alt') or c.get('twist'):
                ctx.probe('edited-corpus')
            if err is not None:
                ctx.probe('failed')
                if not hit and not c.get('missing') and not builds.may_raise(bs[i], exps[i]):
                    return 'exception', '%s raised %s: %s' % (what, type(err).__name__, err)
                continue
            if c.get('missing'):
                return 'wrong-result', '%s returned although a selected file does not exist' % what
            d = builds.check_result(bs[i], res, exps[i])
            if d:
                return 'wrong-result', '%s: %s' % (what, d)
            ctx.probe('returned')
            if hit:
                ctx.probe('returned-despite-fault')
            if c.get('spoil'):
                spoil(res)
            else:
                kept.append((i, res))
        for i, res in kept:
            d = builds.check_result(bs[i], res, exps[i])
            if d:
                return 'result-changed', 'a later call changed the result of call %d: %s' % (i + 1, d)
        return None
    return main


def run(scn, ctx):
    b = scn['b']
    root, aux = ctx.path('corpus'), ctx.path('aux')
    paths = {'tmp-path': ctx.path('tmp'), 'output-path': ctx.path('out')}
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)

    def go(name, params, fl=()):
        builds.prepare(b, root, aux)
        s = ctx.sim([('s0', session(scn, ctx, root, aux, paths))], params, faults=fl, name=name)
        ctx.hang(s, 'a call')
        t = s.tasks[0]
        if t.error is not None:
            ctx.fail('exception', 'session raised %s: %s at %s' % t.error)
        if t.dead:
            ctx.fail('exception', 'the session died')
        if t.result is not None:
            ctx.fail(*t.result)
        return s
    s = go('free', dict(params, keep_ops=True))
    if not scn['faults']:
        return
    ctx.reset()

    def fl():
        out = [place(random.Random('%s-%s' % (ctx.seed, f['id'])), f['what'], s.ops) for f in scn['faults']]
        return [f for f in out if f]
    go('fault', params, fl)


def shrinks(scn):
    for i in range(len(scn['calls'])):
        if len(scn['calls']) > 1:
            x = copy.deepcopy(scn)
            del x['calls'][i]
            yield x
    for i, c in enumerate(scn['calls']):
        for k in ('missing', 'spoil', 'reread', 'gone', 'alt', 'twist', 'sly', 'rows', 'cols'):
            if c.get(k):
                x = copy.deepcopy(scn)
                del x['calls'][i][k]
                yield x
        if c['sel']:
            x = copy.deepcopy(scn)
            x['calls'][i]['sel'] = None
            yield x
    if any(c['sel'] or c.get('gone') or c.get('alt') or c.get('twist') for c in scn['calls']):
        n = len(scn['b']['corpus']['files'])
        for i in range(n):
            for j in range(len(scn['b']['corpus']['files'][i]['lines'])):
                x = copy.deepcopy(scn)
                del x['b']['corpus']['files'][i]['lines'][j]
                yield x
    else:
        for b in builds.shrink_build(scn['b']):
            yield dict(scn, b=b)

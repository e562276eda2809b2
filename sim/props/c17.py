"""A study carried out over several sessions, crashes in between, equals its definition at every step."""
import copy
import math
import os
import random

from sim import builds, corpus, faults, seams

ID = 'C17'

STEPS = ['vocab', 'freq', 'assoc', 'tokens', 'weights', 'second', 'vectors', 'dist', 'sim', 'rank']


def study_ref(st):
    """The definition of the counts of the study: {'vocab', 'rows', 'freq', 'tokens'}."""
    b = st['b']
    idx = builds.selected(b)
    items = corpus.ref_items(b['corpus'], b['fmt'], idx)
    rows = sorted(t for t, n in items.items() if n >= st['cut'])
    return {'vocab': items, 'rows': rows,
            'freq': corpus.ref_colloc(b['corpus'], b['fmt'], idx, b['lspan'], b['rspan'], rows, rows if st['bound'] else None),
            'tokens': corpus.ref_tokens(b['corpus'], b['fmt'], idx, b['lspan'], b['rspan'], st['queries'], rows)}


def usable(st):
    """There is something to compute at every step."""
    r = study_ref(st)
    qs = [q for q in st['queries'] if q in r['rows']]
    ctx = {k for _, _, _, offs in r['tokens'].values() for k in offs}
    second = {c for (q, c) in r['freq'] if c in ctx and c in r['rows']}
    if st.get('meas') in ('llik', 'chisq') and any(len({k[i] for k in r['freq']}) < 2 for i in (0, 1)):
        return False                # not defined: one row (or column) has all the pairs
    return bool(qs and second and any(q in qs for q, _ in r['freq']))


def gen(rng, tier):
    for _ in range(200):
        b = builds.gen_build(rng, 'token', small=rng.random() < 0.4, tier=tier)
        t = rng.choice(['lemma/pos', 'lemma/pos', 'lemma', 'word/pos'])
        b['fmt'].update(type=t, colloc=t, token=t + '/fid/lid')
        b['lspan'], b['rspan'] = rng.choice([(1, 1), (2, 2), (3, 1), (0, 2), (5, 5)])
        types = corpus.all_types(b['corpus'], b['fmt'])
        if not types:
            continue
        st = {'b': b, 'cut': rng.choice([1, 1, 2]), 'bound': rng.random() < 0.5,
              'queries': rng.sample(types, min(len(types), rng.choice([1, 2, 3])))}
        st['meas'] = rng.choice(['ppmi', 'ppmi', 'pmi', 'dice', 'zscore', 'llik', 'chisq'])
        if usable(st):
            break
    else:
        raise RuntimeError('no study')
    st.update(meas2=rng.choice(['ppmi', 'ppmi', 'pmi', 'dice']),
              operation=rng.choice(['addition', 'addition', 'weightedmean', 'multiplication']), norm=rng.choice(['l1', 'l1', 'l2', 'no']),
              metric=rng.choice(['cosine', 'euclidean', 'cityblock']), vfmt=rng.choice(['json', 'plain']), marg=rng.random() < 0.5,
              pack=rng.random() < 0.75, fast=rng.random() < 0.3, reverse=rng.random() < 0.5)
    if st['operation'] == 'weightedmean':
        st['meas'] = 'ppmi'
    if st['operation'] == 'multiplication':
        st['norm'] = 'no'
    p = builds.sched_params(rng)
    p['pid_mode'] = rng.choice(['reuse', 'fresh', 'mixed'])
    p['max_steps'] = 200000
    both = st['pack'] and rng.random() < 0.25
    n = rng.choice([0, 1, 1, 2] if tier == 'quick' else [0, 1, 2, 4])
    att = [{'id': rng.randrange(1 << 30), 'what': rng.choice(['kill_session', 'kill_session', 'kill_main', 'sigint', 'io', 'io', 'memerr', 'kill'])}
           for _ in range(n)]
    return {'st': st, 'params': p, 'attempts': att, 'both': both}


# ------------------------------------------------------------------ the study, as a user writes it
def study(scn, d, root, aux, paths):
    st = scn['st']
    b = st['b']
    fn = builds.fnames_arg(b, root, aux)
    settings = builds.make_settings(b, root, paths)

    def main():
        from nephosem import Vocab, TypeTokenMatrix
        from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler
        from nephosem.specutils import mxcalc

        def step(name, make):
            """Take the file of an earlier session when it can be loaded, else make it (again)."""
            f = d + '/' + name
            vocab = name in ('vocab', 'nodes', 'collocs')

            def load():
                return Vocab.load(f, fmt=st['vfmt']) if vocab else TypeTokenMatrix.load(f, pack=st['pack'])
            try:
                return load()
            except Exception:
                pass
            x = make()
            if vocab:
                x.save(f, fmt=st['vfmt'], verbose=False)
            else:
                x.save(f, pack=st['pack'], verbose=False)
            return load()
        w = b['workers']
        vocab = step('vocab', lambda: ItemFreqHandler(settings, workers=w).build_item_freq(fnames=fn))
        rows = vocab[vocab.freq >= st['cut']]
        freq = step('freq', lambda: ColFreqHandler(settings, workers=w).build_col_freq(
            fnames=fn, row_vocab=rows, col_vocab=rows if st['bound'] else None))
        if st['marg']:
            nf, cf = step('nodes', lambda: Vocab(freq.sum(axis=1))), step('collocs', lambda: Vocab(freq.sum(axis=0)))
        else:
            nf, cf = Vocab(freq.sum(axis=1)), Vocab(freq.sum(axis=0))
        n = None if st['marg'] else freq.sum()
        assoc = step('assoc', lambda: mxcalc.compute_association(freq.submatrix(row=[q for q in st['queries'] if q in rows]), nf, cf, N=n, meas=st['meas']))
        tokens = step('tokens', lambda: TokenHandler(Vocab({q: 1 for q in st['queries']}), settings=settings, workers=w,
                                                     col_vocab=rows).retrieve_tokens(fnames=fn))
        have = set(assoc.col_items) & set(freq.row_items)
        cols = [c for c in tokens.col_items if c in have]
        tf = 'lemma/pos' if '/' in b['fmt']['type'] else 'lemma'
        weights = step('weights', lambda: mxcalc.compute_token_weights(tokens.submatrix(col=cols), assoc.submatrix(col=cols), tokenFormat=tf))
        if st['fast'] and st['meas2'] in ('ppmi', 'pmi'):
            second = step('second', lambda: mxcalc.compute_ppmi(freq.submatrix(row=sorted(cols)), nf, cf, positive=st['meas2'] == 'ppmi'))
        else:
            second = step('second', lambda: mxcalc.compute_association(freq.submatrix(row=sorted(cols)), nf, cf, N=n, meas=st['meas2']))
        vectors = step('vectors', lambda: mxcalc.compute_token_vectors(weights, second, operation=st['operation'], normalization=st['norm']))
        dist = step('dist', lambda: mxcalc.compute_distance(vectors, metric=st['metric']))
        sim = step('sim', lambda: mxcalc.compute_cosine(vectors))
        rank = step('rank', lambda: mxcalc.compute_simrank(sim, reverse=st['reverse']))
        return dict(zip(STEPS, (vocab, freq, assoc, tokens, weights, second, vectors, dist, sim, rank)))
    return main


# ------------------------------------------------------------------ definitions
def measure(name, a, r, c, n):
    """Association of a pair that occurs a times (a > 0), its parts r and c times, among n."""
    e = r * c / n
    if name in ('pmi', 'ppmi'):
        x = math.log(a * n / (r * c))
        return max(x, 0.0) if name == 'ppmi' else x
    if name == 'dice':
        return 2 * a / (r + c)
    if name == 'zscore':
        return (a - e) / math.sqrt(e)
    o = [a, c - a, r - a, n - r - c + a]
    if name == 'llik':
        es = [e, (n - r) * c / n, r * (n - c) / n, (n - r) * (n - c) / n]
        return 2 * sum(x * math.log(x / y) for x, y in zip(o, es) if x > 0)
    d = r * c * (n - r) * (n - c)
    return n * (o[0] * o[3] - o[1] * o[2]) ** 2 / d if d else None


def near(x, y, tol=2e-6, scale=0.0):
    return abs(x - y) <= tol * max(abs(x), abs(y), scale) + 1e-9


def table(m):
    """{row: {column: value}}, stored or not."""
    a = m.matrix.toarray() if hasattr(m.matrix, 'toarray') else m.matrix
    return {r: dict(zip(m.col_items, v)) for r, v in zip(m.row_items, a.tolist())}


def wrong(st, res, ref):
    """(step, what is wrong with it) of the first wrong step, None when the study is right."""
    got = dict(res['vocab'].freq_dict)
    if got != ref['vocab']:
        return 'vocab', builds.diff(ref['vocab'], got)
    for k in STEPS[1:]:
        d = builds.shape_problem(res[k])
        if d:
            return k, d
    f = builds.mtx_dict(res['freq'])
    if f != ref['freq'] or sorted(res['freq'].row_items) != ref['rows']:
        return 'freq', builds.diff(ref['freq'], f) or 'rows %.200r' % res['freq'].row_items
    r, c, n = {}, {}, 0
    for (x, y), v in ref['freq'].items():
        r[x], c[y], n = r.get(x, 0) + v, c.get(y, 0) + v, n + v
    allcols = sorted(res['freq'].col_items)

    def check_assoc(m, rows, name):
        if sorted(m.row_items) != sorted(rows) or sorted(m.col_items) != allcols:
            return 'labels %.200r of %.200r' % (m.row_items, m.col_items)
        for x, row in table(m).items():
            for y, v in row.items():
                a = ref['freq'].get((x, y), 0)
                exp = measure(name, a, r[x], c[y], n) if a else 0.0
                if exp is not None and not near(v, exp, 1e-5 if name in ('llik', 'chisq') else 2e-6):
                    return '%s of %s %s is %r, expected %r' % (name, x, y, v, exp)
        return None
    rows = [q for q in st['queries'] if q in ref['rows']]
    d = check_assoc(res['assoc'], rows, st['meas'])
    if d:
        return 'assoc', d
    d = builds.token_matrix_problem(res['tokens'], ref['tokens'])
    if d:
        return 'tokens', d
    ctx = {k for _, _, _, offs in ref['tokens'].values() for k in offs}
    cols = sorted(k for k in ctx if k in ref['rows'] and k in allcols)
    d = check_assoc(res['second'], cols, st['meas2'])
    if d:
        return 'second', d
    w, a, s = table(res['weights']), table(res['assoc']), table(res['second'])
    if sorted(w) != sorted(res['tokens'].row_items) or sorted(res['weights'].col_items) != cols:
        return 'weights', 'labels %.200r of %.200r' % (sorted(w), res['weights'].col_items)
    for t, row in w.items():
        ty, _, _, offs = ref['tokens'][t]
        for k, v in row.items():
            exp = a[ty][k] if ty in a and k in offs else 0.0
            if not near(v, exp):
                return 'weights', 'weight of %s for %s is %r, expected %r' % (k, t, v, exp)
    vs = table(res['vectors'])
    if sorted(vs) != sorted(w) or sorted(res['vectors'].col_items) != allcols:
        return 'vectors', 'labels %.200r of %.200r' % (sorted(vs), res['vectors'].col_items)
    for t, row in vs.items():
        if st['operation'] == 'multiplication':
            for y, v in row.items():
                p = [w[t][k] * s[k][y] for k in cols if w[t][k] and s[k][y]]
                exp = math.prod(p)
                if p and not near(v, exp, 1e-5):
                    return 'vectors', 'component %s of %s is %r, expected the product %r' % (y, t, v, exp)
            continue
        exp = {y: sum(w[t][k] * s[k][y] for k in cols) for y in allcols}
        size = max([abs(w[t][k] * s[k][y]) for k in cols for y in allcols] + [0.0])
        tot = sum(w[t].values())
        if st['operation'] == 'weightedmean':
            exp = {y: v / tot if tot else 0.0 for y, v in exp.items()}
            size = size / tot if tot else 0.0
        if st['norm'] != 'no':
            z = sum(abs(v) for v in exp.values()) if st['norm'] == 'l1' else math.sqrt(sum(v * v for v in exp.values()))
            if z < 1e-6 * size:
                continue                # nothing but rounding
            exp = {y: v / z if z else v for y, v in exp.items()}
            size = size / z if z else 0.0
        for y, v in row.items():
            if not near(v, exp[y], 1e-6, size):
                return 'vectors', 'component %s of %s is %r, expected %r' % (y, t, v, exp[y])
    ds = table(res['dist'])
    if sorted(ds) != sorted(vs) or sorted(res['dist'].col_items) != sorted(vs):
        return 'dist', 'labels %.200r of %.200r' % (sorted(ds), res['dist'].col_items)
    for t in ds:
        for u in ds:
            x, y = vs[t], vs[u]
            nx, ny = (math.sqrt(sum(v * v for v in q.values())) for q in (x, y))
            if t == u:
                exp = 0.0
            elif st['metric'] == 'cosine' and 0 < min(nx, ny) < 1e-12:
                continue            # taken for zero
            elif st['metric'] == 'cosine':
                exp = 1.0 - (sum(x[k] * y[k] for k in x) / (nx * ny) if nx and ny else 0.0)
            elif st['metric'] == 'euclidean':
                exp = math.sqrt(sum((x[k] - y[k]) ** 2 for k in x))
            else:
                exp = sum(abs(x[k] - y[k]) for k in x)
            if not abs(ds[t][u] - exp) <= 1e-6 * max(1.0, nx, ny, exp):
                return 'dist', 'distance of %s and %s is %r, expected %r' % (t, u, ds[t][u], exp)
    sm, rk = table(res['sim']), table(res['rank'])
    for k, q in (('sim', sm), ('rank', rk)):
        if sorted(q) != sorted(vs) or sorted(res[k].col_items) != sorted(vs):
            return k, 'labels %.200r of %.200r' % (sorted(q), res[k].col_items)
    for t in sm:
        for u in sm:
            x, y = vs[t], vs[u]
            nx, ny = (math.sqrt(sum(v * v for v in q.values())) for q in (x, y))
            if t != u and 0 < min(nx, ny) < 1e-12:
                continue
            exp = 1.0 if t == u else sum(x[k] * y[k] for k in x) / (nx * ny) if nx and ny else 0.0
            if not abs(sm[t][u] - exp) <= 1e-6:
                return 'sim', 'similarity of %s and %s is %r, expected %r' % (t, u, sm[t][u], exp)
        if sorted(rk[t].values()) != list(range(1, len(sm) + 1)):
            return 'rank', 'ranks of %s are %.200r' % (t, rk[t])
        o = [sm[t][u] for u in sorted(rk[t], key=rk[t].get, reverse=st['reverse'])]
        if o != sorted(o, reverse=True):
            return 'rank', 'similarities to %s in the order of the ranks are %.200r' % (t, o)
    return None


# ------------------------------------------------------------------ runs
def place(rng, what, ops, label):
    if what == 'io':
        o = faults.by_class(rng, faults.io_ops(ops))
        f = o and faults.io_error(rng, o)
    elif what == 'kill':
        o = faults.by_class(rng, [o for o in ops if faults.is_child(o[0])])
        f = o and faults.kill_at(rng, o)
    elif what in ('sigint', 'memerr'):
        o = faults.by_class(rng, [o for o in ops if o[0] == 's0'])
        f = o and {'proc': o[0], 'n': o[1], 'kind': what}
    elif rng.random() < 0.5:            # while a file of the study is written
        o = faults.by_class(rng, [o for o in ops if o[0] == 's0' and 'study/' in str(o[3])])
        f = o and {'proc': o[0], 'n': o[1], 'kind': what}
    else:
        o = faults.by_class(rng, [o for o in ops if not o[6]])
        f = o and {'proc': o[0], 'n': o[1], 'kind': what}
    if not f:
        return []
    f['proc'] = label + f['proc'][2:]
    return [f]


def _turn(prev, f):
    def main():
        for p in prev:
            seams.wait_session(p)
        seams.free_disk()
        return f()
    return main


def run(scn, ctx):
    st = scn['st']
    b = st['b']
    if not usable(st):
        return
    root, aux, d = ctx.path('corpus'), ctx.path('aux'), ctx.path('study')
    paths = {'tmp-path': ctx.path('tmp'), 'output-path': ctx.path('out')}
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)
    ref = study_ref(st)

    def check(s, i, how):
        t = s.tasks[i]
        bad = wrong(st, t.result, ref)
        if bad:
            ctx.fail('wrong-result', '%s: %s: %s' % ((how,) + bad))
        ctx.probe('study')
    builds.prepare(b, root, aux)
    os.mkdir(d)
    s = ctx.sim([('s0', study(scn, d, root, aux, paths))], dict(params, keep_ops=True), name='free')
    ctx.hang(s, 'study')
    if s.tasks[0].error is not None:
        ctx.fail('exception', 'an undisturbed study raised %s: %s at %s' % s.tasks[0].error)
    check(s, 0, 'an undisturbed study')
    if not scn['attempts'] and not scn['both']:
        return
    ops = s.ops
    ctx.reset()
    builds.prepare(b, root, aux)
    os.mkdir(d)
    n = len(scn['attempts'])
    fns, prev = [], []
    for i in range(n + 1):
        fns.append(('s%d' % i, _turn(list(prev), study(scn, d, root, aux, paths))))
        prev = ['s%d' % i] if not (scn['both'] and i % 2 == 0) else prev       # two at a time
        if scn['both'] and i % 2:
            prev = ['s%d' % (i - 1), 's%d' % i]
    if scn['both']:
        fns.append(('s%d' % (n + 1), _turn(prev, study(scn, d, root, aux, paths))))

    def fl():
        out = []
        for i, a in enumerate(scn['attempts']):
            out += place(random.Random('%s-%s' % (ctx.seed, a['id'])), a['what'], ops, 's%d' % i)
        return out
    s = ctx.sim(fns, dict(params, max_steps=600000), faults=fl, name='crash')
    ctx.hang(s, 'study')
    hurt = {f['proc'].split('+')[0].split('.')[0] for f in ctx.trace[-1]['faults']}
    if scn['both'] and any(f['kind'] == 'disk_full' for f in ctx.trace[-1]['faults']):
        hurt = {'s%d' % i for i in range(n + 1)}        # both sessions use that disk
    for i, t in enumerate(s.tasks[:len(fns)]):
        if t.error is not None:
            if t.label not in hurt:
                ctx.fail('exception', 'session %d of a study raised %s: %s at %s' % ((i + 1,) + t.error))
            ctx.probe('failed-session')
        elif t.dead or t.result is None:
            ctx.probe('dead-session')
        else:
            check(s, i, 'session %d of a study (%s%s)' % (i + 1, [a['what'] for a in scn['attempts'][:i + 1]], ', two at a time' if scn['both'] else ''))


def shrinks(scn):
    if scn['both']:
        yield dict(scn, both=False)
    for i in range(len(scn['attempts'])):
        x = copy.deepcopy(scn)
        del x['attempts'][i]
        yield x
    for b in builds.shrink_build(scn['st']['b']):
        if usable(dict(scn['st'], b=b)):
            yield dict(scn, st=dict(scn['st'], b=b))

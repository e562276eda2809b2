"""Exports (CSV files of matrices, concordances, tokens of a type) are complete when the call returns."""
import copy
import csv
import io
import json
import math
import os
import random

from sim import builds, corpus, faults, mats, seams

ID = 'C16'

NAMES = ['x.csv', 'dir.x/x', 'é.tsv', 'x']
ODD = ['nan', 'NA', 'null', 'None', '1990', '007', '1e5', 'True', 'inf', '-', '1.0', '#', '0x1', '2021-01-01', 'N/A', 'x', 'x.1']
CFMTS = ['lemma', 'word', 'lemma/pos', 'word/pos', 'pos']


def gen(rng, tier):
    steps = []
    b = builds.gen_build(rng, 'token', small=True, big=('rep',), bigp=0.04) if rng.random() < 0.5 else None
    for i in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        enc = rng.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1', 'ascii'])
        if b is None or r < 0.3:
            m = mats.gen_mat(rng, i + 1)
            lab = [x.replace('\x00', '') for x in m['rows']], [x.replace('\x00', '') for x in m['cols']]
            m['rows'], m['cols'] = lab
            if rng.random() < 0.2:      # labels that look like something else
                for x in ('rows', 'cols') if rng.random() < 0.5 else ('rows',):
                    if len(m[x]) <= len(ODD):
                        m[x] = rng.sample(ODD, len(m[x]))
            steps.append({'op': 'csv', 'm': m, 'sep': rng.choice(['\t', '\t', ',', ';']), 'enc': enc,
                          'index': rng.random() < 0.85, 'header': rng.random() < 0.85, 'sparse': rng.random() < 0.5})
        elif r < 0.7:
            steps.append({'op': 'conc', 'cfmt': rng.choice(CFMTS), 'enc': enc})
        else:
            steps.append({'op': 'node', 'k': rng.randrange(9), 'enc': enc, 'twice': rng.random() < 0.2})
        steps[-1]['name'] = rng.choice(NAMES)
    p = builds.sched_params(rng)
    if b is not None:
        builds.big_params(b, p)
    return {'b': b, 'steps': steps, 'nfaults': rng.choice([0, 1, 1, 1, 2]), 'params': p}


def ref_nodes(b):
    """type -> [(token, its attributes, left contexts, right contexts)] of the token build b."""
    c, fmt = b['corpus'], b['fmt']
    qs, cset = set(b['rows']), set(b['cols']) if b['cols'] else None
    out = {t: [] for t in qs}
    for i in builds.selected(b):
        f = c['files'][i]
        for art in corpus.articles(f):
            for p, (lid, v) in enumerate(art):
                t = corpus.item(v, fmt['type'])
                if t not in qs:
                    continue
                fid = corpus.stem(f['path'])
                tok = '/'.join([v[k] for k in fmt['token'].split('/')[:-2]] + [fid, str(lid)])
                ctxs = [[x for _, x in part if cset is None or corpus.item(x, fmt['colloc']) in cset]
                        for part in (art[max(0, p - b['lspan']):p], art[p + 1:p + 1 + b['rspan']])]
                out[t].append((tok, dict(v, fid=fid, lid=str(lid)), ctxs[0], ctxs[1]))
    return out


def text(fn, enc):
    with seams.REAL.open(fn, 'rb') as f:
        return f.read().decode(enc)


def encodable(s, enc):
    try:
        s.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def same(cell, v, dt):
    if isinstance(v, str):
        v = mats.num(v)
    if dt == 'bool':
        return cell == str(bool(v))
    if dt.startswith('int'):
        return int(cell) == v
    x = float(cell) if cell else float('nan')
    if x != x or v != v:
        return x != x and v != v
    if dt == 'float32':
        return abs(x - v) <= 1e-6 * abs(v)
    return x == v


def check_csv(st, got):
    """What is wrong with the text of the file, None if nothing."""
    m = st['m']
    rows = list(csv.reader(io.StringIO(got, newline=''), delimiter=st['sep']))
    exp_n = len(m['rows']) + st['header']
    if len(rows) != exp_n:
        return '%d lines, expected %d' % (len(rows), exp_n)
    if st['header']:
        head = rows.pop(0)
        if head != [''] * st['index'] + m['cols']:
            return 'column labels %.100r, expected %.100r' % (head, m['cols'])
    vals = {(i, j): v for i, j, v in m['cells']}
    for i, r in enumerate(rows):
        if st['index']:
            lab = r.pop(0)
            if lab != m['rows'][i]:
                return 'row label %r, expected %r' % (lab, m['rows'][i])
        if len(r) != len(m['cols']):
            return '%d cells in row %d, expected %d' % (len(r), i, len(m['cols']))
        for j, c in enumerate(r):
            try:
                ok = same(c, vals.get((i, j), 0), m['dt'])
            except ValueError:
                ok = False
            if not ok:
                return 'cell %r %r is %r, expected %r' % (m['rows'][i], m['cols'][j], c, vals.get((i, j), 0))
    return None


def read_back(st, fn):
    from nephosem.core.matrix import TypeTokenMatrix as T
    t = T.read_csv(fn, sep=st['sep'], index_col=0, issparse=st['sparse'], encoding=st['enc'])
    a = t.matrix.toarray() if st['sparse'] else t.matrix
    m = st['m']
    if list(t.row_items) != m['rows'] or list(t.col_items) != m['cols'] or tuple(a.shape) != (len(m['rows']), len(m['cols'])):
        return 'labels %.150r, expected %.150r' % ((list(t.row_items), list(t.col_items)), (m['rows'], m['cols']))
    vals = {(i, j): mats.num(v) for i, j, v in m['cells']}
    for i, r in enumerate(a.tolist()):
        for j, x in enumerate(r):
            v = vals.get((i, j), 0)
            if x != x or v != v:
                ok = x != x and v != v
            else:
                ok = x == v or math.isclose(x, v, rel_tol=1e-6 if m['dt'] == 'float32' else 1e-13)
            if not ok:
                return 'cell %r %r is %r, expected %r' % (m['rows'][i], m['cols'][j], x, v)
    return None


def session(ctx, scn, root, aux):
    b = scn['b']
    if b is not None:
        fnames = builds.fnames_arg(b, root, aux)
        settings = builds.make_settings(b, root, {'tmp-path': ctx.path('tmp'), 'output-path': ctx.path('out')})
        ref = ref_nodes(b)

    def f():
        from nephosem import utils
        h = None
        if b is not None:
            try:
                h, args = builds.new_handler(b, settings, aux)
                builds.call_build(b, h, args, fnames)
            except (Exception, KeyboardInterrupt) as e:
                if seams.fired_total() or builds.may_raise(b, builds.expected(b)):
                    return None
                return 'exception', 'retrieving tokens raised %s: %s' % (type(e).__name__, e)
        for n, st in enumerate(scn['steps']):
            fn, op, enc = ctx.path(st['name']), st['op'], st['enc']
            what = 'step %d: %s (%s)' % (n, {'csv': 'CSV export', 'conc': 'concordance', 'node': 'tokens of a type'}[op], enc)
            if op == 'csv':
                m = mats.build(st['m'])
                before = mats.plain(m), mats.form(m)

                def call():
                    m.to_csv(fn, sep=st['sep'], index=st['index'], header=st['header'], encoding=enc)

                def wrong():
                    got = check_csv(st, text(fn, enc))
                    if got is None and st['index'] and st['header']:
                        got = read_back(st, fn)
                        if got is not None:
                            got = 'read back: ' + got
                    return got
                okay = encodable(''.join(st['m']['rows'] * st['index'] + st['m']['cols'] * st['header']), enc)
            elif op == 'conc':
                def item(v):
                    return '/'.join(v[k] for k in st['cfmt'].split('/'))
                exp = sorted('%s\t%s\t%s\t%s' % (tok, ' '.join(map(item, lc)), item(v), ' '.join(map(item, rc)))
                             for toks in ref.values() for tok, v, lc, rc in toks)

                def call():
                    utils.save_concordance(fn, h.type2toks, colloc_fmt=st['cfmt'], encoding=enc)

                def wrong():
                    got = text(fn, enc).split('\n')
                    if got.pop() != '':
                        return 'the last line is cut off'
                    got.sort()
                    if got != exp:
                        miss, more = [x for x in exp if x not in got], [x for x in got if x not in exp]
                        return '%d lines, expected %d; missing %.150r, unexpected %.150r' % (len(got), len(exp), miss[:2], more[:2])
                okay = encodable(''.join(exp), enc)
            else:
                t = sorted(h.type2toks)[st['k'] % len(h.type2toks)] if h.type2toks else None
                if t is None:
                    continue

                node = h.type2toks[t]
                if st.get('twice'):             # the same tokens once more
                    from nephosem.core.terms import TypeNode
                    node = TypeNode.merge([node, node])

                def call():
                    node.save(fn, encoding=enc, verbose=False)

                def wrong():
                    d = json.loads(text(fn, enc))

                    def item(v):
                        return '\t'.join([v['word'], v['pos'], v['lemma']])
                    exp = sorted([v['word'], v['pos'], v['lemma'], v['fid'], v['lid'], list(map(item, lc)), list(map(item, rc))] for _, v, lc, rc in ref[t] * (1 + bool(st.get('twice'))))
                    got = sorted([x['word'], x['pos'], x['lemma'], x['fid'], str(x['lid']), x['left-collocates'], x['right-collocates']] for x in d['tokens'])
                    for c, x in zip(b['fmt']['type'].split('/'), t.split('/')):
                        if c in ('lemma', 'pos') and d[c] != x and t.count('/') == b['fmt']['type'].count('/'):
                            return 'the %s of %s is %r' % (c, t, d[c])
                    if got != exp:
                        return '%d tokens, expected %d; first %.150r, expected %.150r' % (len(got), len(exp), got[:1], exp[:1])
                    back = h.type2toks[t].load(fn, encoding=enc)
                    exp = sorted([tok, v['word'], v['pos'], v['lemma'], list(map(item, lc)), list(map(item, rc))] for tok, v, lc, rc in ref[t] * (1 + bool(st.get('twice'))))
                    got = sorted([str(x), x.word, x.pos, x.lemma, list(map(str, x.lcollocs)), list(map(str, x.rcollocs))] for x in back.tokens)
                    if str(back) != t or got != exp:
                        return 'read back: %r with %d tokens, expected %r with %d; first %.150r, expected %.150r' % (
                            str(back), len(got), t, len(exp), got[:1], exp[:1])
                okay = True
            for attempt in ('', ' (again)'):
                n0, err = seams.fired_total(), None
                try:
                    call()
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                hit = seams.fired_total() > n0
                seams.free_disk()
                if op == 'csv' and (mats.plain(m), mats.form(m)) != before:
                    return 'object-changed', '%s%s changed the matrix in memory' % (what, attempt)
                if err is None:
                    n1 = seams.fired_total()
                    try:
                        bad = wrong() if okay else 'text that cannot be encoded was written'
                    except (Exception, KeyboardInterrupt) as e:
                        if seams.fired_total() > n1:
                            seams.free_disk()
                            break
                        bad = 'unreadable: %s: %s' % (type(e).__name__, e)
                    if bad is not None:
                        return ('partial-result' if hit else 'wrong-result'), '%s%s: %s' % (what, attempt, bad)
                    ctx.probe('wrote-' + op)
                    break
                if not hit and okay:
                    return 'exception', '%s%s raised %s: %s' % (what, attempt, type(err).__name__, err)
                ctx.probe('raised')
        return None
    return f


def run(scn, ctx):
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)
    root, aux = ctx.path('corpus'), ctx.path('aux')

    def go(name, params, fl=()):
        os.mkdir(ctx.path('dir.x'))
        if scn['b'] is not None:
            builds.prepare(scn['b'], root, aux)
        s = ctx.sim([('s0', session(ctx, scn, root, aux))], params, faults=fl, name=name)
        ctx.hang(s, 'export')
        t = s.tasks[0]
        if t.error is not None:
            ctx.fail('exception', 'session died: %s: %s at %s' % t.error)
        if t.result is not None:
            ctx.fail(*t.result)
        return s
    s = go('rec', dict(params, keep_ops=True))
    if not scn['nfaults']:
        return
    ctx.reset()

    def fl():
        rng = random.Random('f-%s' % ctx.seed)
        out = []
        first = next((o[1] for o in s.ops if o[0] == 's0' and any(o[3].endswith(n) for n in NAMES)), 10 ** 9)
        ops = [o for o in faults.io_ops(s.ops) if o[0] == 's0' and o[1] >= first]
        for _ in range(scn['nfaults']):
            what = rng.choice(['io', 'io', 'io', 'memerr', 'sigint'])
            o = faults.by_class(rng, ops)
            if o is None:
                continue
            out.append(faults.io_error(rng, o) if what == 'io' else {'proc': o[0], 'n': o[1], 'kind': what})
        return out
    go('fault', params, fl)


def shrinks(scn):
    for i in range(len(scn['steps'])):
        if len(scn['steps']) > 1:
            x = copy.deepcopy(scn)
            del x['steps'][i]
            yield x
        if scn['steps'][i]['op'] == 'csv':
            for m in mats.shrink_mat(scn['steps'][i]['m']):
                x = copy.deepcopy(scn)
                x['steps'][i]['m'] = m
                yield x
    if scn['b'] is not None:
        if all(st['op'] == 'csv' for st in scn['steps']):
            yield dict(scn, b=None)
        for b in builds.shrink_build(scn['b']):
            yield dict(scn, b=b)

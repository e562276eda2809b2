"""Corpus builds as simulated sessions, with their oracles (used by C01-C04, C06-C08, C14)."""
import copy
import os

from . import corpus, kernel, seams


def sched_params(rng, cpu=None, small_steps=False):
    clock = [[rng.randrange(1, rng.choice([20, 200, 1000])), rng.choice([-4e7, -90000.0, -4000.0, -61.0, 0.5, 61.0, 4000.0, 90000.0, 4e7])]
             for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    return {'clock': clock, 'p_switch': rng.choice([0.03, 0.15, 0.4, 0.7, 0.95]), 'weights': rng.choice(['flat', 'flat', 'skew']),
            'cpu': cpu if cpu is not None else rng.choice([1, 2, 2, 3, 4, 4, 8]),
            'pid_mode': rng.choice(['fresh', 'mixed', 'reuse']),
            'listing': rng.choice(['shuffle', 'shuffle', 'reverse', 'sorted']),
            'bufsize': rng.choice([32, 256, 8192]), 'pipe': rng.choice([0, 200, 65536]), 'stall_p': rng.choice([0, 0, 0, 0, 0.01, 0.05]),
            'stall': rng.choice([45, 4000, 200000]), 'mtime_gran': rng.choice([0, 0, 1, 2]),
            'tick': rng.choice([0.001, 0.001, 0.5])}


def big_params(b, p):
    """A large corpus is moved in large pieces."""
    if sum(len(f['lines']) * f.get('rep', 1) for f in b['corpus']['files']) > 150 or \
            any(len(x) > 1000 for f in b['corpus']['files'] for ln in f['lines'] if ln['k'] == 'w' for x in ln['v'].values()):
        p.update(bufsize=8192, pipe=65536, max_steps=300000)
    return p


def gen_build(rng, kind, small=False, tier='quick', **kw):
    """A build scenario; seldom one whose result is empty."""
    for _ in range(rng.choice([1, 4, 4, 4])):
        b = _gen_build(rng, kind, small, tier, **kw)
        if not may_raise(b, expected(b)):
            break
    return b


def _gen_build(rng, kind, small, tier, **kw):
    c = corpus.gen_corpus(rng, dep=(kind == 'dep'), small=small,
                          max_files=8 if tier == 'thorough' else 6, max_len=24 if tier == 'thorough' else 12, **kw)
    fmt = corpus.fmts(rng)
    if kind == 'dep':
        fmt.update(type='lemma/pos', colloc='lemma/pos', token='lemma/pos/fid/lid')
        if rng.random() < 0.15:
            fmt['idcols'] = rng.choice([['ID', 'HEAD'], ['nr', 'gov'], ['head', 'id'], ['currID', 'headID']])
    b = {'kind': kind, 'corpus': c, 'fmt': fmt, 'lspan': rng.choice([0, 1, 2, 2, 3, 5]),
         'rspan': rng.choice([0, 1, 2, 2, 3, 5]), 'workers': rng.choice([0, 0, 1, 2, 3, 16])}
    most = max(len(f['lines']) * f.get('rep', 1) for f in c['files'])
    if rng.random() < (0.5 if 150 < most < 2000 else 0.04):             # wide windows
        b['lspan'] = rng.choice([0, 9, 40, 150] if most < 2000 else [0, 9])
        b['rspan'] = rng.choice([9, 40, 150] if most < 2000 else [9])
    b['sel'] = gen_sel(rng, c)
    types = corpus.all_types(c, fmt) or ['/'.join('xyz'[:fmt['type'].count('/') + 1])]
    collocs = corpus.all_types(c, fmt, 'colloc') or ['x']
    k = rng.choice([1, 2, len(types), len(types)])
    rows = rng.sample(types, min(k, len(types)))
    if rng.random() < 0.3:
        rows.append('/'.join(['zz'] * (fmt['type'].count('/') + 1)))
    cols = None
    if rng.random() < 0.5:
        cols = rng.sample(collocs, min(len(collocs), rng.choice([1, 2, 4, 8])))
        if rng.random() < 0.3:
            cols.append('qq')
    b['rows'], b['cols'] = rows, cols
    b['vocab_at'] = rng.choice(['init', 'call'])
    b['vfreq'] = rng.choice([None, None, 'zero', 'varied', 'varied'])
    b['chunk'] = rng.choice([None, None, 1, 5, 40])         # size of the pieces a worker hands over
    if kind == 'dep':
        b['pats'], b['macros'] = corpus.gen_patterns(rng)
        b['mode'] = rng.choice(['type', 'type', 'token'])
        b['targets'] = None
        if rng.random() < 0.4:
            b['targets'] = rng.sample(types, min(len(types), rng.choice([1, 2, 5])))
            b['targets_as'] = rng.choice(['list', 'vocab'])
            # with explicit targets the label is the full attribute text
            for p in b['pats']:
                for _, a in p['nodes']:
                    a['lemma'] = rng.choice(['(.+)', '(.+)', '([a-z]+)$', '(.*)'])
                    a['pos'] = rng.choice(['(\\w+)', '(\\w+)', '(\\w+)', '(noun|N)$', '(verb)$'])
        b['pats_as'] = rng.choice(['graphml', 'graphml', 'defaults', 'dicts', 'strings'])
        b['labels'] = corpus.gen_labels(rng, b['targets'] is None)
    b['spell'] = rng.choice(['relative', 'dot', 'slash', 'dots']) if rng.random() < 0.12 else None
    return b


def gen_sel(rng, c):
    n = len(c['files'])
    r = rng.random()
    if r < 0.5:
        return None
    idx = rng.sample(range(n), rng.randrange(1, n + 1))
    if r < 0.75:
        return {'how': 'list', 'idx': idx}
    bare = [i for i in idx if '/' not in c['files'][i]['path']]
    if r < 0.85 and bare:
        return {'how': 'bare', 'idx': bare}
    return {'how': 'fnames', 'idx': idx}


def selected(b, sel='own'):
    sel = b['sel'] if sel == 'own' else sel
    return list(range(len(b['corpus']['files']))) if sel is None else list(sel['idx'])


def paths_of(b, root, sel='own'):
    return [root + '/' + b['corpus']['files'][i]['path'] for i in selected(b, sel)]


def fnames_arg(b, root, aux, sel='own'):
    """The fnames argument; writes a .fnames file next to the corpus when that is the style."""
    sel = b['sel'] if sel == 'own' else sel
    if sel is None:
        return None
    ps = paths_of(b, root, sel)
    if b.get('spell') in ('relative', 'dot'):
        ps = [spell(b['spell'], p) for p in ps]
    if sel['how'] == 'list':
        return ps
    if sel['how'] == 'bare':
        ps = [os.path.basename(p) for p in ps]
    fn = '%s/sel-%s.fnames' % (aux, '-'.join(map(str, sel['idx'])) + sel['how'])
    txt = '# selection\n\n' + '\n'.join(ps) + '\n'
    with seams.REAL.open(fn, 'wb') as f:
        f.write(txt.encode('utf-8'))
    return fn


def make_settings(b, root, paths):
    s = corpus.settings(b['corpus'], b['fmt'], root, b['lspan'], b['rspan'])
    s.update(paths)
    for k in ('corpus-path', 'tmp-path', 'output-path'):
        if s.get(k):
            s[k] = spell(b.get('spell'), s[k])
    return s


def spell(how, p):
    """The same place, written otherwise."""
    if how == 'relative':
        return os.path.relpath(p)
    if how == 'dot':
        return './' + os.path.relpath(p)
    if how == 'slash':
        return p + '/'
    if how == 'dots':
        return os.path.dirname(p) + '/.//' + os.path.basename(p)
    return p


def prepare(b, root, aux):
    """Put the corpus (and templates) on the simulated machine's disk."""
    corpus.write(b['corpus'], root)
    os.makedirs(aux, exist_ok=True)
    if b['kind'] == 'dep':
        with seams.REAL.open(aux + '/t.graphml', 'w', encoding='utf-8') as f:
            f.write(corpus.graphml(b['pats'], b.get('pats_as') == 'defaults'))
        with seams.REAL.open(aux + '/m.xml', 'w', encoding='utf-8') as f:
            f.write(corpus.macroxml(b['macros'], b['mode'] == 'token', b.get('labels')))


def twist(ln):
    """The same number of bytes, other content."""
    if ln['k'] != 'w':
        return ln
    return dict(ln, v=dict(ln['v'], word=ln['v']['lemma'], lemma=ln['v']['word']))


def edited(b, c):
    """The build after the corpus edits of a call: some files gone, some with the lines of another file, some corrected."""
    fs = b['corpus']['files']
    fs = [dict(f, **{k: fs[c['alt'][str(i)] % len(fs)].get(k) for k in ('lines', 'rep')}) if str(i) in c.get('alt', {}) else f
          for i, f in enumerate(fs)]
    fs = [{k: v for k, v in f.items() if v is not None} for f in fs]
    fs = [dict(f, lines=[twist(ln) if n % c['twist'][str(i)] == 0 else ln for n, ln in enumerate(f['lines'])])
          if str(i) in c.get('twist', {}) else f for i, f in enumerate(fs)]
    return dict(b, corpus=dict(b['corpus'], files=fs))


def apply_edits(b, b2, root, gone, sly=False):
    """Bring the corpus folder into the state of b2 (within a simulation)."""
    for i, f in enumerate(b2['corpus']['files']):
        p = root + '/' + f['path']
        new = None if i in gone else corpus.render(b2['corpus'], f)
        try:
            with seams.REAL.open(p, 'rb') as h:
                old = h.read()
        except OSError:
            old = None
        if new != old:
            st = seams.REAL.stat(p) if sly and None not in (old, new) else None
            seams.put(p, new)
            if st is not None:          # copied with its time stamp, or within the resolution of the file system
                seams.REAL.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def new_handler(b, settings, aux, workers=None, args=None):
    """A handler and the arguments given to it; args are those of another handler to be used again."""
    import nephosem
    from nephosem import Vocab
    from nephosem.models.typetoken import ItemFreqHandler, ColFreqHandler, TokenHandler
    from nephosem.models.deprel import DepRelHandler
    w = b['workers'] if workers is None else workers
    k = b['kind']
    if args is None:
        args = new_args(b, aux)
    if k == 'item':
        h = ItemFreqHandler(settings, workers=w)
    elif k == 'col':
        if b['vocab_at'] == 'init':
            h = ColFreqHandler(settings, workers=w, row_vocab=args['row'], col_vocab=args['col'])
        else:
            h = ColFreqHandler(settings, workers=w)
    elif k == 'token':
        h = TokenHandler(args['queries'], settings=settings, workers=w, col_vocab=args['col'])
    else:
        h = DepRelHandler(settings, workers=w, targets=args['targets'], mode=b['mode'])
        h.read_templates(macros=args['macros'])
    if b.get('chunk') and hasattr(h, 'chunksize'):
        h.chunksize = b['chunk']
    return h, args


def freqs(b, items):
    """Frequencies of a vocabulary; which ones they are must not matter to a build."""
    how = b.get('vfreq')
    return {t: 0 if how == 'zero' else (i * 7 + 5) % 4 * 10 ** (i % 5) if how == 'varied' else 1 for i, t in enumerate(items)}


def new_args(b, aux):
    from nephosem import Vocab
    k = b['kind']
    if k == 'item':
        return {}
    cv = Vocab(freqs(b, b['cols'])) if b['cols'] else None
    if k == 'col':
        return {'row': Vocab(freqs(b, b['rows'])), 'col': cv}
    if k == 'token':
        return {'queries': Vocab(freqs(b, b['rows'])), 'col': cv}
    from nephosem.core.graph import PatternGraph, MacroGraph
    if b.get('pats_as') in ('dicts', 'strings'):
        pats = []
        for p in b['pats']:
            nodes, edges = corpus.regex_strings(p) if b['pats_as'] == 'strings' else (
                {v: dict(a) for v, a in p['nodes']}, {(u, v): {'deprel': r} for u, v, r in p['edges']})
            pats.append(PatternGraph(nodes, edges))
            pats[-1].id = p['id']
    else:
        pats = PatternGraph.read_graphml(aux + '/t.graphml')
    macros = MacroGraph.read_xml(aux + '/m.xml', pats)
    t = b['targets']
    if t is not None:
        t = Vocab({x: 0 for x in t}) if b.get('targets_as') == 'vocab' else list(t)
    return {'targets': t, 'macros': macros, 'pats': pats}


def picture(args):
    """A comparable picture of the arguments of a handler."""
    out = {}
    for k, v in args.items():
        if v is None:
            out[k] = None
        elif k in ('macros', 'pats'):
            out[k] = [(sorted((repr(n), repr(sorted(d.items(), key=repr))) for n, d in m.graph.nodes(data=True)),
                       sorted((repr(x), repr(y), repr(sorted(d.items(), key=repr))) for x, y, d in m.graph.edges(data=True)),
                       {a: repr(w) for a, w in sorted(m.__dict__.items()) if a != 'graph' and not a.startswith('_')
                        and (w is None or isinstance(w, (int, str, float, list, dict, tuple, bool)))}) for m in v]
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = [(x, repr(n)) for x, n in v.freq_dict.items()]
    return out


def call_build(b, h, args, fnames):
    k = b['kind']
    if k == 'item':
        v = h.build_item_freq(fnames=fnames)
        return {'freq': dict(v.freq_dict), 'vocab': v}
    if k == 'col':
        kw = {}
        if b['vocab_at'] == 'call':
            kw = {'row_vocab': args['row'], 'col_vocab': args['col']}
        return {'mtx': h.build_col_freq(fnames=fnames, **kw)}
    if k == 'token':
        m = h.retrieve_tokens(fnames=fnames)
        toks = {t: [(str(x), [y.to_colloc() for y in x.lcollocs], [y.to_colloc() for y in x.rcollocs])
                    for x in node.tokens] for t, node in h.type2toks.items()}
        return {'mtx': m, 'toks': toks}
    return {'mtx': h.build_dependency(fnames=fnames)}


def via(b, settings, fnames):
    """The same build by way of the vectorizer classes."""
    from nephosem import Vocab
    from nephosem.models.typetoken import TypeVectorizer, TokenVectorizer
    k = b['kind']
    if k == 'token':
        con = {'c%d' % i: rows for i, rows in enumerate(b['via'])}
        v = TokenVectorizer(con, settings)
        res = v.retrieve_tokens(fnames=fnames)
        if set(res) != set(con) or any([str(n) for n in res[c]] != con[c] for c in con):
            return {'mtx': None, 'toks': {'concepts': [(repr(res), [], [])]}}
        toks = {str(n): [(str(x), [y.to_colloc() for y in x.lcollocs], [y.to_colloc() for y in x.rcollocs])
                         for x in n.tokens] for nodes in res.values() for n in nodes}
        return {'mtx': None, 'toks': toks}
    if k == 'item':
        v = TypeVectorizer(settings, corpus_name='c').build_vocab(fnames=fnames)
        return {'freq': dict(v.freq_dict), 'vocab': v}
    kw = {}
    if b['via'] != 'auto':
        kw['row_vocab'] = Vocab(freqs(b, b['rows']))
    if b['via'] == 'both':
        kw['col_vocab'] = Vocab(freqs(b, b['cols']))
    v = TypeVectorizer(settings, **kw)
    m = v.fit(fnames=fnames)
    if m is not v.freqmx:
        return {'mtx': None}
    return {'mtx': m}


def set_via(rng, b):
    """Let the build go by way of a vectorizer."""
    b['workers'] = 0
    if b['kind'] == 'token':
        b['cols'] = None
        n = rng.choice([1, 1, 2, 3])
        b['via'] = [g for g in (b['rows'][i::n] for i in range(n)) if g]
    elif b['kind'] == 'item':
        b['via'] = True
    else:
        b['via'] = rng.choice(['auto', 'rows'] + (['both'] if b['cols'] else []))


def fix_via(b):
    """What the vectorizer adds by itself (again after shrinking)."""
    if b.get('via') == 'auto':
        b['rows'] = sorted(corpus.ref_items(b['corpus'], b['fmt'], selected(b)))
    if b.get('via') in ('auto', 'rows'):
        b['cols'] = list(b['rows'])
    if b.get('via') and b['kind'] == 'token':
        b['via'] = [g for g in ([r for r in g if r in b['rows']] for g in b['via']) if g]


def session(b, root, aux, paths, workers=None):
    """A main program that builds once with a fresh handler."""
    fn = fnames_arg(b, root, aux)
    settings = make_settings(b, root, paths)

    def main():
        if b.get('via'):
            return via(b, settings, fn)
        h, args = new_handler(b, settings, aux, workers)
        return call_build(b, h, args, fn)
    return main


# ------------------------------------------------------------------ oracles
def mtx_dict(m):
    """{(row label, col label): value} of the stored nonzero values; None if labels are unusable."""
    sp = m.matrix
    rows, cols = list(m.row_items), list(m.col_items)
    if hasattr(sp, 'tocoo'):
        sp = sp.tocoo()
        sp.sum_duplicates()
        it = list(zip(sp.row.tolist(), sp.col.tolist(), sp.data.tolist()))
    else:
        it = [(i, j, float(sp[i, j])) for i in range(sp.shape[0]) for j in range(sp.shape[1])]
    return {(rows[i], cols[j]): v for i, j, v in it if v != 0}


def shape_problem(m):
    rows, cols = list(m.row_items), list(m.col_items)
    if len(set(rows)) != len(rows) or len(set(cols)) != len(cols):
        return 'repeated labels'
    if tuple(m.matrix.shape) != (len(rows), len(cols)):
        return 'shape %s for %d x %d labels' % (m.matrix.shape, len(rows), len(cols))
    return None


def diff(exp, got):
    miss = sorted(k for k in exp if k not in got)
    extra = sorted(k for k in got if k not in exp)
    bad = sorted(k for k in exp if k in got and exp[k] != got[k])
    out = []
    if miss:
        out.append('missing %s (expected %s)' % (miss[:3], [exp[k] for k in miss[:3]]))
    if extra:
        out.append('unexpected %s = %s' % (extra[:3], [got[k] for k in extra[:3]]))
    if bad:
        out.append('wrong value for %s: got %s, expected %s' % (bad[:3], [got[k] for k in bad[:3]], [exp[k] for k in bad[:3]]))
    return '; '.join(out)


def expected(b, sel='own'):
    idx = selected(b, sel)
    c, fmt = b['corpus'], b['fmt']
    k = b['kind']
    if k == 'item':
        return corpus.ref_items(c, fmt, idx)
    if k == 'col':
        return corpus.ref_colloc(c, fmt, idx, b['lspan'], b['rspan'], b['rows'], b['cols'])
    if k == 'token':
        return corpus.ref_tokens(c, fmt, idx, b['lspan'], b['rspan'], b['rows'], b['cols'])
    return corpus.ref_dep(c, idx, b['pats'], b['macros'], b['targets'], b['mode'], b.get('labels'))


def may_raise(b, exp):
    """Builds whose correct result is an empty matrix may raise instead."""
    if b['kind'] == 'item':
        return False
    if b['kind'] == 'token':
        return not any(v[3] for v in exp.values())
    return not exp


def check_result(b, res, exp):
    """None if the build result is exactly right, else what is wrong."""
    try:
        return _check_result(b, res, exp)
    except kernel.HarnessError:
        raise
    except Exception as e:
        return 'unusable result (%s: %s)' % (type(e).__name__, e)


def _check_result(b, res, exp):
    k = b['kind']
    if k == 'item':
        d = diff(exp, res['freq'])
        if d:
            return d
        for n in res['freq'].values():
            if int(n) != n:
                return 'non-integer frequency'
        v = res['vocab']
        if len(v) != len(exp):
            return 'len(vocab) = %d, items %d' % (len(v), len(exp))
        return None
    m = res['mtx']
    if m is None and not ('toks' in res and b.get('via')):
        if k in ('col', 'dep') and not exp:
            return None
        if k == 'col' and not exp:
            return None
        return 'no matrix returned, expected %d nonzero cells' % len(exp)
    p = shape_problem(m) if m is not None else None
    if p:
        return p
    got = mtx_dict(m) if m is not None else None
    if k == 'col':
        if set(m.row_items) != set(b['rows']):
            return 'row labels %s, expected the row vocabulary %s' % (sorted(m.row_items), sorted(b['rows']))
        want = set(b['cols']) if b['cols'] else {c for _, c in exp}
        if set(m.col_items) != want:
            return 'column labels %s, expected %s' % (sorted(m.col_items), sorted(want))
        return diff(exp, got) or None
    if k == 'dep':
        if set(m.row_items) != {t for t, _ in exp} or set(m.col_items) != {f for _, f in exp}:
            return diff(exp, got) or 'labels without any match'
        return diff(exp, got) or None
    # tokens
    toks = {}
    for t, lst in res['toks'].items():
        for name, left, right in lst:
            if name in toks:
                return 'token %s retrieved twice' % name
            toks[name] = (t, left, right)
    e = {n: (v[0], v[1], v[2]) for n, v in exp.items()}
    d = diff(e, toks)
    if d:
        return 'tokens: ' + d
    if m is None:
        return None
    return token_matrix_problem(m, exp)


def token_matrix_problem(m, exp):
    """What is wrong with the matrix of tokens: rows, contexts of each token, their offsets."""
    got = mtx_dict(m)
    if set(m.row_items) != set(exp):
        return 'matrix rows: ' + diff(dict.fromkeys(exp, 1), dict.fromkeys(m.row_items, 1))
    cells = {}
    for (r, c), v in got.items():
        cells.setdefault(r, {})[c] = v
    for n, v in exp.items():
        g = cells.get(n, {})
        if set(g) != set(v[3]):
            return 'contexts of %s: got %s, expected %s' % (n, sorted(g), sorted(v[3]))
        for c, off in g.items():
            if off not in v[3][c]:
                return 'offset of %s in %s is %s, it occurs at %s' % (c, n, off, sorted(v[3][c]))
    return None


def check_single(ctx, b, s, exp, what='build'):
    """Fault-free build: no hang, no exception, exact result."""
    ctx.hang(s, what)
    t = s.tasks[0]
    if t.error is not None:
        if may_raise(b, exp):
            ctx.probe('empty-raises')
            return
        ctx.fail('exception', '%s raised %s: %s at %s' % (what, t.error[0], t.error[1], t.error[2]))
    p = check_result(b, t.result, exp)
    if p:
        ctx.fail('wrong-result', '%s: %s' % (what, p))


# ------------------------------------------------------------------ shrinking
def shrink_build(b):
    """Smaller variants of a build scenario."""
    n = len(b['corpus']['files'])

    def redo(keep):
        x = copy.deepcopy(b)
        x['corpus']['files'] = [x['corpus']['files'][i] for i in keep]
        m = {o: i for i, o in enumerate(keep)}
        for key in ('sel',):
            if x.get(key):
                x[key]['idx'] = [m[i] for i in x[key]['idx'] if i in m]
                if not x[key]['idx']:
                    return None
        return x
    if n > 1:
        for d in range(n):
            x = redo([i for i in range(n) if i != d])
            if x:
                yield x
    if b.get('sel'):
        x = copy.deepcopy(b)
        x['sel'] = None
        yield x
    for i in range(n):
        L = len(b['corpus']['files'][i]['lines'])
        size = L
        while size >= 1:
            for j in range(0, L, size):
                x = copy.deepcopy(b)
                del x['corpus']['files'][i]['lines'][j:j + size]
                yield x
            size //= 2
        r = b['corpus']['files'][i].get('rep', 1)
        if r > 1:
            x = copy.deepcopy(b)
            x['corpus']['files'][i]['rep'] = r // 2
            yield x
    for key in ('rows', 'targets', 'macros'):
        if b.get(key) and len(b[key]) > 1:
            for j in range(len(b[key])):
                x = copy.deepcopy(b)
                del x[key][j]
                yield x
    for w in (1, 2):
        if b['workers'] not in (w,) and b['workers'] != 1:
            x = copy.deepcopy(b)
            x['workers'] = w
            yield x
    if b['corpus']['enc'] != 'utf-8':
        x = copy.deepcopy(b)
        x['corpus']['enc'] = 'utf-8'
        yield x
    if b['corpus']['nl'] != '\n':
        x = copy.deepcopy(b)
        x['corpus']['nl'] = '\n'
        yield x

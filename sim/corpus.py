"""Generated corpora and the independent reference for everything built from them.

A corpus is structured data: files of lines, each line a word (column values), a
separator, or junk.  The references work on that structure and never parse text,
so they share nothing with the code under test.
"""
import os

from . import seams

WORDS = ['de', 'kat', 'zit', 'op', 'mat', 'en', 'hond']
EXTRA = ['café', 'straße', 'a.b', "l'eau", 'x_y', '(z)', 'ÀÉ', '[k]', 'n+1']
ODD = ['#tag', '<b>', '%', '&amp;', '"q"', 'NA', 'nan', '1', '-', '@x', ';', "''", '\\n', 'None', '--x']
EXTRA_UTF8 = ['猫', 'ελλ', '😀']
POS = ['noun', 'verb', 'adj', 'N']
RELS = ['nsubj', 'obj', 'amod', 'det', 'ROOT', 'prep']
CASED = ['De', 'KAT', 'Mat', 'katten', 'EN', 'zithond']          # differ from others in case, or contain them
CASED_RELS = RELS + ['iobj', 'nsubjpass', 'OBJ', 'Det', 'prep_of', 'obj:x']

SEPS = [('</sentence>', '</sentence>'), ('</s>', '</s>'), ('<doc id="3">', '<doc[^>]*>'), ('', '^$'),
        ('-- end', '--')]


def stem(path):
    return os.path.splitext(path)[0]


def gen_corpus(rng, dep=False, max_files=6, max_len=14, small=False, lineends=True, big=(), bigp=0.04):
    """JSON-able corpus description."""
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16'])
    words = list(WORDS) + rng.sample(EXTRA, 2)
    links = rng.random() < 0.06
    if rng.random() < 0.15:
        words += rng.sample(ODD[:-1] if dep else ODD, 2)
    if enc != 'latin-1':
        words.append(rng.choice(EXTRA_UTF8))
    cased = rng.random() < (0.4 if dep else 0.15)
    if cased:
        words += rng.sample(CASED, 3)
    rng.shuffle(words)
    words = words[:rng.choice([2, 3, 5, 8, 10])]
    if rng.random() < 0.04:
        words[0] = rng.choice([x for x in words[0] if x.isalnum()] or 'w') * rng.choice([71, 150, 300])     # lines longer than a read
    wide = bool(big) and rng.random() < 0.015
    big = rng.choice(big) if big and rng.random() < bigp else None
    if big == 'words':
        words = ['w%d' % i for i in range(300)]
    pos = POS[:rng.choice([1, 2, 3])]
    sep = rng.choice(SEPS)
    if dep:
        cols = ['word', 'pos', 'lemma', 'id', 'head', 'deprel']
        delim = '\t'
    else:
        cols = ['word', 'pos', 'lemma']
        rng.shuffle(cols)
        delim = rng.choice(['\t', '\t', ' '])
        if rng.random() < 0.2:
            cols = cols + ['id', 'head', 'deprel']
    if delim == '\t' and rng.random() < 0.1:
        words[-1] = rng.choice(['a b', 'New  York'])
    n = rng.choice([1, 1, 2, 2, 3, 4, max_files]) if not small else rng.choice([1, 2, 3])
    if big == 'files':
        n = rng.choice([12, 25, 40, 70])
    names, used = [], set()
    dirs = ['', '', 'sub/', 'sub/deep/', 'b/'] + rng.choice([[], [], [], ['.d/', 'a b/', 'x.txt/']])
    stems = ['f', 'g', 'text.', 'é'] + rng.choice([[], [], [], ['.h', 'a b', 'x#', '[g]', 'F', '~', '_']])
    exts = ['.txt', '.conll', '', '.v1.txt'] + rng.choice([[], [], [], ['.tmp', '.txt~', '.bak', '.fnames', '.gz', '.pac', '.TXT', '.swp']])
    span = rng.choice([2, 30, 30, 30]) if n < 9 else 100    # often the same name in several folders
    while len(names) < n:
        nm = rng.choice(dirs) + rng.choice(stems) + str(rng.randrange(span)) + rng.choice(exts)
        key = stem(nm)                        # file ids (path without extension) must identify files
        if key in used:
            continue
        used.add(key)
        names.append(nm)
    files = []
    for nm in names:
        if dep:
            lines = _dep_lines(rng, words, pos, sep, rng.choice([0, 1, 1, 2, 3]), CASED_RELS if cased else RELS)
        else:
            lines = []
            psep = 0 if big == 'words' and rng.random() < 0.5 else 0.14         # long articles
            for _ in range(rng.choice([0, 1, 2, max_len // 2, max_len] if big != 'words' else [200, 400])):
                r = rng.random()
                if r < psep:
                    lines.append({'k': 's'})
                elif r < 0.2:
                    lines.append({'k': 'j', 't': rng.choice(['<p>', '# note', '&', '<artikel naam="x">', '***'] + ['', '  '] * bool(sep[0]))})
                else:
                    v = {'word': rng.choice(words), 'pos': rng.choice(pos), 'lemma': rng.choice(words)}
                    if rng.random() < 0.3:
                        v['word'] = v['lemma']
                    if 'id' in cols:
                        v.update(id=str(rng.randrange(1, 9)), head=str(rng.randrange(9)), deprel=rng.choice(RELS))
                    lines.append({'k': 'w', 'v': v, 'x': rng.random() < 0.05})
        files.append({'path': nm, 'lines': lines, 'fin': rng.random() < 0.8})
        if links and rng.random() < 0.3:
            files[-1]['link'] = True
        if big in ('rep', 'rep16') and lines and not dep and 'rep' not in files[0]:
            # counts beyond one and two bytes
            files[-1]['rep'] = (700 if big == 'rep' else 66000) // sum(ln['k'] == 'w' for ln in lines) + 1 \
                if any(ln['k'] == 'w' for ln in lines) else 1
        elif len(files) > 1 and rng.random() < 0.08:
            files[-1]['lines'] = [dict(ln) for ln in rng.choice(files[:-1])['lines']]     # the same text again
    if wide:                            # a line longer than any buffer
        ln = [ln for f in files for ln in f['lines'] if ln['k'] == 'w' and 'rep' not in f]
        if ln:
            rng.choice(ln)['v'][rng.choice(['word', 'lemma'])] = 'w' * rng.choice([5000, 9000, 70000])
    pad = rng.random() < 0.1            # white space around the lines
    return {'pad': pad, 'enc': enc, 'nl': rng.choice(['\n', '\n', '\r\n']) if lineends else '\n', 'cols': cols, 'delim': delim,
            'sep': list(sep), 'files': files}


def _dep_lines(rng, words, pos, sep, nsent, rels=RELS):
    lines = []
    for _ in range(nsent):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        shape = 'any'
        if rng.random() < 0.04:                # a long sentence: many matches, or large numbers
            shape, n = rng.choice([('star', 12), ('star', 24), ('deep', 40), ('deep', 130)])
        order = list(range(1, n + 1))
        rng.shuffle(order)
        head = {order[0]: 0}
        for i in range(1, n):
            head[order[i]] = order[rng.randrange(i) if shape == 'any' else max(0, i - rng.choice([1, 2, 3])) if shape == 'deep'
                                   else 0 if rng.random() < 0.9 else rng.randrange(i)]
        bad = rng.random()
        if bad < 0.08 and n > 1:
            a, b = rng.sample(range(1, n + 1), 2)
            head[a], head[b] = b, a            # a cycle
        elif bad < 0.14:
            head[rng.randrange(1, n + 1)] = 77  # a head that is not there
        elif bad < 0.2 and n > 1:
            head[rng.randrange(1, n + 1)] = 0   # maybe two roots
        elif bad < 0.22:
            k = rng.randrange(1, n + 1)
            head[k] = k                        # its own head
        num = {i: i for i in range(1, n + 1)}
        if rng.random() < 0.12:                # numbers with gaps, of another origin, in another order
            k = rng.choice([1, 1, 3, 100])
            num = dict(zip(num, rng.choice([sorted, lambda x: rng.sample(x, len(x))])([i * k + rng.choice([0, 10, 10 ** 9]) for i in num])))
            if len(set(num.values())) < n:
                num = {i: i + 7 for i in num}
        for i in range(1, n + 1):
            if rng.random() < 0.05:
                lines.append({'k': 'j', 't': rng.choice(['<p>', '<p>', ''] if sep[0] else ['<p>'])})
            h = num.get(head[i], head[i])
            lines.append({'k': 'w', 'x': False, 'v': {
                'word': rng.choice(words), 'pos': rng.choice(pos), 'lemma': rng.choice(words), 'id': str(num[i]),
                'head': str(h), 'deprel': 'ROOT' if h == 0 and rng.random() < 0.9 else rng.choice(rels)}})
        if rng.random() < 0.95:
            lines.append({'k': 's'})
            if rng.random() < 0.06:
                lines.append({'k': 's'})       # an empty sentence
        else:
            break
    return lines


def lines_of(f):
    return f['lines'] * f.get('rep', 1)


def settings(c, fmt, root, lspan=2, rspan=2):
    d = c['delim']
    cell = '([^%s]+)' % ('\\t' if d == '\t' else ' ')
    sepd = '\\t' if d == '\t' else ' '
    if fmt.get('slash'):
        root += '/'
    s = {
        'line-machine': sepd.join([cell] * len(c['cols'])),
        'global-columns': ','.join(c['cols']),
        'type': fmt['type'], 'colloc': fmt['colloc'], 'token': fmt['token'],
        'file-encoding': c['enc'], 'outfile-encoding': 'utf-8',
        'boundary-detection-mechanism': 'single',
        'separator-line-machine': c['sep'][1], 'single-boundary-machine': c['sep'][1],
        'left-span': lspan, 'right-span': rspan,
        'corpus-path': root,
    }
    if fmt['colloc'] == fmt['type'] and fmt.get('nocolloc'):
        del s['colloc']             # the type format is the default
    if fmt.get('noenc'):
        del s['outfile-encoding']
        if c['enc'] == 'utf-8':
            del s['file-encoding']
    if fmt.get('linefmt'):
        s['line-format'] = s.pop('global-columns')
    if 'deprel' in c['cols']:
        s['node-attr'] = 'word,pos,lemma'
        s['edge-attr'] = 'deprel'
        if fmt.get('idcols'):       # the columns have other names
            s['currID'], s['headID'] = fmt['idcols']
            key = 'line-format' if 'line-format' in s else 'global-columns'
            s[key] = ','.join({'id': fmt['idcols'][0], 'head': fmt['idcols'][1]}.get(x, x) for x in s[key].split(','))
    return s


def render(c, f):
    out = []
    for ln in lines_of(f):
        if ln['k'] == 's':
            out.append(c['sep'][0])
        elif ln['k'] == 'j':
            out.append(ln['t'])
        else:
            vals = [ln['v'][k] for k in c['cols']]
            if ln.get('x'):
                vals.append('more')
            out.append(c['delim'].join(vals))
    if c.get('pad'):
        out = [['', ' ', '', '\t', '', '  '][(7 * i + len(x)) % 6] + x + ['', '  ', '\t', '', ' ', ''][(i + len(x)) % 6] for i, x in enumerate(out)]
    t = c['nl'].join(out)
    if out and f.get('fin', True):
        t += c['nl']
    return t.encode(c['enc'])


def write(c, root, real=True):
    R = seams.REAL
    for f in c['files']:
        p = root + '/' + f['path']
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.get('link') and not os.path.islink(p):     # the text itself is elsewhere
            q = root + '.texts/' + str(c['files'].index(f))
            os.makedirs(root + '.texts', exist_ok=True)
            if os.path.exists(p):
                os.remove(p)
            R.symlink(q, p)
        with R.open(p, 'wb') as h:
            h.write(render(c, f))
    os.makedirs(root, exist_ok=True)


def fmts(rng):
    t = rng.choice(['lemma/pos', 'lemma/pos', 'lemma', 'word/pos', 'word'])
    if rng.random() < 0.08:
        t = rng.choice(['pos/lemma', 'word/lemma/pos', 'pos', 'lemma/word', 'lemma/lemma'])
    return {'type': t, 'colloc': rng.choice([t, t, 'lemma', 'word/pos', 'lemma/pos']),
            'token': rng.choice([t, 'word/pos', 'lemma', 'lemma/pos']) + '/fid/lid',
            'linefmt': rng.random() < 0.3, 'nocolloc': rng.random() < 0.4, 'slash': rng.random() < 0.15,
            'noenc': rng.random() < 0.3}


def item(v, fmt):
    return '/'.join(v[k] for k in fmt.split('/'))


def articles(f):
    """[[(line number, columns), ...], ...] of one file."""
    arts, cur = [], []
    for i, ln in enumerate(lines_of(f)):
        if ln['k'] == 's':
            arts.append(cur)
            cur = []
        elif ln['k'] == 'w':
            cur.append((i + 1, ln['v']))
    arts.append(cur)
    return [a for a in arts if a]


# ------------------------------------------------------------------ references
def ref_items(c, fmt, idx):
    out = {}
    for i in idx:
        for ln in lines_of(c['files'][i]):
            if ln['k'] == 'w':
                k = item(ln['v'], fmt['type'])
                out[k] = out.get(k, 0) + 1
    return out


def ref_colloc(c, fmt, idx, lspan, rspan, rows, cols):
    rows = set(rows)
    cset = set(cols) if cols else None
    out = {}
    for i in idx:
        for art in articles(c['files'][i]):
            for p, (_, v) in enumerate(art):
                t = item(v, fmt['type'])
                if t not in rows:
                    continue
                for q in list(range(max(0, p - lspan), p)) + list(range(p + 1, min(len(art), p + rspan + 1))):
                    k = item(art[q][1], fmt['colloc'])
                    if cset is None or k in cset:
                        out[(t, k)] = out.get((t, k), 0) + 1
    return out


def ref_tokens(c, fmt, idx, lspan, rspan, queries, cols):
    """token string -> (type, left contexts, right contexts, {context: allowed offsets})"""
    qs = set(queries)
    cset = set(cols) if cols else None
    out = {}
    for i in idx:
        f = c['files'][i]
        for art in articles(f):
            for p, (lid, v) in enumerate(art):
                t = item(v, fmt['type'])
                if t not in qs:
                    continue
                tok = '/'.join([v[k] for k in fmt['token'].split('/')[:-2]] + [stem(f['path']), str(lid)])
                left = [(q - p, item(art[q][1], fmt['colloc'])) for q in range(max(0, p - lspan), p)]
                right = [(q - p, item(art[q][1], fmt['colloc'])) for q in range(p + 1, min(len(art), p + rspan + 1))]
                if cset is not None:
                    left = [x for x in left if x[1] in cset]
                    right = [x for x in right if x[1] in cset]
                offs = {}
                for n, (o, k) in enumerate(left):
                    offs.setdefault(k, set()).update([o, n - len(left)])
                for n, (o, k) in enumerate(right):
                    offs.setdefault(k, set()).update([o, n + 1])
                assert tok not in out
                out[tok] = (t, [k for _, k in left], [k for _, k in right], offs)
    return out


def all_types(c, fmt, key='type'):
    return sorted({item(ln['v'], fmt[key]) for f in c['files'] for ln in f['lines'] if ln['k'] == 'w'})


# ------------------------------------------------------------------ dependency patterns
NODE_RX = {'lemma': ['(.+)', '(.+)', '(.+)', '.+', '([a-z]+)', '(kat|mat|hond|en)$', '(.)(.*)', '(kat)', '(at|de|en)', '([a-z]+)$', 'de|op'],
           'pos': ['(\\w+)', '(\\w+)', '(noun|N)$', '(n|v)\\w*', '(verb)', '(\\w)(\\w*)']}
DEFAULTS = {'lemma': '(.+)', 'pos': '(\\w+)'}
EDGE_RX = ['(\\w+)', '\\w+', '(nsubj|obj)$', '(.*obj)', '(amod|det|prep)$', '(ROOT|nsubj)', 'nsubj', '(obj)', '(nsubj|obj|det)', 'det', 'obj$']


def gen_patterns(rng):
    pats = []
    loose = rng.random() < 0.75            # most patterns should match something
    for pid in range(1, rng.choice([1, 2, 3]) + 1):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        nodes = {1: None}
        edges = []
        for v in range(2, n + 1):
            nodes[v] = None
            edges.append([rng.randrange(1, v), v, rng.choice(EDGE_RX[:2] if loose and rng.random() < 0.8 else EDGE_RX)])
        for v in nodes:
            nodes[v] = {a: rng.choice(NODE_RX[a][:2] if loose and rng.random() < 0.8 else NODE_RX[a])
                        for a in ('lemma', 'pos')}
        pats.append({'id': pid, 'nodes': [[v, nodes[v]] for v in sorted(nodes)], 'edges': edges})
    macros = []
    for mid in range(1, rng.choice([1, 2, 3, 4]) + 1):
        p = rng.choice(pats)
        ids = [v for v, _ in p['nodes']]
        t = rng.choice(ids)
        full = rng.random() < 0.6
        f = -1 if full else rng.choice([v for v in ids if v != t])
        if full:
            # representation ties between siblings must not hide which one is which
            kids = {}
            for u, v, rx in p['edges']:
                kids.setdefault(u, []).append(v)
            if any(len(k) > 1 and any(v == t or v in kids for v in k) for k in kids.values()):
                f = rng.choice([v for v in ids if v != t])
        macros.append({'id': mid, 'pattern': p['id'], 'target': t, 'feature': f})
    return pats, macros


def gen_labels(rng, free):
    """How targets and features are labelled: attributes and the groups of their patterns."""
    def one():
        return [[a, rng.choice([1, 1, 1, 2])] for a in rng.choice([['lemma', 'pos'], ['lemma'], ['pos'], ['pos', 'lemma']])]
    plain = [['lemma', 1], ['pos', 1]]
    return {'target': one() if free and rng.random() < 0.4 else plain, 'feature': one() if rng.random() < 0.3 else plain}


def regex_strings(p):
    """The pattern in the notation of regular expressions."""
    return ({v: '/'.join('(?P<%s>' % a + x[a][1:] if x[a][0] == '(' else '?P<%s>' % a + x[a] for a in ('lemma', 'pos')) for v, x in p['nodes']},
            {(u, v): '(?P<deprel>' + r[1:] if r[0] == '(' else '?P<deprel>' + r for u, v, r in p['edges']})


def graphml(pats, omit=False):
    from xml.sax.saxutils import escape
    out = ['<graphml xmlns="http://graphml.graphdrawing.org/xmlns">',
           '<key id="n1" for="node" attr.name="lemma" attr.type="string"><default>(.+)</default></key>',
           '<key id="n2" for="node" attr.name="pos" attr.type="string"><default>(\\w+)</default></key>',
           '<key id="e1" for="edge" attr.name="deprel" attr.type="string"/>']
    for p in pats:
        out.append('<graph id="%d" edgedefault="directed">' % p['id'])
        for v, a in p['nodes']:
            out.append('<node id="%d">' % v)
            for k, key in (('lemma', 'n1'), ('pos', 'n2')):
                if omit and a[k] == DEFAULTS[k]:
                    continue
                out.append('<data key="%s">%s</data>' % (key, escape(a[k])))
            out.append('</node>')
        for u, v, rx in p['edges']:
            out.append('<edge source="%d" target="%d"><data key="e1">%s</data></edge>' % (u, v, escape(rx)))
        out.append('</graph>')
    out.append('</graphml>')
    return '\n'.join(out) + '\n'


def macroxml(macros, token=False, labels=None):
    labels = labels or {'target': [['lemma', 1], ['pos', 1]], 'feature': [['lemma', 1], ['pos', 1]]}

    def show(at):
        return ''.join('<%s group="%d"/>' % (a, g) for a, g in at), '/'.join(a for a, _ in at)
    tg, tstr = show(labels['target'] + ([['fid', 1], ['lid', 1]] if token else []))
    groups, fstr = show(labels['feature'])
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<target-feature-list>',
           '<target-fmt><node-fmt>%s<string connector="/">%s</string></node-fmt></target-fmt>' % (tg, tstr),
           '<feature-fmt><node-fmt>%s<string connector="/">%s</string></node-fmt>'
           '<edge-fmt>deprel</edge-fmt></feature-fmt>' % (groups, fstr)]
    for m in macros:
        out.append('<target-feature-macro id="%d"><sub-graph-pattern id="%d"/><target nodeID="%d">'
                   '<description>t</description></target>' % (m['id'], m['pattern'], m['target']))
        if m['feature'] == -1:
            out.append('<feature><description>f</description></feature>')
        else:
            out.append('<feature featureID="%d"><description>f</description></feature>' % m['feature'])
        out.append('</target-feature-macro>')
    out.append('</target-feature-list>')
    return '\n'.join(out) + '\n'


def ref_dep(c, idx, pats, macros, targets, mode, labels=None):
    """{(target, feature): count} by enumerating all injective maps."""
    import re
    labels = labels or {'target': [['lemma', 1], ['pos', 1]], 'feature': [['lemma', 1], ['pos', 1]]}
    pd = {p['id']: p for p in pats}
    out = {}
    for i in idx:
        f = c['files'][i]
        base = stem(f['path'])
        for art in articles(f):
            nodes, head, rel = {}, [], {}
            for lid, v in art:
                k = int(v['id'])
                h = int(v['head'])
                nodes[k] = dict(v, lid=str(lid), fid=base)
                head.append((h, k))
                rel[(h, k)] = v['deprel']
            allv = set(nodes) | {h for h, _ in head}
            es = set(head)
            # a tree: connected and one edge less than vertices
            comp, todo = set(), [next(iter(allv))]
            while todo:
                x = todo.pop()
                if x in comp:
                    continue
                comp.add(x)
                todo += [b for a, b in es if a == x] + [a for a, b in es if b == x]
            if comp != allv or len(es) != len(allv) - 1:
                continue
            kids = {}
            for h, k in es:
                kids.setdefault(h, []).append(k)
            for m in macros:
                p = pd[m['pattern']]
                rx = dict((v, a) for v, a in p['nodes'])
                order = [v for v, _ in p['nodes']]
                par = {v: (u, r) for u, v, r in p['edges']}

                def ok(v, s):
                    return s in nodes and all(re.match(rx[v][a], nodes[s][a]) for a in rx[v])

                def rec(k, mp):
                    if k == len(order):
                        yield dict(mp)
                        return
                    v = order[k]
                    if v == 1:
                        cand = list(nodes)
                    else:
                        u, r = par[v]
                        cand = [s for s in kids.get(mp[u], []) if re.match(r, rel[(mp[u], s)])]
                    for s in cand:
                        if s not in mp.values() and ok(v, s):
                            mp[v] = s
                            yield from rec(k + 1, mp)
                            del mp[v]
                for mp in rec(0, {}):
                    tn = nodes[mp[m['target']]]
                    if targets is not None and tn['lemma'] + '/' + tn['pos'] not in targets:
                        continue

                    def grp(r, s, n=1):
                        try:
                            g = re.match(r, s).group(n)
                        except IndexError:
                            g = '*'
                        return g

                    def label(v, fmt='feature'):
                        return '/'.join(grp(rx[v][a], nodes[mp[v]][a], n) for a, n in labels[fmt])
                    tgt = label(m['target'], 'target')
                    if mode == 'token':
                        tgt += '/' + tn['fid'] + '/' + tn['lid']
                    if m['feature'] != -1:
                        feat = label(m['feature'])
                    else:
                        ch = {}
                        for u, v, r in p['edges']:
                            ch.setdefault(u, []).append(v)

                        def show(v):
                            parts = []
                            for w in ch.get(v, []):
                                e = grp(par[w][1], rel[(mp[v], mp[w])])
                                key = e + ':' + label(w)
                                parts.append((key, (e + ':#T#' if w == m['target'] else key) + show(w)))
                            parts.sort(key=lambda x: x[0])
                            if not parts:
                                return ''
                            if len(parts) == 1:
                                return '->' + parts[0][1]
                            return '->[' + ','.join(x[1] for x in parts) + ']'
                        feat = ('#T#' if m['target'] == 1 else label(1)) + show(1)
                    out[(tgt, feat)] = out.get((tgt, feat), 0) + 1
    return out

"""Settings, lists of files, queries and templates are read completely or not at all; sessions start side by side."""
import copy
import importlib
import os
import random

from sim import builds, corpus, faults, seams

ID = 'C15'

OPTS = ['line-machine', 'type', 'colloc', 'corpus-path', 'left-MWUspan', 'Extra', 'token', 'x.y', 'file-encoding', 'UPPER', 'upper', 'é']
VALUES = ['([^\\t]+)\\t([^\\t]+)', 'word/pos', '/data/my corpus', '', '<artikel naam  =  "([^"]+)"   >   $', 'a = b', 'x: y', 'utf-8', '10', '-1', 'waarde',
          'é猫', '[x]', '"word/pos"', "'s", 'say "x"', '/path', '\\t+', 'a,b', '${x}', 'a ; b', 'a # b', '%%', 'w' * 300]
SECTS = ['Encoding', 'Data', 'Corpus-Format', 'My own', 'span', 'Span', 'Span']
WORDS = ['appel/noun', 'kat', 'het/det', 'a b', 'été/noun', 'x-y/z', '猫/n', '"q"', 'x.txt', '#no', '; x', '_DEFAULT_']
FILES = ['a.txt', 'b c.txt', 'sub/a.txt', '/abs/x.txt', 'é.txt', 'dir.x/f', '-', 'x#y', 'a.fnames']
LEMMAS = [('(?P<LEMMA>\\w+)', '(\\w+)'), ('?P<LEMMA>\\w+', '\\w+'), ('?P<LEMMA>by', 'by'),
          ('(?P<LEMMA>#\\w+)', '(#\\w+)'), ('?P<LEMMA>NA', 'NA'), ('?P<LEMMA>null', 'null'), ("?P<LEMMA>'s", "'s")]
POSES = [('(?P<POS>N)\\w*', '(N)\\w*'), ('(?P<POS>V)\\w*', '(V)\\w*'), ('?P<POS>IN', 'IN'), ('(?P<POS>\\w+)', '(\\w+)')]
RELS = [('(?P<DEPREL>nsubj)$', '(nsubj)$'), ('(?P<DEPREL>prep)', '(prep)'), ('?P<DEPREL>pobj', 'pobj')]


def gen_row(rng):
    """A pattern: the target, relations up from it, and relations down from there."""
    def step():
        return [rng.randrange(len(RELS)), rng.randrange(len(LEMMAS)), rng.randrange(len(POSES))]
    up = [step() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    how = rng.choice(['none', 'list', 'chain'] if up else ['list', 'chain'])
    return {'target': step()[1:], 'up': up, 'how': how, 'down': [step() for _ in range(rng.choice([1, 2, 3]))] if how != 'none' else []}


def render_row(r):
    def node(x):
        return LEMMAS[x[-2]][0] + '/' + POSES[x[-1]][0]

    def step(x):
        return RELS[x[0]][0] + ' ' + node(x)
    t = ''.join('<-' + step(x) for x in r['up'])
    if r['how'] == 'list':
        t += '->[' + ','.join(step(x) for x in r['down']) + ']'
    elif r['how'] == 'chain':
        t += ''.join('->[' + step(x) for x in r['down']) + ']' * len(r['down'])
    return node(r['target']), t


def ref_row(r):
    """(text, nodes, edges) of the pattern."""
    def node(x):
        return (('LEMMA', LEMMAS[x[-2]][1]), ('POS', POSES[x[-1]][1]))
    nodes, edges = [(1, node(r['target']))], []
    for n, x in enumerate(r['up'] + r['down'], 2):
        nodes.append((n, node(x)))
        top = len(r['up']) + 1
        edges.append((n, n - 1, RELS[x[0]][1]) if n <= top else (n - 1 if r['how'] == 'chain' else top, n, RELS[x[0]][1]))
    return [render_row(r)[1], nodes, sorted(edges)]


def gen_config(rng):
    out = []
    for s in rng.sample(SECTS[:-1], rng.choice([0, 1, 2, 3])):
        opts = []
        for o in rng.sample(OPTS, rng.choice([0, 1, 2, 4])) + (['left-span', 'right-span'] if s == 'Span' or rng.random() < 0.1 else []):
            if s == 'Span':
                v = rng.choice(['0', '5', '10', '-3', '007'])
                if rng.random() < 0.05:
                    v = rng.choice(['five', '2.5', '2.0', '', '1e1', '--', 'None', '5 words', '3,'])
            else:
                v = rng.choice(VALUES)
                if v and rng.random() < 0.06:
                    v += rng.choice(['\nsecond line', '\n/second/line', '\n\nthird line'])
            opts.append([o, v, rng.choice(['=', ' = ', ': ', ' =  ', '  :'])])
        if opts and rng.random() < 0.03:        # the same option twice
            opts.append([rng.choice(opts)[0], '11', '='])
        out.append([s, opts])
    return out


def render_config(c, rng):
    out = []
    for s, opts in c:
        if rng.random() < 0.3:
            out.append(rng.choice(['# comment', '; x = y', '', '#']))
        out.append('[%s]' % s)
        for o, v, sep in opts:
            if rng.random() < 0.2:
                out.append(rng.choice(['# type = nothing', '', '; no']))
            out.append(o + sep + v.replace('\n', '\n    '))
    return '\n'.join(out) + rng.choice(['', '\n', '\n\n'])


def ref_config(c):
    """The settings of a configuration, None when a span is not a number or an option is there twice."""
    out = {}
    for s, opts in c:
        if len({o for o, _, _ in opts}) < len(opts):
            return None
        for o, v, _ in opts:
            v = v.strip().replace('%%', '%')
            if s == 'Span':
                try:
                    v = int(v)
                except ValueError:
                    return None
            out[o] = v
    return out


def gen_lines(rng, pool, many):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 6] + ([400] if many else []))):
        w = rng.choice(pool)
        if many and rng.random() < 0.5:
            w += str(rng.randrange(1000))
        out.append([rng.choice(['', '', '', ' ', '\t']) + w + rng.choice(['', '', ' ', '\r']), 'x'])
        if rng.random() < 0.2:
            out.append([rng.choice(['', '#', '# comment', '   ', '\t', ' # x']), ''])
    return out


def gen_bad(rng, kinds):
    return rng.choice(kinds) if kinds and rng.random() < 0.06 else None


def spoil(text, f, rng):
    """The bytes of a list that cannot be read."""
    enc = f['enc']
    if f.get('bad') == 'byte':
        b = text.encode(enc, 'replace').split(b'\n')
        b[rng.randrange(len(b))] += rng.choice([b'\xff', b'\xc3', b'x\xe9y'])
        return b'\n'.join(b)
    if f.get('bad') == 'cut':
        return (text + '\nkat\u00e9').encode(enc, 'replace')[:-1]
    return text.encode(enc, 'replace')


def spoil_templates(g, m, f, rng):
    bad = f['bad']
    n = rng.randrange(9)

    def sub(t, a, b):
        parts = t.split(a)
        k = 1 + n % (len(parts) - 1)
        return a.join(parts[:k]) + b + a.join(parts[k:])
    if bad == 'pattern':
        m = sub(m, '<sub-graph-pattern id="', '<sub-graph-pattern id="7')
    elif bad == 'notarget':
        m = sub(m, '<target nodeID=', '<goal nodeID=').replace('</target>', '</goal>')
        m = m.replace('<target nodeID=', '<goal nodeID=')
    elif bad == 'target':
        m = sub(m, '<target nodeID="', '<target nodeID="x')
    elif bad == 'macro':
        m = sub(m, '<target-feature-macro id="', '<target-feature-macro id="m')
    elif bad == 'node':
        g = sub(g, '<node id="', '<node id="n')
    elif bad == 'graph':
        g = sub(g, '<graph id="', '<graph id="g')
    elif bad == 'tag':
        g = sub(g, '</node>', '</nod>')
    elif bad == 'end':
        g = g[:g.index('</graphml>')]
    return g, m


def gen_query(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(WORDS)
    fields = []
    for _ in range(rng.choice([2, 2, 3])):
        fields.append(rng.choice(['LeNC', 'TwNC', 'a b', '_DEFAULT_', 'é']) + rng.choice([':', ':', ' : ']) + rng.choice(WORDS))
    return '\t'.join(fields)


def gen_file(rng, kind, many):
    f = {'kind': kind, 'seed': rng.randrange(10 ** 6), 'enc': rng.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1'])}
    if kind == 'config':
        f['c'] = gen_config(rng)
        f['bad'] = gen_bad(rng, ['byte', 'cut', 'bare', 'bare', 'headless', 'twin'])
    elif kind == 'fnames':
        f['lines'] = gen_lines(rng, FILES, many)
        f['ext'] = rng.random() < 0.5
        f['bad'] = gen_bad(rng, ['byte', 'cut'] if f['enc'] == 'utf-8' else ['cut'] if f['enc'] == 'utf-16' else [])
    elif kind == 'queries':
        f['lines'] = gen_lines(rng, [gen_query(rng) for _ in range(4)], many)
        f['key'] = rng.choice([None, None, 'std', 'LeNC'])
        f['bad'] = gen_bad(rng, ['byte', 'cut'] if f['enc'] == 'utf-8' else ['cut'] if f['enc'] == 'utf-16' else [])
    elif kind == 'templates':
        f['pats'], f['macros'] = corpus.gen_patterns(rng)
        f['layout'] = rng.choice(['lines', 'one', 'indent', 'close', 'comments', 'crlf'])
        f['defaults'] = rng.random() < 0.5
        f['bad'] = gen_bad(rng, ['pattern', 'notarget', 'target', 'macro', 'node', 'graph', 'tag', 'end'])
        if f['layout'] == 'comments' and f['bad'] == 'graph':       # there are such in the comments
            f['bad'] = 'node'
    elif kind == 'tsv':
        f['rows'] = [gen_row(rng) for _ in range(rng.choice([0, 1, 2, 5, 30]))]
        if f['rows'] and rng.random() < 0.15:
            f['rows'].append(rng.choice(f['rows']))
        f['bad'] = gen_bad(rng, ['drop', 'extra'])
    elif kind == 'tree':
        f['paths'] = sorted({rng.choice(['', 's/', 's/t/', 'é/']) + rng.choice(['a', 'b.txt', '.x', 'c d', 'b.txt~', 'c.tmp', 'd.fnames', 'e.bak', '#f#', 'g.gz', 'H', '__pycache__', '[x]']) for _ in range(rng.choice([0, 1, 3, 6]))})
    return f


def variant(rng, f, g):
    """Another content that takes the same number of bytes (mostly)."""
    if f['kind'] in ('fnames', 'queries'):
        return dict(f, lines=f['lines'][::-1])
    if f['kind'] == 'config':
        return dict(f, c=[[s, [[o, v if s == 'Span' else v[::-1] if v.isalnum() else v, x] for o, v, x in opts]] for s, opts in f['c']])
    return dict(f, macros=f['macros'][::-1])


def gen(rng, tier):
    files = {}
    many = rng.random() < 0.25
    for n in range(rng.choice([1, 2, 3])):
        kind = rng.choice(['config', 'config', 'fnames', 'fnames', 'queries', 'queries', 'templates', 'templates', 'tsv', 'tree'])
        f = gen_file(rng, kind, many)
        if rng.random() < 0.5:      # what somebody makes of it later on
            g = gen_file(rng, kind, False)
            if kind in ('fnames', 'queries', 'templates', 'config') and rng.random() < 0.7:
                g = variant(rng, f, g)
            if kind == 'tree':
                g = dict(f, paths=sorted(f['paths'] + ['zz.new']))
            if g['enc'] != f['enc'] and kind in ('fnames', 'queries'):
                g['bad'] = None
            f['alt'] = dict(g, **{k: f[k] for k in ('enc', 'ext', 'key') if k in f})
        files['f%d%s' % (n, rng.choice(['', '.x', 'é']))] = f
    names = sorted(files)
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = [{'op': 'start'}] if rng.random() < 0.5 else []
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.07:
                ops.append({'op': 'missing', 'what': rng.choice(['config', 'loader', 'fnames', 'templates', 'tsv', 'tree'])})
            else:
                ops.append({'op': 'read', 'name': rng.choice(names), 'how': rng.choice(['update', 'loader', 'update'])})
        sessions.append(ops)
    if len(sessions) == 1:
        for n in names:
            if 'alt' in files[n]:
                sessions[0] += [{'op': 'read', 'name': n, 'how': 'update'}] * rng.choice([0, 1])
                sessions[0] += [{'op': 'edit', 'name': n}, {'op': 'read', 'name': n, 'how': rng.choice(['update', 'loader'])}]
    p = builds.sched_params(rng)
    return {'files': files, 'sessions': sessions, 'home': rng.random() < 0.5, 'nfaults': rng.choice([0, 0, 1, 1, 2]),
            'params': {k: p[k] for k in ('bufsize', 'tick', 'clock', 'mtime_gran', 'pid_mode', 'p_switch', 'weights', 'listing')}}


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with seams.REAL.open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8'))


def layout(xml, how, rng):
    if how == 'one':
        return ''.join(xml.split('\n'))
    if how == 'indent':
        return '\n'.join(' ' * (i and rng.randrange(9)) + x for i, x in enumerate(xml.split('\n')))
    if how == 'close':                  # closing tags behind the last child
        return xml.replace('\n</', '</')
    if how == 'comments':
        return xml.replace('\n<', '<!-- <graph id="9"> -->\n<')
    if how == 'crlf':
        return xml.replace('\n', '\r\n')
    return xml


def lines_of(f):
    out = []
    for ln, keep in f['lines']:
        w = ln.encode(f['enc'], 'replace').decode(f['enc']).strip()
        if keep and w and not w.startswith('#'):
            out.append(w)
    return out


def prepare(ctx, scn):
    for n, f in scn['files'].items():
        write(ctx, n, f, put)


def later(path, text):
    """The surroundings change a file while programs run."""
    seams.put(path, text if isinstance(text, bytes) else text.encode('utf-8'))


def write(ctx, n, f, put):
    rng = random.Random(f['seed'])
    p = ctx.path('in', n)
    if f['kind'] == 'config':
        t = render_config(f['c'], rng)
        if f.get('bad') in ('byte', 'cut'):
            t = spoil(t, dict(f, enc='utf-8'), rng)
        elif f.get('bad') == 'headless':
            t = 'type = lemma/pos\n' + t
        elif f.get('bad') == 'bare':            # an option without a value
            t = t.split('\n')
            t.insert(rng.randrange(len(t) + 1), rng.choice(['type', 'left-span', 'one two']))
            t = '\n'.join(t)
        elif f.get('bad') == 'twin':
            t += '\n[A]\nx = 1\n[A]\ny = 2\n'
        put(p + '.ini', t)
    elif f['kind'] in ('fnames', 'queries'):
        put(p + '.fnames', spoil('\n'.join(x for x, _ in f['lines']) + rng.choice(['', '\n']), f, rng))
    elif f['kind'] == 'templates':
        g = corpus.graphml(f['pats'])
        if f['defaults']:           # as in the file's head
            g = g.replace('<data key="n1">(.+)</data>\n', '').replace('<data key="n2">(\\w+)</data>\n', '')
        g, m = layout(g, f['layout'], rng), layout(corpus.macroxml(f['macros']), f['layout'], rng)
        if f.get('bad'):
            g, m = spoil_templates(g, m, f, rng)
        put(p + '.graphml', g)
        put(p + '.xml', m)
    elif f['kind'] == 'tsv':
        rows = ['%d\t%s\t%s' % ((i,) + render_row(r)) for i, r in enumerate(f['rows'])]
        if spoilt(f):
            i = rng.randrange(1, len(rows)) if f['bad'] == 'extra' else rng.randrange(len(rows))
            rows[i] = rows[i] + '\tmore' if f['bad'] == 'extra' else rows[i].rpartition('\t')[0]
        put(p + '.tsv', 'ID\tTarget Regex\tFeature Regex\n' + ''.join(r + '\n' for r in rows))
    else:
        if put is not later:
            os.makedirs(p + '.tree')
        for x in f['paths'] if put is not later else ['zz.new']:
            put(p + '.tree/' + x, '' if rng.random() < 0.2 else 'x')


def spoilt(f):
    return f.get('bad') and (f['kind'] != 'tsv' or len(f['rows']) > (f['bad'] == 'extra'))


def expected(n, f, op, defaults, tree):
    k = f['kind']
    if spoilt(f):
        return None
    if k == 'config':
        c = ref_config(f['c'])
        return None if c is None else dict(defaults, **c) if op['how'] == 'update' else c
    if k == 'fnames':
        return [w if '/' in w else '/corpus/' + w for w in lines_of(f)]
    if k == 'queries':
        key = f['key'] or '_DEFAULT_'
        out = []
        for w in lines_of(f):
            if '\t' not in w:
                out.append(w)
                continue
            d = {key: None}
            for fld in w.split('\t'):
                e = [x.strip() for x in fld.split(':')]
                if len(e) == 2:
                    d[e[0]] = e[1]
                    if d[key] is None:
                        d[key] = e[1]
            out.append(d)
        return out
    if k == 'templates':
        return ([[p['id'], sorted((v, tuple(sorted(a.items()))) for v, a in p['nodes']), sorted((u, v, r) for u, v, r in p['edges'])] for p in f['pats']],
                [[m['id'], m['pattern'], m['target'], m['feature']] for m in f['macros']])
    if k == 'tsv':
        return [ref_row(r) for r in f['rows']]
    return sorted(tree + '/' + x for x in f['paths'])


def read(ctx, n, f, op, conf):
    from nephosem import utils
    from nephosem.conf import ConfigLoader
    from nephosem.core.graph import MacroGraph, PatternGraph
    p, k = ctx.path('in', n), f['kind']
    if k == 'config':
        return conf.update_config(p + '.ini') if op['how'] == 'update' else ConfigLoader(p + '.ini').settings
    if k == 'fnames':
        return utils.read_fnames(p + ('.fnames' if f['ext'] or '.' in os.path.basename(p) else ''), '/corpus', encoding=f['enc'])
    if k == 'queries':
        return utils.read_word_queries(p + '.fnames', encoding=f['enc'], **({'wquery_default_key': f['key']} if f['key'] else {}))
    if k == 'templates':
        pats = PatternGraph.read_graphml(p + '.graphml')
        shown = [[x.id, sorted((v, tuple(sorted(a.items()))) for v, a in x.graph.nodes(data=True)),
                  sorted((u, v, d['deprel']) for u, v, d in x.graph.edges(data=True))] for x in pats]
        macros = MacroGraph.read_xml(p + '.xml', pats)
        ids = {id(x.graph): x.id for x in pats}
        pics = {x.id: s for x, s in zip(pats, shown)}
        out = []
        for m, ref in zip(macros, f['macros']):
            pic = [ref['pattern'], sorted((v, tuple(sorted(a.items()))) for v, a in m.graph.nodes(data=True)),
                   sorted((u, v, d['deprel']) for u, v, d in m.graph.edges(data=True))]
            out.append([m.id, ref['pattern'] if pic == pics.get(ref['pattern']) else 'another pattern', m.target_idx, m.feature_idx])
        if len(macros) != len(f['macros']):
            out.append(len(macros))
        return shown, out
    if k == 'tsv':
        return [[t.repr_, sorted((v, tuple(sorted(a.items()))) for v, a in t.graph.nodes(data=True)),
                 sorted((u, v, d['DEPREL']) for u, v, d in t.graph.edges(data=True))] for t in PatternGraph.read_csv(p + '.tsv')]
    return sorted(utils.read_fnames_of_corpus(p + '.tree'))


def session(ctx, scn, i, defaults):
    def f():
        import logging
        from nephosem import utils
        nlog = importlib.import_module('nephosem.logging')
        from nephosem.conf import ConfigLoader
        from nephosem.core.graph import MacroGraph, PatternGraph
        conf = None
        files = dict(scn['files'])
        for op in scn['sessions'][i]:
            if op['op'] == 'edit':
                files[op['name']] = scn['files'][op['name']]['alt']
                write(ctx, op['name'], files[op['name']], later)
                continue
            n0, what, got, err = seams.fired_total(), op['op'], None, None
            try:
                if what == 'start':
                    nlog.init_logging()
                else:
                    if conf is None:
                        conf = ConfigLoader()
                    if what == 'missing':
                        p = ctx.path('in', 'none')
                        w = op['what']
                        got = (conf.update_config(p) if w == 'config' else ConfigLoader(p).settings if w == 'loader' else
                               utils.read_fnames(p, '/c') if w == 'fnames' else PatternGraph.read_graphml(p) if w == 'templates' else
                               PatternGraph.read_csv(p) if w == 'tsv' else utils.read_fnames_of_corpus(p))
                    else:
                        got = read(ctx, op['name'], files[op['name']], op, conf)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            hit = seams.fired_total() > n0
            desc = what if what != 'read' else files[op['name']]['kind']
            if what == 'missing':
                if err is None:
                    return 'silent', 'reading a %s that does not exist returned %.200r' % (op['what'], got)
                continue
            if what == 'start':
                if err is not None and not hit:
                    return 'exception', 'starting raised %s: %s' % (type(err).__name__, err)
                continue
            fl = files[op['name']]
            exp = expected(op['name'], fl, op, defaults, ctx.path('in', op['name']) + '.tree')
            if exp is None:
                if err is None:
                    return 'silent', '%s was read as %.200r' % (
                        'a span that is no number, or an option given twice,' if desc == 'config' and not fl.get('bad') else 'damaged %s (%s)' % (desc, fl['bad']), got)
                ctx.probe('refused')
                continue
            if err is not None:
                if not hit:
                    return 'exception', 'reading %s raised %s: %s' % (desc, type(err).__name__, err)
                ctx.probe('raised')
                continue
            if got != exp:
                return ('partial-result' if hit else 'wrong-result'), 'reading %s gave %.300r, expected %.300r' % (desc, got, exp)
            ctx.probe('read-' + desc)
            if fl['kind'] == 'config' and op['how'] == 'update':
                got['left-span'] = 'changed'
                got.pop('type', None)
            if conf.settings != defaults:
                return 'defaults-changed', 'the default settings changed: %s' % builds.diff(defaults, conf.settings)
        return None
    return f


def run(scn, ctx):
    import logging
    from nephosem.conf import ConfigLoader
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)
    lg = logging.getLogger('nephosem')

    def go(name, params, fl=()):
        prepare(ctx, scn)
        if not scn['home']:
            os.rmdir(ctx.home + '/tmp') if os.path.isdir(ctx.home + '/tmp') else None
        defaults = ConfigLoader().settings
        keep = list(lg.handlers), lg.level
        try:
            s = ctx.sim([('s%d' % i, session(ctx, scn, i, copy.deepcopy(defaults))) for i in range(len(scn['sessions']))],
                        params, faults=fl, name=name)
        finally:
            for h in lg.handlers:
                if h not in keep[0]:
                    h.close()
            lg.handlers, level = list(keep[0]), keep[1]
            lg.setLevel(level)
        ctx.hang(s, 'reading')
        for t in s.tasks:
            if t.error is not None:
                ctx.fail('exception', 'session died: %s: %s at %s' % t.error)
            if t.result is not None:
                ctx.fail(*t.result)
        if ConfigLoader().settings != defaults:
            ctx.fail('defaults-changed', 'the default settings changed: %s' % builds.diff(defaults, ConfigLoader().settings))
        return s
    s = go('rec', dict(params, keep_ops=True))
    if not scn['nfaults']:
        return
    ctx.reset()

    def fl():
        rng = random.Random('f-%s' % ctx.seed)
        out = []
        for _ in range(scn['nfaults']):
            what = rng.choice(['io', 'io', 'io', 'memerr', 'sigint', 'kill_session'])
            late = [o for o, q in zip(s.ops[1:], s.ops) if o[4] == q[4] == 'read' and o[3] == q[3]]
            o = rng.choice(late) if late and rng.random() < 0.25 else faults.by_class(rng, faults.io_ops(s.ops), key=lambda o: o[2:4] if rng.random() < 0.5 else o[2])
            if o is None:
                continue
            out.append(faults.io_error(rng, o) if what == 'io' else {'proc': o[0], 'n': o[1], 'kind': what})
        return out
    go('fault', params, fl)


def shrinks(scn):
    for i in range(len(scn['sessions'])):
        if len(scn['sessions']) > 1:
            x = copy.deepcopy(scn)
            del x['sessions'][i]
            yield x
        for j in range(len(scn['sessions'][i])):
            x = copy.deepcopy(scn)
            del x['sessions'][i][j]
            yield x
    for n, f in scn['files'].items():
        for key in ('c', 'lines', 'rows', 'paths'):
            for j in range(len(f.get(key, ())) if key != 'paths' or 'alt' not in f else 0):
                x = copy.deepcopy(scn)
                del x['files'][n][key][j]
                yield x
        if f['kind'] == 'config':
            for a, (_, opts) in enumerate(f['c']):
                for j in range(len(opts)):
                    x = copy.deepcopy(scn)
                    del x['files'][n]['c'][a][1][j]
                    yield x

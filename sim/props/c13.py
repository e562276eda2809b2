"""Random selections (tokens of a type, appearances of words, rows of a matrix) over states of the generator."""
import copy
import math
import random

from sim import mats

ID = 'C13'


def gen(rng, tier):
    what = rng.choice(['tokens', 'tokens', 'vocab', 'rows', 'rows'])
    scn = {'what': what, 'cover': rng.random() < 0.15, 'calls': []}
    if what == 'tokens':
        scn['size'] = size = rng.choice([0, 1, 2, 3, 5, 8, 20, 60, rng.choice([300, 1200])])
        scn['twins'] = rng.random() < 0.3      # tokens that look the same
    elif what == 'vocab':
        scn['freq'] = {w: rng.choice([0, 1, 2, 3, 7, 50, 301, 1000]) for w in rng.sample(['a', 'b/noun', 'é', 'de/det', 'x y'], rng.choice([1, 2, 3, 5]))}
        size = max(scn['freq'].values())
    else:
        scn['mat'] = mats.gen_mat(rng, 1, tier)
        if rng.random() < 0.4 and len(scn['mat']['rows']) == len(scn['mat']['cols']):       # distances
            c = scn['mat']
            c['kind'] = 'dense'
            c['cells'] = [x for i, j, v in c['cells'] if i <= j for x in ([i, j, v], [j, i, v])]
        size = len(scn['mat']['rows'])
    for _ in range(rng.choice([1, 2, 4] if tier == 'quick' else [2, 5, 9])):
        n = rng.choice([0, 1, 2, 3, size // 2, size - 1, size, size + 1, size + 40, 300])
        c = {'n': max(n, 0), 'state': rng.randrange(10 ** 9), 'method': rng.choice(['random', 'random', 'random', 'first'])}
        if what == 'vocab':
            c['words'] = [rng.choice(sorted(scn['freq']) + ['unknown']) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
        if what == 'rows':
            c['n'] = rng.choice([c['n'], 0.1, 0.34, 0.5, 0.99, 1])
            c['seed'] = rng.choice([None, None, 0, 7, 2 ** 31])
            c['replace'] = rng.random() < 0.25
        if what == 'tokens':
            c['then'] = rng.choice(['', '', 'append', 'nest', 'spoil'])
        scn['calls'].append(c)
    return scn


def seed(c):
    import numpy as np
    random.seed(c['state'])
    np.random.seed(c['state'] % 2 ** 32)


def states():
    import numpy as np
    return random.getstate(), np.random.get_state()


def back(st):
    import numpy as np
    random.setstate(st[0])
    np.random.set_state(st[1])


def draws(p):
    """How many draws leave a chance below 1e-15 of missing a member that is drawn with probability p."""
    return 1 if p >= 1 else int(math.ceil(-35.0 / math.log(1.0 - p)))


def cover(what, kind, members, k, draw):
    """Every member, and every combination of k members when there are few, comes up sooner or later."""
    members = set(members)
    size = len(members)
    k = min(k, size)
    if k <= 0:
        return
    seen, sets, ncomb = set(), set(), math.comb(size, k)
    if ncomb > 24:
        ncomb = 0
    for j in range(max(draws(k * 1.0 / size), draws(1.0 / ncomb) if ncomb else 1)):
        got = draw(j)
        seen.update(got)
        if ncomb:
            sets.add(frozenset(got))
        if len(seen) == size and (not ncomb or len(sets) == ncomb):
            break
    if members - seen:
        raise Bad('never', '%s never selects %s %s' % (what, kind, sorted(members - seen)[:3]))
    if ncomb and len(sets) < ncomb:
        raise Bad('never', '%s ever gives only %d of the %d selections, such as %s' % (what, len(sets), ncomb, sorted(map(sorted, sets))[:3]))


class Bad(Exception):
    pass


def check_set(what, got, pop, n):
    if len(set(got)) != len(got):
        raise Bad('repeated', '%s: %s repeats members' % (what, got))
    foreign = [x for x in got if x not in pop]
    if foreign:
        raise Bad('foreign', '%s: %s are no members' % (what, foreign[:3]))
    if len(got) != min(n, len(pop)):
        raise Bad('size', '%s: %d selected from %d' % (what, len(got), len(pop)))


# ------------------------------------------------------------------ tokens of a type
def token(i, twins):
    from nephosem.core.terms import TokenNode
    w = 'w' if twins else 'w%d' % (i % 3)
    t = TokenNode(token_fmt='word/pos/lemma/fid/lid', word=w, pos='noun', lemma='lem', fid='f' if twins else 'f%d' % (i // 4),
                  lid=1 if twins else i, lcollocs=['l%d' % i], rcollocs=['r'])
    t.mark = i
    return t


def tview(t):
    return (t.mark, t.word, t.pos, t.lemma, t.fid, t.lid, tuple(t.lcollocs), tuple(t.rcollocs))


def nview(node):
    return (str(node), node.format, [tview(t) for t in node.tokens])


def tokens(scn, probe, distinct):
    from nephosem.core.terms import TypeNode
    node = TypeNode(type_fmt='lemma/pos', type_str='lem/noun', tokens=[token(i, scn['twins']) for i in range(scn['size'])])
    for c in scn['calls']:
        what = 'sampling %d of %d tokens (%s)' % (c['n'], node.freq, c['method'])
        before = nview(node)
        every = {t.mark: tview(t) for t in node.tokens}
        seed(c)
        st = states()
        smp = node.sample(n=c['n'], method=c['method'])
        if nview(node) != before:
            raise Bad('source-changed', '%s changed the type node' % what)
        got = [tview(t) for t in smp.tokens]
        check_set(what, [g[0] for g in got], every, c['n'])
        for g in got:
            if g != every[g[0]]:
                raise Bad('altered', '%s altered a token: %s was %s' % (what, g, every[g[0]]))
        if (str(smp), smp.format) != (str(node), node.format):
            raise Bad('altered', '%s gives type %s' % (what, smp))
        if c['method'] == 'first' and [g[0] for g in got] != [t[0] for t in before[2][:c['n']]]:
            raise Bad('altered', '%s gives %s, not the first' % (what, [g[0] for g in got]))
        back(st)
        again = nview(node.sample(n=c['n'], method=c['method']))
        if again != nview(smp):
            raise Bad('unrepeatable', '%s from the same generator state gave %s, then %s' % (
                what, [g[0] for g in got], [g[0] for g in again[2]]))
        probe('sampled-all' if len(got) == len(every) else 'sampled-some')
        if 0 < len(got) < len(every):
            distinct('tokens', len(every), [g[0] for g in got])
        if scn['cover'] and c['method'] == 'random' and 0 < c['n'] and len(every) <= 20:
            seed(c)
            if every:
                cover(what, 'token', every, c['n'], lambda j: [t.mark for t in node.sample(n=c['n']).tokens])
            probe('covered')
        if c['then'] == 'append':
            node.append_token(token(max([999] + [t.mark for t in node.tokens]) + 1, scn['twins']))
        elif c['then'] == 'nest':
            before = nview(node)
            node2, node = node, smp
            if nview(node2) != before:
                raise Bad('source-changed', 'source changed')
        elif c['then'] == 'spoil':          # working on the sample does not touch the source
            for t in smp.tokens:
                t.lemma = 'other'
                t.lcollocs.append('zz')
            smp.append_token(token(5000, False))
            if nview(node) != before:
                raise Bad('source-changed', 'changing the sample of %s changes the source' % what)


# ------------------------------------------------------------------ appearances of words
def vocab(scn, probe, distinct):
    from nephosem.core.vocab import Vocab
    v = Vocab(dict(scn['freq']))
    for c in scn['calls']:
        words = list(c['words'])
        what = 'selecting %d appearances of %s (%s) in %s' % (c['n'], words, c['method'], scn['freq'])
        seed(c)
        st = states()
        res = v.select_subsets(words, n=c['n'], method=c['method'])
        if dict(v.freq_dict) != scn['freq'] or words != c['words']:
            raise Bad('source-changed', '%s changed the vocabulary or the list of words' % what)
        if set(res) != set(words):
            raise Bad('foreign', '%s gives the words %s' % (what, sorted(res)))
        for w in res:
            sel = list(res[w].selected)
            f = scn['freq'].get(w, 0)
            check_set(what + ' for ' + w, sel, range(1, f + 1), c['n'])
            if res[w].n_sel != len(sel):
                raise Bad('size', '%s: n_sel of %s is %s' % (what, w, res[w].n_sel))
            if c['method'] == 'first' and sorted(sel) != list(range(1, len(sel) + 1)):
                raise Bad('altered', '%s for %s gives %s, not the first' % (what, w, sorted(sel)[:10]))
            probe('selected-all' if len(sel) == f else 'selected-some')
            if 0 < len(sel) < f:
                distinct('vocab', f, sel)
        back(st)
        again = v.select_subsets(list(words), n=c['n'], method=c['method'])
        if {w: set(res[w].selected) for w in res} != {w: set(again[w].selected) for w in again}:
            raise Bad('unrepeatable', '%s from the same generator state gave two selections' % what)
        if scn['cover'] and c['method'] == 'random' and c['n']:
            seed(c)
            for w in sorted(set(words)):
                f = scn['freq'].get(w, 0)
                if not 0 < f <= 50:
                    continue
                cover(what + ' for ' + w, 'appearance', range(1, f + 1), c['n'], lambda j: v.select_subsets([w], n=c['n'])[w].selected)
                probe('covered')


# ------------------------------------------------------------------ rows of a matrix
def lines(m):
    """[(row label, {column label: value})]"""
    rows, cols, shape, _, vals = mats.plain(m)
    if shape != (len(rows), len(cols)):
        raise Bad('altered', 'shape %s with %d row and %d column labels' % (shape, len(rows), len(cols)))
    out = [(r, {}) for r in rows]
    for (i, j), x in vals.items():
        out[i][1][cols[j]] = x
    return out, cols


def rows(scn, probe, distinct):
    m = mats.build(scn['mat'])
    for c in scn['calls']:
        size, n = len(m.row_items), c['n']
        what = 'sampling %s of %d rows (%s%s%s)' % (n, size, scn['mat']['kind'], '' if c['seed'] is None else ' seed=%d' % c['seed'],
                                                   ' with replacement' if c['replace'] else '')
        before = mats.plain(m)
        src, cols = lines(m)
        own = dict(src)
        kw = dict(percent=n, replace=c['replace'])
        if c['seed'] is not None:
            kw['seed'] = c['seed']
        seed(c)
        st = states()
        try:
            smp = m.sample(**kw)
        except ValueError as e:
            if n == 0 or n > size:
                probe('refused')
                if mats.plain(m) != before:
                    raise Bad('source-changed', 'refused %s changed the matrix' % what)
                continue
            raise Bad('exception', '%s raised %s' % (what, e))
        if mats.plain(m) != before:
            raise Bad('source-changed', '%s changed the matrix: %s' % (what, mats.describe(before, mats.plain(m))))
        got, gcols = lines(smp)
        k = int(n) if n >= 1 else max(1, int(size * n))
        if c['replace']:
            foreign = [r for r, _ in got if r not in own]
            if foreign:
                raise Bad('foreign', '%s: %s are no rows' % (what, foreign))
            if len(got) != k:
                raise Bad('size', '%s: %d rows' % (what, len(got)))
        else:
            check_set(what, [r for r, _ in got], own, k)
        if gcols != cols:
            raise Bad('altered', '%s: columns %s instead of %s' % (what, gcols, cols))
        for r, vals in got:
            if vals != own[r]:
                raise Bad('altered', '%s: row %r has values %.100r instead of %.100r' % (what, r, vals, own[r]))
        if c['seed'] is None:
            back(st)
        else:
            seed({'state': c['state'] + 1})
        again = lines(m.sample(**kw))
        if again[0] != got:
            raise Bad('unrepeatable', '%s from the same generator state gave %s, then %s' % (
                what, [r for r, _ in got], [r for r, _ in again[0]]))
        probe('replaced' if c['replace'] else 'sampled-all' if len(got) == size else 'sampled-some')
        if 0 < len(got) < size:
            distinct('rows', before, [r for r, _ in got])
        if scn['cover'] and not c['replace'] and size <= 12:
            seed(c)
            cover(what, 'row', own, k, lambda j: m.sample(percent=n, seed=-1 if j % 2 else j + c['state'] % 1000).row_items)
            probe('covered')


def run(scn, ctx):
    def main():
        try:
            {'tokens': tokens, 'vocab': vocab, 'rows': rows}[scn['what']](scn, ctx.probe, ctx.distinct)
        except Bad as e:
            return e.args
        return None
    s = ctx.sim([('s0', main)], {})
    ctx.hang(s, 'sampling')
    t = s.tasks[0]
    if t.error is not None:
        ctx.fail('exception', 'sampling raised %s: %s at %s' % t.error)
    if t.result is not None:
        ctx.fail(*t.result)


def shrinks(scn):
    for i in range(len(scn['calls'])):
        x = copy.deepcopy(scn)
        del x['calls'][i]
        yield x
    if scn['cover']:
        x = copy.deepcopy(scn)
        x['cover'] = False
        yield x
    if scn.get('size'):
        x = copy.deepcopy(scn)
        x['size'] -= 1
        yield x
    if scn.get('freq'):
        for w in sorted(scn['freq']):
            x = copy.deepcopy(scn)
            del x['freq'][w]
            yield x
    for i, c in enumerate(scn['calls']):
        if c.get('words'):
            for j in range(len(c['words'])):
                x = copy.deepcopy(scn)
                del x['calls'][i]['words'][j]
                yield x
        if type(c['n']) is int and c['n'] > 1:
            x = copy.deepcopy(scn)
            x['calls'][i]['n'] = c['n'] // 2
            yield x
    if scn.get('mat'):
        for m in mats.shrink_mat(scn['mat']):
            x = copy.deepcopy(scn)
            x['mat'] = m
            yield x

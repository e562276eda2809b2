"""Clustering-by-committee runs as simulated sessions (used by C05, C06)."""
import copy


def gen_cbc(rng, tier='quick', big=False):
    n = rng.choice([3, 4, 5, 6, 8, 10, 13]) if not big else rng.choice([17, 26, 40])
    m = rng.choice([3, 6, 6, 9])
    top = rng.choice([2, 3, 4, 7])
    freq = [[rng.randrange(top) for _ in range(m)] for _ in range(n)]
    for r in freq:
        r[0] += 1
    if rng.random() < 0.4:          # planted groups, so that several committees and later recursions arise
        for i, r in enumerate(freq):
            g = i % max(1, m // 3)
            for j in range(m):
                r[j] = r[j] + (9 if j // 3 == g else 0)
    return {'freq': freq, 'k': rng.choice([2, 3, 5, 8, 0.25, 0.5, 100]), 'theta1': rng.choice([0.1, 0.35, 0.6, 0.9]),
            'theta2': rng.choice([0.05, 0.25, 0.5, 0.8, 0.95]),
            't': rng.choice(['median', 'median', 'mean', '75%', 0.4, 2, 3]), 'prune': rng.choice(['distance', 'minsize']),
            'score': rng.choice(['with_size', 'without_size', 'with_size_sqrt']),
            'sparse': rng.random() < 0.3, 'iters': rng.choice([1, 3, 20]),
            'first': rng.choice([-1, -1, -1, max(2, n - 2)]), 'derive': rng.choice([None, None, None, 'dist', 'both']),
            'label': rng.choice(['w%d/n'] * 4 + ['é%d', '%d', '猫 %d/"n"']), 'f32': rng.random() < 0.08,
            'direct': rng.random() < 0.15, 'highest': rng.random() < 0.5}


def matrices(c):
    import numpy as np
    import scipy.sparse as sp
    from scipy.spatial.distance import pdist, squareform
    from nephosem.core.matrix import TypeTokenMatrix as T
    a = np.array(c['freq'])
    n, m = a.shape
    rows = [c.get('label', 'w%d/n') % i for i in range(n)]
    cols = ['c%d/v' % i for i in range(m)]
    f = a.astype(float)
    e = f.sum(1)[:, None] * f.sum(0)[None, :] / f.sum()
    with np.errstate(all='ignore'):
        p = np.maximum(np.nan_to_num(np.log(np.where(f > 0, f / e, 1))), 0)
    p[:, 0] += 0.01
    d = np.clip(squareform(pdist(p, 'cosine')), 0, 2)
    if c.get('f32'):
        d = d.astype('float32')
    return rows, T(sp.csr_matrix(a), rows, cols), T(sp.csr_matrix(p), rows, cols), T(d, rows, rows)


def session(c, multi):
    """A main program that clusters once."""
    def main():
        from nephosem.models.cbc import CBC, cbc_step1_multicore, cbc_step1_single
        rows, f, p, d = matrices(c)
        if c.get('direct'):         # the step that the option is about, by itself
            first = c.get('first', -1)
            got = (cbc_step1_multicore if multi else cbc_step1_single)(
                rows[:first] if first > 0 else rows, distmx=d, k=c['k'], prune_method=c['prune'],
                t=c['t'] if c['prune'] == 'distance' else (c['t'] if isinstance(c['t'], int) else 3),
                score_metric=c['score'], highest_score=c.get('highest', False))
            return [[[repr(float(v))] + list(map(str, x)) for v, x in got]], []
        derive = c.get('derive')
        x = CBC(rows, f, None if derive == 'both' else p, None if derive else d, k=c['k'], theta1=c['theta1'], theta2=c['theta2'], prune_method=c['prune'],
                t=c['t'] if c['prune'] == 'distance' else (c['t'] if isinstance(c['t'], int) else 3),
                score_metric=c['score'], num_iter=c['iters'])
        cs, rs = x.cluster(num_eles=c.get('first', -1), multicore=multi)
        return [[list(map(str, y)) for y in lst] for lst in cs], [list(map(str, y)) for y in rs]
    return main


def compare(exp, got):
    if exp == got:
        return None
    try:
        (ec, er), (gc, gr) = exp, got
    except Exception:
        return 'unusable result %r' % (got,)
    for i in range(max(len(ec), len(gc), len(er), len(gr))):
        a = ec[i] if i < len(ec) else None
        b = gc[i] if i < len(gc) else None
        if a != b:
            return 'recursion %d: committees %s, single-core gives %s' % (i + 1, str(b)[:300], str(a)[:300])
        a = er[i] if i < len(er) else None
        b = gr[i] if i < len(gr) else None
        if a != b:
            return 'recursion %d: residues %s, single-core gives %s' % (i + 1, str(b)[:300], str(a)[:300])
    return 'results differ'


def shrink_cbc(c):
    n, m = len(c['freq']), len(c['freq'][0])
    if n > 3:
        for i in range(n):
            x = copy.deepcopy(c)
            del x['freq'][i]
            yield x
    if m > 2:
        for j in range(1, m):
            x = copy.deepcopy(c)
            for r in x['freq']:
                del r[j]
            yield x
    if c['iters'] > 1:
        yield dict(copy.deepcopy(c), iters=1)

"""Generated labelled matrices and their comparison (used by C09, C10)."""


def gen_mat(rng, ver, tier='quick'):
    n, m = rng.choice([(1, 1), (2, 2), (2, 3), (3, 2), (4, 4), (3, 7)] + ([(12, 40)] if rng.random() < 0.2 else []) + ([(130, 300), (300, 2)] if rng.random() < 0.03 else []))
    if rng.random() < 0.005:            # more columns than two bytes can number
        n, m = 1, 66000
    kind = rng.choice(['csr', 'csr', 'csc', 'coo', 'lil', 'dense', 'dense', 'dense', rng.choice(['bsr', 'dok', 'dia'])])
    dt = rng.choice(['int', 'float', 'float', 'int32', rng.choice(['float32', 'int8', 'bool'])])
    dens = rng.choice([0.0, 0.3, 0.6, 1.0])
    cells = []
    for i in range(n):
        for j in range(m):
            if rng.random() < (dens if n * m < 1000 else dens / 9 if m < 60000 else dens / 700) or j == 65999:
                if dt in ('int8', 'bool'):
                    cells.append([i, j, (ver + rng.randrange(90)) % 120 + 1 if dt == 'int8' else True])
                    continue
                v = ver * 100 + rng.randrange(1, 90)
                if dt == 'float':
                    v = rng.choice([v + 0.1, -v * 1e-5, float(v), 1.0 / v, v * 1e200, rng.choice(['inf', '-inf', 'nan']) if rng.random() < 0.1 else v + 0.5])
                elif dt == 'float32':
                    v = rng.choice([v + 0.5, float(v), -v * 0.25])
                elif dt == 'int' and rng.random() < 0.1:
                    v += 2 ** 53
                elif dt != 'float32' and rng.random() < 0.2:
                    v = -v
                if rng.random() < 0.03:
                    v = 0               # a stored zero
                cells.append([i, j, v])
    odd = rng.choice(['', '', 'é', '\n', '.meta', '\x00', 'ß/ü', '猫', '😀', '"q"\\', 'a b\tc', '\u2028', 'e\u0301', '\ufb01\uff21', '\u212b', ' '])
    own = rng.random() < 0.7        # labels tell the version, or only the values do
    pre = ' ' if rng.random() < 0.04 else ''
    rows = ['%s%sr%d%s' % (pre, 'v%d' % ver if own else '', i, odd) for i in range(n)]
    cols = ['%s%sc%d%s' % (pre, 'v%d' % ver if own else '', j, odd) for j in range(m)]
    rng.shuffle(rows)
    if n == m:                      # square matrices have the same items in rows and columns
        cols = list(rows)
    return {'kind': kind, 'dt': dt, 'cells': cells, 'rows': rows, 'cols': cols, 'used': rng.random() < 0.2}


def variant(rng, m):
    """Another matrix of the same shape, labels and stored size: the values swap places."""
    m = dict(m)
    vals = [v for _, _, v in m['cells']]
    k = rng.randrange(1, len(vals)) if len(vals) > 1 else 0
    vals = vals[k:] + vals[:k] if rng.random() < 0.7 else vals[::-1]
    m['cells'] = [[i, j, v] for (i, j, _), v in zip(m['cells'], vals)]
    if rng.random() < 0.3:              # the labels swap too
        rows = m['rows'][::-1]
        m['cols'] = list(rows) if len(rows) == len(m['cols']) else m['cols'][::-1]
        m['rows'] = rows
    return m


def num(v):
    return float(v) if isinstance(v, str) else v


def form(m):
    """How the values are held in memory."""
    x = m.matrix
    return type(x).__name__, str(x.dtype), getattr(x, 'nnz', None)


def build(c):
    import numpy as np
    import scipy.sparse as sp
    from nephosem.core.matrix import TypeTokenMatrix as T
    dt = {'int': np.int64, 'int32': np.int32, 'float': np.float64, 'float32': np.float32, 'int8': np.int8, 'bool': np.bool_}[c['dt']]
    a = np.zeros((len(c['rows']), len(c['cols'])), dtype=dt)
    for i, j, v in c['cells']:
        a[i, j] = num(v)
    if c['kind'] == 'dense':
        x = a
    elif c['kind'] in ('csr', 'csc', 'coo'):        # with the zeros that are stored
        x = sp.coo_matrix((np.array([num(v) for _, _, v in c['cells']], dtype=dt),
                           ([i for i, _, _ in c['cells']], [j for _, j, _ in c['cells']])), shape=a.shape)
        x = x.asformat(c['kind'])
    else:
        x = getattr(sp, c['kind'] + '_matrix')(a)
    t = T(x, list(c['rows']), list(c['cols']))
    if c.get('used'):               # lookup tables kept on the object once it was indexed
        t.item2rowid, t.item2colid
    return t


def plain(m):
    """(rows, cols, shape, is sparse, {(i, j): value})"""
    import scipy.sparse as sp
    x = m.matrix
    issp = sp.issparse(x)
    a = x.toarray() if issp else x
    vals = {(i, j): v if v == v else 'nan' for i, r in enumerate(a.tolist()) for j, v in enumerate(r) if v != 0}
    return list(m.row_items), list(m.col_items), tuple(x.shape), bool(issp), vals


def want(c):
    return (list(c['rows']), list(c['cols']), (len(c['rows']), len(c['cols'])), c['kind'] != 'dense',
            {(i, j): v if v == 'nan' else num(v) for i, j, v in c['cells'] if v != 0})


def describe(exp, got):
    for n, a, b in zip(('row labels', 'column labels', 'shape', 'sparse', 'values'), exp, got):
        if a != b:
            return '%s: %s instead of %s' % (n, str(b)[:200], str(a)[:200])
    return 'equal'


def encodable(c, enc):
    try:
        ''.join(c['rows'] + c['cols']).encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def shrink_mat(c):
    import copy
    if len(c['rows']) == len(c['cols']):
        for d in range(len(c['rows'])):
            if len(c['rows']) > 1:
                x = copy.deepcopy(c)
                del x['rows'][d], x['cols'][d]
                x['cells'] = [[i - (i > d), j - (j > d), v] for i, j, v in x['cells'] if d not in (i, j)]
                yield x
    for key, k in (('rows', 0), ('cols', 1)):
        if len(c['rows']) == len(c['cols']):
            continue
        if len(c[key]) > 1:
            for d in range(len(c[key])):
                x = copy.deepcopy(c)
                del x[key][d]
                x['cells'] = [[i - (i > d) if k == 0 else i, j - (j > d) if k == 1 else j, v] for i, j, v in x['cells']
                              if (i, j)[k] != d]
                if len(x['rows']) != len(x['cols']):
                    yield x
    if c['cells']:
        x = copy.deepcopy(c)
        x['cells'] = x['cells'][:len(x['cells']) // 2]
        yield x

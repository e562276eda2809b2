"""Placing faults at operations recorded in a fault-free run of the same workload."""

ERR = {'read': ['EIO', 'EIO', 'ESTALE'], 'open': ['ENOENT', 'EACCES', 'EIO', 'EMFILE'],
       'create': ['ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS'], 'write': ['ENOSPC', 'EIO', 'EDQUOT'],
       'mkdir': ['ENOSPC', 'EACCES'], 'remove': ['EACCES', 'EIO'], 'rename': ['EACCES', 'EIO', 'ENOSPC'],
       'list': ['EACCES', 'EIO'], 'fork': ['EAGAIN', 'ENOMEM'], 'stat': ['EIO']}


def io_ops(ops, labels=None, skip=('stat',), under=None):
    """Operations at which an I/O error can strike."""
    out = []
    for o in ops:
        label, n, kind, detail, io, step, helper = o
        if io is None or io in skip or helper:
            continue
        if labels is not None and not labels(label):
            continue
        if under is not None and not any(str(detail) == u or str(detail).startswith(u + '/') for u in under):
            continue
        out.append(o)
    return out


def by_class(rng, ops, key=lambda o: (o[0] if '.' not in o[0] else 'child', o[2])):
    """A random operation, first choosing its class (so that rare kinds are hit as often as reads)."""
    if not ops:
        return None
    classes = {}
    for o in ops:
        classes.setdefault(key(o), []).append(o)
    k = sorted(classes, key=str)
    return rng.choice(classes[rng.choice(k)])


def io_error(rng, o):
    """An I/O fault striking operation o."""
    label, n, kind, detail, io, step, helper = o
    key = 'open' if kind.startswith('open:r') else io
    f = {'proc': label, 'n': n, 'kind': 'err', 'errno': rng.choice(ERR.get(key, ['EIO']))}
    if io == 'write':
        f['frac'] = rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])
        r = rng.random()
        if r < 0.1:
            return {'proc': label, 'n': n, 'kind': 'short', 'frac': rng.choice([0.0, 0.5, 0.9])}
        if r < 0.2:
            return {'proc': label, 'n': n, 'kind': 'disk_full', 'span': rng.choice([1, 3, 30, 100000])}
    elif io in ('create', 'mkdir') and rng.random() < 0.15:
        return {'proc': label, 'n': n, 'kind': 'disk_full', 'span': rng.choice([1, 3, 30, 100000])}
    return f


def kill_at(rng, o, torn=True):
    label, n, kind, detail, io, step, helper = o
    if torn and io == 'write' and rng.random() < 0.5:
        return {'proc': label, 'n': n, 'kind': 'torn', 'frac': rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])}
    return {'proc': label, 'n': n, 'kind': 'kill'}


def is_child(label):
    return '.' in label and '+' not in label

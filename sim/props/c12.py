"""Saving persistent objects (the SaveLoad base class): failures, retries, round trips."""
import copy
import random

import numpy as np
import scipy.sparse as sp

from nephosem.utils import SaveLoad
from sim import builds, faults, seams

ID = 'C12'


class Obj(SaveLoad):
    """A persistent object of a user."""


class Sub(SaveLoad):
    def method(self):
        return 1


NAMES = ['o', 'o.pkl', 'dir.x/o', 'o.gz', 'o.bz2', 'né', 'o.npy']
ATTRS = ['x', 'data', 's', 'name', 'val', 'n', 'sub', 'a1', 'é']


def gen_val(rng, depth):
    r = rng.random()
    if r < 0.3:
        return ['arr', rng.choice(['i8', 'f8', 'f4', 'b1', 'U3', 'O', 'c16']), rng.choice([[0], [1], [3], [40], [2, 3], [], [2, 0], [3, 2, 2]]),
                rng.randrange(1000), rng.choice(['C', 'C', 'F', 'view'])]
    if r < 0.5:
        return ['sp', rng.choice(['csr', 'csc', 'csr', 'coo', 'lil']), [rng.choice([1, 2, 5]), rng.choice([1, 3, 7])], rng.randrange(1000),
                rng.choice([0.0, 0.4, 1.0])]
    if r < 0.65 and depth < 2:
        return ['obj', rng.choice(['Obj', 'Sub']), [[a, gen_val(rng, depth + 1)] for a in rng.sample(ATTRS, rng.choice([0, 1, 2, 3]))]]
    return ['py', rng.choice([None, 1, 'tekst', [1, [2, 'b']], {'k': [1]}, 0.5, 'é' * 50, [], 'x' * 3000])]


def gen(rng, tier):
    attrs = [[a, gen_val(rng, 0)] for a in rng.sample(ATTRS, rng.choice([1, 2, 3, 4, 6]))]
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    steps = []
    for i in range(rng.choice([2, 3, 4, 5] if tier == 'quick' else [4, 6, 9])):
        r = rng.random()
        if i and r < 0.2:
            steps.append({'op': 'set', 'attr': rng.choice(ATTRS), 'val': gen_val(rng, 0)})
            continue
        if i and r < 0.27:
            steps.append({'op': 'swap', 'name': rng.choice(names)})     # go on with the loaded object
            continue
        have = [a for a, _ in attrs]
        st = {'op': 'save', 'name': rng.choice(names), 'handle': rng.random() < 0.15}
        r = rng.random()
        st['separately'] = None if r < 0.55 else rng.sample(have, rng.randrange(len(have) + 1)) + (['nope'] if rng.random() < 0.1 else [])
        st['sep_limit'] = rng.choice([0, 1, 1, 4, 30, 10 ** 7])
        st['ignore'] = rng.sample(ATTRS, rng.choice([0, 0, 1, 2]))
        st['protocol'] = rng.choice([2, 2, 4])
        st['bad'] = rng.choice([None] * 5 + ['top', 'nested', 'ignored'])
        st['mmap'] = rng.random() < 0.15
        steps.append(st)
    p = builds.sched_params(rng)
    return {'attrs': attrs, 'steps': steps, 'nfaults': rng.choice([0, 1, 1, 2, 3]),
            'params': {k: p[k] for k in ('bufsize', 'tick', 'clock', 'pid_mode')}}


def make(v):
    kind = v[0]
    if kind == 'py':
        return copy.deepcopy(v[1])
    if kind == 'obj':
        o = (Obj if v[1] == 'Obj' else Sub)()
        for a, w in v[2]:
            setattr(o, a, make(w))
        return o
    if kind == 'arr':
        _, dt, shape, seed, order = v
        n = int(np.prod(shape)) if shape else 1
        r = random.Random(seed)
        if dt == 'O':
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = r.choice([None, 'w', [1, 2], 5])
            a = a.reshape(shape)
        elif dt == 'U3':
            a = np.array([r.choice(['a', 'bé', '']) for _ in range(n)], dtype='U3').reshape(shape)
        else:
            a = np.array([r.randrange(100) for _ in range(n)]).astype(dt).reshape(shape)
        if order == 'F':
            a = np.asfortranarray(a) if a.ndim else a
        elif order == 'view' and a.ndim:
            a = a[::-1]
        return a
    _, k, shape, seed, dens = v
    r = random.Random(seed)
    a = np.zeros(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            if r.random() < dens:
                a[i, j] = r.randrange(1, 99)
    return getattr(sp, k + '_matrix')(a)


def view(v, ignore=(), dropped=False):
    """A comparable picture of a value; ignored attributes of persistent objects shown as None."""
    if isinstance(v, SaveLoad):
        d = {}
        for k, w in v.__dict__.items():
            if k.startswith('__'):
                continue        # the library's own bookkeeping
            d[k] = ('py', 'None') if k in ignore and dropped else view(w, ignore, dropped)
        return ('obj', type(v).__name__, d)
    if isinstance(v, np.ndarray):
        return ('arr', str(v.dtype), tuple(v.shape), repr(v.tolist()))
    if sp.issparse(v):
        if v.format in ('csr', 'csc') and (v.data is None or v.indptr is None or v.indices is None):
            return ('sp', v.format, 'without contents')
        return ('sp', v.format, str(v.dtype), tuple(v.shape), repr(v.toarray().tolist()))
    if isinstance(v, Unpicklable):
        return ('unpicklable',)
    return ('py', repr(v))


class Unpicklable(object):
    def __reduce__(self):
        raise RuntimeError('cannot be stored')


def pickles(o, ignore, top=True):
    """Whether nothing unpicklable would have to be stored."""
    for k, w in o.__dict__.items():
        if k in ignore:
            continue
        if isinstance(w, Unpicklable) or isinstance(w, SaveLoad) and not pickles(w, ignore):
            return False
    return True


def nested(o):
    for k in sorted(o.__dict__):
        if isinstance(o.__dict__[k], SaveLoad) and not k.startswith('__'):
            return o.__dict__[k]
    return None


def mappable(o):
    for k, w in o.__dict__.items():
        if isinstance(w, np.ndarray) and (w.dtype == object or w.size == 0) or sp.issparse(w) and w.nnz == 0:
            return False
        if isinstance(w, SaveLoad) and not mappable(w):
            return False
    return True


def main(scn, ctx):
    def f():
        o = Obj()
        for a, v in scn['attrs']:
            setattr(o, a, make(v))
        saved = {}          # name -> view of what was saved last, None after a failed save
        for i, st in enumerate(scn['steps']):
            if st['op'] == 'set':
                setattr(o, st['attr'], make(st['val']))
                continue
            if st['op'] == 'swap':
                if saved.get(ctx.path(st['name'])) is not None:
                    n0 = seams.fired_total()
                    try:
                        o = Obj.load(ctx.path(st['name']))
                    except (Exception, KeyboardInterrupt) as e:
                        seams.free_disk()
                        if seams.fired_total() == n0:
                            return 'load-raised', 'step %d: load raised %s: %s' % (i, type(e).__name__, e)
                continue
            fn, ignore = ctx.path(st['name']), list(st['ignore'])
            if st['handle'] and fn.endswith(('.gz', '.bz2')):
                fn += '.h'      # an uncompressed handle
            host = o
            if st['bad'] == 'nested':
                host = nested(o) or o
            if st['bad']:
                host.bad = Unpicklable()
                if st['bad'] == 'ignored':
                    ignore.append('bad')
            before = view(o)
            ignored = [] if st['handle'] else ignore
            want = view(o, ignored, True)
            kw = {'ignore': frozenset(ignore) if i % 2 else list(ignore), 'sep_limit': st['sep_limit'], 'pickle_protocol': st['protocol']}
            if st['separately'] is not None:
                kw['separately'] = list(st['separately'])
            kw0 = copy.deepcopy(kw)
            n0, err = seams.fired_total(), None
            try:
                if st['handle']:
                    with open(fn, 'wb') as h:
                        o.save(h, **kw)
                else:
                    o.save(fn, **kw)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            hit = seams.fired_total() > n0
            seams.free_disk()
            after = view(o)
            what = 'step %d: %s to %r (separately=%s sep_limit=%s ignore=%s)' % (
                i, 'failed save' if err else 'save', st['name'], st['separately'], st['sep_limit'], ignore)
            if after != before:
                return 'damaged', '%s changed the object in memory: %s' % (what, differ(before, after))
            if kw != kw0:
                return 'damaged', '%s changed its arguments' % what
            okay = pickles(o, ignored)
            if err is not None and not hit and okay:
                return 'exception', '%s raised %s: %s' % (what, type(err).__name__, err)
            if err is None and not okay:
                return 'silent', '%s stored something that cannot be stored' % what
            saved[fn] = None if err is not None else want
            ctx.probe('save-raised' if err is not None else 'save-ok')
            if st['bad']:
                del host.bad
            if err is None:
                mm = st['mmap'] and not st['handle'] and not fn.endswith(('.gz', '.bz2')) and mappable(o)
                n1 = seams.fired_total()
                try:
                    got = Obj.load(fn, mmap='r') if mm else Obj.load(fn)
                except (Exception, KeyboardInterrupt) as e:
                    if seams.fired_total() == n1:
                        return 'load-raised', '%s: load raised %s: %s' % (what, type(e).__name__, e)
                    seams.free_disk()
                    ctx.probe('load-raised')
                    continue
                try:
                    v = view(got)
                except Exception as e:
                    return 'wrong-load', '%s: loaded object is unusable: %s: %s' % (what, type(e).__name__, e)
                if not isinstance(got, Obj) or v != want:
                    return 'wrong-load', '%s: loaded object differs: %s' % (what, differ(want, v))
                ctx.probe('loaded-mapped' if mm else 'loaded')
        return None
    return f


def differ(a, b, at='object'):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('obj',) and a[1] == b[1]:
        gone = sorted(set(a[2]) - set(b[2]))
        new = sorted(set(b[2]) - set(a[2]))
        if gone or new:
            return '%s lost attributes %s, gained %s' % (at, gone, new)
        for k in a[2]:
            if a[2][k] != b[2][k]:
                return differ(a[2][k], b[2][k], at + '.' + k)
    return '%s was %.150r, is %.150r' % (at, a, b)


def run(scn, ctx):
    params = dict(scn['params'], sched_seed='%s/x' % ctx.seed, env_seed='%s/x' % ctx.seed)

    def go(name, params, fl=()):
        import os
        os.mkdir(ctx.path('dir.x'))
        s = ctx.sim([('s0', main(scn, ctx))], params, faults=fl, name=name)
        ctx.hang(s, 'save')
        t = s.tasks[0]
        if t.error is not None:
            ctx.fail('exception', 'session died: %s: %s at %s' % t.error)
        if t.result is not None:
            ctx.fail(*t.result)
        return s
    s = go('rec', dict(params, keep_ops=True))
    if not scn['nfaults']:
        return
    ctx.reset()

    def fl():
        rng = random.Random('f-%s' % ctx.seed)
        out = []
        for _ in range(scn['nfaults']):
            what = rng.choice(['io', 'io', 'io', 'memerr', 'sigint'])
            o = faults.by_class(rng, faults.io_ops(s.ops))
            if o is None:
                continue
            out.append(faults.io_error(rng, o) if what == 'io' else {'proc': o[0], 'n': o[1], 'kind': what})
        return out
    go('fault', params, fl)


def shrinks(scn):
    for i in range(len(scn['steps'])):
        x = copy.deepcopy(scn)
        del x['steps'][i]
        yield x
    for i in range(len(scn['attrs'])):
        x = copy.deepcopy(scn)
        del x['attrs'][i]
        yield x
    for i, st in enumerate(scn['steps']):
        if st['op'] != 'save':
            continue
        for k, v in (('separately', None), ('ignore', []), ('bad', None), ('handle', False), ('mmap', False)):
            if st[k] != v:
                x = copy.deepcopy(scn)
                x['steps'][i][k] = v
                yield x

"""Looking at the simulated machine's disk from outside the simulation."""
import os

from . import seams


def snapshot(path):
    """{relative name: content (None for a directory)} of everything under path."""
    out = {}
    if not os.path.isdir(path):
        return out
    for d, sub, files in os.walk(path):
        for n in sub:
            out[os.path.relpath(os.path.join(d, n), path)] = None
        for n in files:
            p = os.path.join(d, n)
            try:
                with seams.REAL.open(p, 'rb') as f:
                    out[os.path.relpath(p, path)] = f.read()
            except OSError as e:
                out[os.path.relpath(p, path)] = repr(e)
    return out


def changes(before, after, new_ok=False):
    """Description of the first differences, or None."""
    gone = sorted(k for k in before if k not in after)
    new = sorted(k for k in after if k not in before)
    mod = sorted(k for k in before if k in after and before[k] != after[k])
    out = []
    if gone:
        out.append('deleted %s' % gone[:3])
    if mod:
        out.append('altered %s' % mod[:3])
    if new and not new_ok:
        out.append('new %s' % new[:3])
    return '; '.join(out) or None


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with seams.REAL.open(path, 'wb') as f:
        f.write(data)

#!/usr/bin/env python3
"""Determinism self-test: run the same cases in different processes (and other PYTHONHASHSEEDs) and diff the event-log hashes.

usage: determinism.py [N cases] [props...]
Same hash seed, different process, different position in the batch: logs must be identical.
Another hash seed: reported only (set iteration order in the library is part of an execution; replay files record it)."""
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def start(pid, base, lo, hi, hs):
    e = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[v] = '1'
    return subprocess.Popen([PY, '-m', 'sim.worker', 'hashes', pid, base, str(lo), str(hi), 'quick'], env=e, cwd=HERE,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def read(p):
    out, err = p.communicate()
    if p.returncode:
        print(err.decode()[-2000:])
    return dict((l.split()[0], l.split()[1:]) for l in out.decode().strip().split('\n') if l)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    sys.path.insert(0, HERE)
    from sim import plan
    props = sys.argv[2:] or sorted(plan.COUNTS)
    bad = 0
    for pid in props:
        t = time.time()
        runs = []
        for base in ('11', '12'):
            # whole batch; two halves (other positions); again; other hash seed
            runs.append((base, [start(pid, base, 0, n, 1), start(pid, base, 0, n, 1), start(pid, base, n // 2, n, 1), start(pid, base, 0, n, 2)]))
        tot = diff = hdiff = 0
        for base, ps in runs:
            a, b, c, d = [read(p) for p in ps]
            for k in a:
                tot += 1
                if a[k] != b.get(k) or (int(k) >= n // 2 and a[k] != c.get(k)):
                    diff += 1
                    print('  DIFF', pid, base, k, a[k], b.get(k), c.get(k))
                if a[k] != d.get(k):
                    hdiff += 1
        print('%s: %d cases, %d differ between processes, %d differ under another hash seed, %.0f s' % (pid, tot, diff, hdiff, time.time() - t))
        bad += diff
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()

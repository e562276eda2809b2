#!/usr/bin/env python3
"""check.py <property> [--replay FILE [-v]]: search for violations of one property by simulation.

Exit 0: the property held in every simulated execution.  Exit 1 and a VIOLATION line: it did not;
the replay file holds the minimised scenario, schedule and faults.  Exit 2: an error of the check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SHARDS = 8
WALL = {'quick': 300.0, 'thorough': 3000.0}      # stop starting new cases after this long
COMPONENTS = {
    'real': ['all of nephosem (unmodified, imported from the working tree)', 'numpy/scipy/pandas/sklearn/networkx',
             'zipfile, codecs, csv, json, pickle, tempfile, shutil', 'file contents (a private scratch directory)'],
    'stub': ['multiprocessing processes, pools, managers, queues, locks, events (simulated processes with private memory)',
             'threads and executors (simulated tasks)', 'open/os.* file calls (fault and scheduling points in front of the real files)',
             'clocks, sleep, pids, CPU count, directory order, random seeds, urandom'],
}


def log(*a):
    print(*a, flush=True)


def worker_env(hashseed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONPATH'] = HERE
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[v] = '1'
    return e


def replay(path, verbose=False):
    """Run a replay file in a fresh process; returns the worker's verdict."""
    d = json.load(open(path))
    e = worker_env(d.get('hashseed') or '0')
    e['VERIF_TIER'] = d.get('tier', 'quick')
    cmd = [PY, '-m', 'sim.worker', 'replay', os.path.abspath(path)] + (['-v'] if verbose else [])
    p = subprocess.run(cmd, env=e, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
    lines = p.stdout.decode('utf-8', 'replace').strip().split('\n')
    if verbose:
        for x in lines[:-1]:
            log(x)
    try:
        return json.loads(lines[-1])
    except ValueError:
        return {'error': p.stderr.decode('utf-8', 'replace')[-2000:] or 'no output'}


def known_findings(pid):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append({'kind': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    if '--replay' in args:
        out = replay(args[args.index('--replay') + 1], '-v' in args)
        log(json.dumps(out, indent=1))
        sys.exit(1 if out.get('violation') else (2 if out.get('error') else 0))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in WALL:
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    from sim import plan
    ncases = int(os.environ.get('VERIF_CASES', 0)) or plan.COUNTS[pid][tier]
    wall = float(os.environ.get('VERIF_WALL', 0)) or WALL[tier]
    log('property=%s seed=%d tier=%s cases=%d shards=%d' % (pid, seed, tier, ncases, SHARDS))
    known = known_findings(pid)
    tmp = tempfile.mkdtemp(prefix='nephosim-run-')
    procs = []
    code = 2
    try:
        stop = os.path.join(tmp, 'stop')
        for k in range(SHARDS):
            hs = (seed * 1000003 + k * 7919) % 4294967291
            e = worker_env(hs)
            e['VERIF_KNOWN'] = json.dumps(known)
            outf = os.path.join(tmp, 'out-%d.json' % k)
            errf = open(os.path.join(tmp, 'err-%d' % k), 'wb')
            cmd = [PY, '-m', 'sim.worker', 'shard', pid, str(k), str(SHARDS), str(seed), tier, str(ncases), str(wall), outf, stop]
            procs.append((subprocess.Popen(cmd, env=e, cwd=HERE, stdout=errf, stderr=errf), outf, errf.name))
        hard = t0 + wall + 330
        viol_at = None
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.05)
            now = time.monotonic()
            if viol_at is None:
                for p, outf, _ in procs:
                    if os.path.exists(outf):
                        try:
                            if json.load(open(outf)).get('status') == 'violation':
                                viol_at = now
                                open(stop, 'w').close()
                        except ValueError:
                            pass
            elif now - viol_at > 120:
                for p, _, _ in procs:
                    if p.poll() is None:
                        p.kill()
            if now > hard:
                for p, _, _ in procs:
                    if p.poll() is None:
                        p.kill()
        results, errors = [], []
        for p, outf, errf in procs:
            if os.path.exists(outf):
                r = json.load(open(outf))
                results.append(r)
                if r['status'] == 'error':
                    errors.append(r['error'])
            elif viol_at is None:
                errors.append('worker died (exit %s): %s' % (p.returncode, open(errf, 'rb').read().decode('utf-8', 'replace')[-1500:]))
        code = conclude(pid, seed, tier, t0, results, errors, known, ncases)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def conclude(pid, seed, tier, t0, results, errors, known, ncases):
    from sim import plan
    stats = {}
    orders, nontriv, samples, notes, knownhits = set(), set(), [], {}, {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
        orders.update(r.get('orders', ()))
        nontriv.update(r.get('nontrivial', ()))
        samples.extend(r.get('samples', ()))
        for k, v in r.get('known', {}).items():
            knownhits[k] = knownhits.get(k, 0) + v
        for k, v in r.get('notes', {}).items():
            notes.setdefault(k, []).extend(v)
    done = sum(r.get('done', 0) for r in results)
    viols = [r for r in results if r['status'] == 'violation']
    batch = None
    if not viols and not errors and notes:
        batch = plan.batch_check(pid, notes)
    wall = time.monotonic() - t0
    small = [s for s in samples if len(json.dumps(s)) < 6000] or samples
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(nontriv),
        'rule': plan.RULES[pid],
        'samples': sorted(small, key=lambda s: len(json.dumps(s)))[-3:],
        'simulated_runs': stats.get('sims', 0),
        'seeds_per_hour': int(done / wall * 3600) if wall else 0,
        'simulated_runs_per_hour': int(stats.get('sims', 0) / wall * 3600) if wall else 0,
        'simulated_seconds': round(stats.get('sim_seconds', 0.0), 1),
        'simulated_operations': stats.get('steps', 0),
        'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
        'faults_planned': stats.get('faults_planned', 0),
        'distinct_interleavings': len(orders),
        'distinct_interleavings_measure': 'distinct sequences of (process, kind of operation) over a simulated run',
        'runs_with_child_processes': stats.get('sims_with_children', 0),
        'probes': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
        'planned_cases': ncases,
        'components': COMPONENTS,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': plan.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(viols) + (1 if batch else 0)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fn = os.path.join(HERE, 'evidence', pid + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(fn + '.tmp', fn)
    log('cases=%d runs=%d operations=%d interleavings=%d faults=%s wall=%.1fs'
        % (done, cov['simulated_runs'], cov['simulated_operations'], len(orders), cov['faults_fired'], wall))
    for k in known:
        log('KNOWN-FINDING: property=%s %s (%d times)' % (pid, k['what'], knownhits.get(k['what'], 0)))
    if viols:
        return report(pid, seed, viols)
    if batch:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'kind': 'batch', 'message': batch, 'seed': seed, 'tier': tier, 'cases': ncases,
                       'how': 'VERIF_SEED=%d VERIF_TIER=%s check.py %s' % (seed, tier, pid)}, f, indent=1)
        log(batch)
        log('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        log('ERROR of the check itself:')
        for e in errors[:3]:
            log(e)
        return 2
    if done == 0:
        log('ERROR: nothing was run')
        return 2
    return 0


def report(pid, seed, viols):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, seed))
    best = None
    viols.sort(key=lambda r: (r.get('small') is None, len(json.dumps(r.get('small') or r['first']))))
    for r in viols[:2]:
        for key in ('small', 'first'):
            d = r.get(key)
            if d is None:
                continue
            with open(path, 'w') as f:
                json.dump(d, f, indent=1)
            try:
                out = replay(path)
            except subprocess.TimeoutExpired:
                out = {'error': 'timeout'}
            same = out.get('violation') and out['violation']['kind'] == d['kind']
            exact = same and (d.get('log_hash') in (None, out.get('hash')))
            if best is None:
                best = d
            if same:
                best = d
                log('replayed in a fresh process: same violation%s' % (', identical event log' if exact and d.get('log_hash') else ''))
                break
        else:
            continue
        break
    else:
        with open(path, 'w') as f:
            json.dump(best, f, indent=1)
        log('note: the replay in a fresh process did not reproduce it')
    log('case seed %s, %s: %s' % (best['seed'], best['kind'], best['message'][:1500]))
    faults = [f for e in best['sims'] for f in e['faults']]
    log('simulations %d, faults %s, scheduling choices %s' % (
        len(best['sims']), json.dumps(faults), [len(e['choices']) for e in best['sims']]))
    log('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    main()

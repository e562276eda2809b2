"""Worker process: runs a shard of cases of one property (or one replay file)."""
import collections
import gc
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback


def load_prop(pid):
    return importlib.import_module('sim.props.%s' % pid.lower())


def describe(v, prop, seed, scn, ctx, extra=None):
    d = {'property': prop.ID, 'seed': seed, 'hashseed': os.environ.get('PYTHONHASHSEED', ''),
         'kind': v.kind, 'message': v.msg[:2000], 'scenario': scn,
         'sims': [{'choices': e['choices'], 'faults': e['faults'], 'name': e.get('name', '')} for e in ctx.trace],
         'tier': os.environ.get('VERIF_TIER', 'quick')}
    d.update(extra or {})
    return d


def finish(code):
    from sim import env
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        env.STATE.get('cleanup', lambda: None)()
    finally:
        os._exit(code)


def main():
    mode = sys.argv[1]
    from sim import env
    env.boot()
    from sim import engine
    if mode == 'replay':
        d = json.load(open(sys.argv[2]))
        prop = load_prop(d['property'])
        stats = collections.Counter()
        v, ctx = engine.run_case(prop, d['seed'], d['scenario'], d['sims'], stats, keep_log=True)
        out = {'violation': None if v is None else {'kind': v.kind, 'message': v.msg}, 'hash': engine.trace_hash(ctx) if not getattr(v, 'spent', False) else None}
        if len(sys.argv) > 3 and sys.argv[3] == '-v':
            for name, log in ctx.logs:
                print('---- simulation', name)
                for x in log:
                    print('  %-10s %-14s %s' % x)
        print(json.dumps(out))
        finish(0)
    if mode == 'hashes':
        # determinism self-test: print the event-log hash of each case
        prop = load_prop(sys.argv[2])
        base, lo, hi, tier = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
        for i in range(lo, hi):
            seed = engine.case_seed(base, i)
            stats = collections.Counter()
            scn = engine.gen(prop, seed, tier)
            v, ctx = engine.run_case(prop, seed, scn, None, stats)
            print(i, engine.trace_hash(ctx), v.kind if v else '-')
        finish(0)
    # shard
    pid, shard, nsh, base, tier, ncases, wall, outfile, stopfile = sys.argv[2:11]
    shard, nsh, ncases, wall = int(shard), int(nsh), int(ncases), float(wall)
    prop = load_prop(pid)
    stats = collections.Counter()
    sets = {}
    samples = []
    t0 = time.monotonic()
    res = {'shard': shard, 'status': 'ok'}
    done = 0
    notes = {}
    hits = {}
    known = json.loads(os.environ.get('VERIF_KNOWN', '[]'))

    def match_known(v):
        for k in known:
            if k['kind'] == v.kind and re.search(k['match'], v.msg):
                return k
        return None
    try:
        for n, i in enumerate(range(shard, ncases, nsh)):
            if time.monotonic() - t0 > wall or os.path.exists(stopfile):
                break
            seed = engine.case_seed(base, i)
            scn = engine.gen(prop, seed, tier)
            v, ctx = engine.run_case(prop, seed, scn, None, stats, sets)
            done += 1
            for k, val in ctx.notes.items():
                notes.setdefault(k, []).append(val)
            if len(samples) < 2 and (i % 7 == 3 or n == 0):
                samples.append({'seed': seed, 'scenario': scn, 'simulations': len(ctx.trace),
                                'faults': [e['faults'] for e in ctx.trace],
                                'choices_total': sum(len(e['choices']) for e in ctx.trace)})
            if v is not None:
                kf = match_known(v)
                if kf is not None:
                    hits[kf['what']] = hits.get(kf['what'], 0) + 1
                    continue
                first = describe(v, prop, seed, scn, ctx)
                first['unshrunk'] = True
                res['status'] = 'violation'
                res['first'] = first
                # write the unshrunk one first, in case shrinking is cut short
                with open(outfile + '.tmp', 'w') as f:
                    json.dump(dict(res, stats=dict(stats), done=done), f)
                os.replace(outfile + '.tmp', outfile)
                if not getattr(v, 'spent', False):
                    (s2, t2), tries = engine.shrink(prop, seed, scn, engine._clean(ctx.trace), v.kind,
                                                    budget=float(os.environ.get('SIM_SHRINK', '40')))
                    v2, ctx2 = engine.run_case(prop, seed, s2, t2, collections.Counter())
                    if v2 is not None and v2.kind == v.kind:
                        res['small'] = describe(v2, prop, seed, s2, ctx2, {
                            'shrink_tries': tries, 'log_hash': engine.trace_hash(ctx2)})
                break
            if n % 10 == 9:
                gc.collect()
    except BaseException:
        res['status'] = 'error'
        res['error'] = traceback.format_exc()[-3000:]
    if hasattr(prop, 'batch_notes'):
        res['notes'] = notes
    res.update(known=hits, stats=dict(stats), done=done, wall=time.monotonic() - t0, samples=samples,
               orders=[x.hex() for x in sets.get('orders', ())], nontrivial=[x.hex() for x in sets.get('nontrivial', ())])
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(outfile + '.tmp', outfile)
    finish(0)


if __name__ == '__main__':
    main()

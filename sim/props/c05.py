"""Multi-core clustering equals single-core clustering."""
import copy

from sim import builds, cbcgen, seams

ID = 'C05'


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3] if tier == 'thorough' else [1, 1, 2])
    big = rng.random() < 0.06
    c = [cbcgen.gen_cbc(rng, tier, big) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:      # the same elements, other distances: a mix-up shows
        for x in c[1:]:
            x['freq'] = [[rng.randrange(4) + (j == 0) for j in range(len(c[0]['freq'][0]))] for _ in c[0]['freq']]
    p = builds.sched_params(rng)
    if big:
        p['cpu'] = rng.choice([8, 12, 16, 24])
        p['max_steps'] = 150000
    p['t0'] = 1700000000.0 + rng.choice([0, 30, 59, 3599])
    order, faults = 'par', []
    if n > 1:
        order = rng.choice(['par', 'par', 'par', 'seq', 'killed', 'killed'])
        if order == 'killed':      # the first one dies somewhere; the others follow, or run beside it
            faults = [{'proc': rng.choice(['s0', 's0', 's0.0', 's0.1']), 'n': rng.randrange(1, 40), 'kind': 'kill_session'}]
    return {'runs': c, 'params': p, 'order': order, 'faults': faults, 'beside': rng.random() < 0.3}


def run(scn, ctx):
    exp = []
    for i, c in enumerate(scn['runs']):
        s = ctx.sim([('s0', cbcgen.session(c, False))], {'env_seed': '%s/ref' % ctx.seed}, name='single%d' % i, count=False)
        t = s.tasks[0]
        ctx.hang(s, 'single-core clustering')
        if t.error is not None:
            ctx.fail('exception', 'single-core clustering raised %s: %s at %s' % t.error)
        exp.append(t.result)
    fns = []
    for i, c in enumerate(scn['runs']):
        f = cbcgen.session(c, True)
        if i and (scn['order'] == 'seq' or scn['order'] == 'killed' and not scn['beside']):
            f = _after('s%d' % (i - 1), f)
        fns.append(('s%d' % i, f))
    s = ctx.sim(fns, scn['params'], faults=scn['faults'], name='multi')
    ctx.hang(s, 'clustering')
    for i, c in enumerate(scn['runs']):
        t = s.tasks[i]
        if t.dead and i == 0 and scn['order'] == 'killed':
            ctx.probe('killed')
            continue
        if t.error is not None:
            ctx.fail('exception', 'multi-core clustering raised %s: %s at %s' % t.error)
        d = cbcgen.compare(exp[i], t.result)
        if d:
            ctx.fail('wrong-result', d)
        ctx.probe('committees', sum(map(len, exp[i][0])))
        ctx.probe('recursions', len(exp[i][0]))
    ctx.probe('pool-used', 1 if len(s.tasks) > len(fns) else 0)


def _after(label, f):
    def main():
        seams.wait_session(label)
        return f()
    return main


def shrinks(scn):
    if len(scn['runs']) > 1:
        for i in range(len(scn['runs'])):
            x = copy.deepcopy(scn)
            del x['runs'][i]
            if not (i == 0 and scn['order'] == 'killed'):
                yield x
    for i, c in enumerate(scn['runs']):
        for c2 in cbcgen.shrink_cbc(c):
            x = copy.deepcopy(scn)
            x['runs'][i] = c2
            yield x

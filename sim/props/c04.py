from sim import builds

ID = 'C04'
KIND = 'dep'


def gen(rng, tier):
    b = builds.gen_build(rng, KIND, tier=tier, big=('files',))
    return {'b': b, 'params': builds.big_params(b, builds.sched_params(rng))}


def run(scn, ctx):
    b = scn['b']
    root, aux = ctx.path('corpus'), ctx.path('aux')
    builds.prepare(b, root, aux)
    paths = {'tmp-path': ctx.path('tmp'), 'output-path': ctx.path('out')}
    exp = builds.expected(b)
    ctx.probe('nonempty', 1 if exp else 0)
    s = ctx.sim([('s0', builds.session(b, root, aux, paths))], scn['params'])
    builds.check_single(ctx, b, s, exp)


def shrinks(scn):
    for b in builds.shrink_build(scn['b']):
        yield dict(scn, b=b)

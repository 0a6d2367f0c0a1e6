"""C15: a training or sampling step means the same under every op schedule.

Race freedom: over the happens-before order of the ops of one step (data and
control edges, loops as single actions, one closure per valuation of the
conditionals) every access of a state variable is ordered with every write of
it.  Then the value of every read is determined, and the value obligations say
that it is the one before the step."""
import numpy as np
from .. import hmcspec as hs
from ..env import tf
from ..step import HB, WRITE, describe
from ..sched import demonstrate
from ..world import StepCase, LJ
from . import c12, c13, c14

FUNCTIONS = ['zhusuan.hmc.HMC.sample and everything it builds', 'zhusuan.hmc.StepsizeTuner.tune',
             'zhusuan.hmc.ExponentialWeightedMovingVariance.update', 'zhusuan.sgmcmc.SGMCMC._apply_updates/sample and all _update',
             'zhusuan.variational.EvidenceLowerBoundObjective.reinforce', 'zhusuan.evaluation.AIS.__init__']
ASSUMPTIONS = ['Runtime model: an op runs after its data and control inputs, a reference variable is one buffer, ops that forward a '
               'tensor share its buffer, a loop is left only after its last iteration; no other order is assumed.',
               'The log joint and the samples handed in are pure functions of the latent values (no writes of their own).',
               'The session does not rewrite the graph across control edges.']


def races(c, build, sample_op):
    """race obligations of a built step, with a forced-schedule replay of any race"""
    obs, n = c.races()
    for o, rs in obs:
        o.regions = max(o.regions, 1)
        for r in rs[:4]:
            cex, notes = demonstrate(build, r)
            if cex is not None:
                o.status, o.cex = 'refuted', cex
                o.detail = 'the outcome depends on the schedule: %s; %s is %s or %s' % (
                    describe(r), cex['differs'], str(cex['value_1'])[:80], str(cex['value_2'])[:80])
                break
            o.detail += ' [forced schedules agree: %s]' % '; '.join(notes[:2])[:200]
    if sample_op is not None:
        alone = HB([sample_op])
        a = {o.name for o in alone.order if o.type in WRITE}
        b = {o.name for o in c.hb.order if o.type in WRITE}
        c.fact('the returned operation alone performs every update', a == b, 'needs a fetch of info: %s' % sorted(b - a))


def sgmcmc(label, seed, tier, **kw):
    build = lambda: c14.build(label, seed, tier, **kw)
    c = build()
    races(c, build, c.sample_op)
    bad = any(o.status != 'proved' for o in c.obls)
    c.close()
    return c.obls + ([] if bad else c14.one(label, seed, tier, **kw))


def hmc(label, seed, tier, values=True, **kw):
    build = lambda: hs.build(label, seed, tier, **kw)
    c = build()
    races(c, build, c.sample_op)
    bad = any(o.status != 'proved' for o in c.obls)
    c.close()
    if bad or not values:
        return c.obls
    mod = c12 if kw.get('adapt') is None else c13
    return c.obls + mod.one(label, seed, tier, **kw)


def build_ais(label, seed, tier, shapes, nchain, adapt, mass, which):
    import zhusuan as zs
    from zhusuan.evaluation import AIS
    c = StepCase(label, seed, trials=2)
    names = ['w%d' % i for i in range(len(shapes))]
    lj = LJ(c, names, shapes, nchain)
    with c.graph.as_default():
        vs = [tf.Variable(tf.zeros(s), name=n) for n, s in zip(names, shapes)]
        kw = {}
        if adapt:
            kw['adapt_step_size'] = c.ph('adapt_step_size', [], 'bool', 'bool')
        if mass:
            kw['adapt_mass'] = c.ph('adapt_mass', [], 'bool', 'bool')
        h = zs.HMC(step_size=.25, n_leapfrogs=3, **kw)
        x = tf.placeholder(tf.float32, [None], name='xobs')

        @zs.meta_bayesian_net()
        def prior():
            bn = zs.BayesianNet()
            for n, s in zip(names, shapes):
                bn.normal(n, tf.zeros(s), std=1., group_ndims=len(s) - nchain)
            return bn
        ais = AIS(lambda o: lj({n: o[n] for n in names}), prior(), h, {'x': x}, dict(zip(names, vs)), n_temperatures=3, n_adapt=1)
        c.domain_t = ais.temperature
        i = ais.hmc_info
    c.extra_feed = {ais.temperature: .375, x: np.zeros([2], 'float32')}
    c.sample_op = ais.sample_op if which == 'sample' else None
    c.begin({'sample': [ais.sample_op, i.orig_log_prob, i.log_prob, i.acceptance_rate], 'init': list(ais.init_latent),
             'density': [ais.log_fn_val]}[which])
    f0 = c.feed
    c.feed = lambda vals, dims: dict(f0(vals, dims), **c.extra_feed)
    return c


def ais(label, seed, tier, **kw):
    build = lambda: build_ais(label, seed, tier, **kw)
    c = build()
    races(c, build, c.sample_op)
    if kw['which'] == 'density':
        c.fact('evaluating the density changes no state', not [o for o in c.hb.order if o.type in WRITE], 'it writes')
    c.close()
    return c.obls


def build_reinforce(label, seed, tier, axis, baseline, vr, K):
    import zhusuan as zs
    c = StepCase(label, seed, trials=3)
    with c.graph.as_default():
        lps = c.ph('lp', ['B', 'A'], 'float32', 'real')
        zsd = {'z%d' % k: (c.ph('z%d' % k, ['B', 'A'], 'float32', 'real'), c.ph('lq%d' % k, ['B', 'A'], 'float32', 'real'))
               for k in range(K)}
        b = c.ph('bl', ['A'], 'float32', 'real') if baseline else None
        obj = zs.variational.elbo(lambda o: lps * 1., {}, zsd, axis=axis)
        r = obj.reinforce(variance_reduction=vr, baseline=b)
    c.costs = list(r) if isinstance(r, tuple) else [r]
    c.begin(c.costs)
    return c


def reinforce(label, seed, tier, **kw):
    build = lambda: build_reinforce(label, seed, tier, **kw)
    c = build()
    races(c, build, None)
    if kw['vr']:
        a = {o.name for o in HB([c.costs[0]]).order if o.type in WRITE}
        b = {o.name for o in c.hb.order if o.type in WRITE}
        c.fact('the cost alone performs every update', a == b and bool(a), 'updates with the cost alone: %s, all: %s' % (a, b))
    bad = any(o.status != 'proved' for o in c.obls)
    c.close()
    if bad:
        return c.obls
    from . import c11
    return c.obls + c11.one(label, seed, tier, kind='elbo.reinforce', form='mv', nlat=kw['K'], axis=kw['axis'], lshape=['B', 'A'],
                            mode='static', dtype='float32', vr=kw['vr'], bl=['A'] if kw['baseline'] else None)


def cases(tier, seed):
    lab = lambda kw: ','.join('%s=%s' % x for x in kw.items())
    SH = [([[3]], 0), ([[2, 3], [2]], 1), ([[2, 1, 3], [2, 1], [2, 1, 2, 2]], 2)]
    import zhusuan as zs
    optss = {'SGLD': [{}], 'PSGLD': [{}], 'SGHMC': [dict(second_order=False), dict(second_order=True)],
             'SGNHT': [dict(second_order=a, use_vector_alpha=b) for a in (False, True) for b in (False, True)]}
    hps = {'SGLD': [dict(learning_rate='pos'), dict(learning_rate=.125)], 'PSGLD': [dict(learning_rate='pos')],
           'SGHMC': [dict(learning_rate='pos', friction='gap', n_iter_resample_v='nit'), dict(learning_rate=.125, n_iter_resample_v=3),
                     dict(learning_rate='pos', friction=.5, n_iter_resample_v=None)],
           'SGNHT': [dict(learning_rate='pos', variance_extra='pos', tune_rate='pos', n_iter_resample_v='nit'),
                     dict(learning_rate=.125, variance_extra=.5, tune_rate=2., n_iter_resample_v=2), dict(learning_rate='pos')]}
    n = 0
    for alg in optss:
        for op in optss[alg]:
            for hp in hps[alg]:
                for s, nc in SH:
                    n += 1
                    kw = dict(alg=alg, shapes=s, nchain=nc, opts=op, form='fm'[n % 2], hp=hp)
                    yield '%s[%s]' % (alg, lab(kw)), sgmcmc, kw
    for s, nc in [([[3]], 0), ([[2, 3]], 1), ([[2, 3], [2]], 1), ([[2, 2, 1], [2, 2], [2, 2, 2]], 2)]:
        small = len(s) < 3
        for kw in (dict(), dict(n=2), dict(adapt='ph'), dict(adapt=True, n=1), dict(adapt='ph', mass='ph'), dict(adapt=True, mass=True, n=2),
                   dict(adapt=False, mass='ph')):
            kw = dict(kw, shapes=s, nchain=nc, values=small and (len(s) == 1 or not kw.get('mass')))
            yield 'HMC[%s]' % lab(kw), hmc, kw
    for which in ('sample', 'init', 'density'):
        for s, nc in SH[:2] + [([[2, 3]], 1)]:
            for a, m in ((0, 0), (1, 0), (1, 1)):
                kw = dict(shapes=s, nchain=nc, adapt=a, mass=m, which=which)
                yield 'AIS[%s]' % lab(kw), ais, kw
    for axis in (None, 0, [0], [0, 1]):
        for K in (1, 2):
            for baseline, vr in ((False, True), (True, True), (False, False)):
                kw = dict(axis=axis, baseline=baseline, vr=vr, K=K)
                yield 'reinforce[%s]' % lab(kw), reinforce, kw

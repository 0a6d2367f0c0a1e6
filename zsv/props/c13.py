"""C13: HMC adaptation follows the dual-averaging and moving-variance recursions."""
import numpy as np
from .. import hmcspec as hs, terms as tm
from ..env import tf
from ..graph import GraphEval

FUNCTIONS = ['zhusuan.hmc.' + f for f in (
    'StepsizeTuner.__init__/tune', 'ExponentialWeightedMovingVariance.__init__/update/get_precision/get_updated_precision/precision',
    'HMC.__init__', 'HMC._adapt_mass', 'HMC._init_step_size', 'HMC._adapt_step_size', 'HMC.sample')]
ASSUMPTIONS = [
    'Shrinkage point of the dual averaging is 10 times the initial step size, as coded (Hoffman and Gelman use its logarithm).',
    'target acceptance rate and mass decay in (0, 1); the collected variance is positive where it is used as a mass.',
    'One step is proved from an arbitrary adaptation state, so every history is covered by induction over steps.',
    'The step-size search loop is proved partially correct (no termination proof).']


def one(label, seed, tier, loops=True, **kw):
    c = hs.build(label, seed, tier, **kw)
    names = c.names
    s = hs.spec(c)
    i = c.info
    K = range(len(names))
    if c.mass is not None:
        for j in K:
            c.after('moving mean of %s' % names[j], c.vmean[j], s['mean', j])
            c.after('moving variance of %s' % names[j], c.vvar[j], s['var', j])
            c.reports('momentum of %s has the specified mass' % names[j], i.init_momentum[names[j]], s['p'][j])
        c.after('moving variance counter', c.vet, s['ewmv t'])
    c.after('iteration counter', c.vt, s['t'])
    x, ge = hs.after_p(c)
    s = c.full
    if loops:
        c.reports('energy of the proposal (step size and mass used)', i.hamiltonian, s['h1'], cut=(ge, x['h1']))
    c.reports('acceptance rate', i.acceptance_rate, s['acc'], cut=(ge, x['acc']))
    y, ge = hs.after_acc(c)
    c.reports('reported step size', i.updated_step_size, s['eps'], cut=(ge, y['eps']))
    c.after('step size', c.veps, s['eps'], cut=(ge, y['eps']))
    if c.adapt is not None:
        c.after('dual averaging: step count', c.vstep, s['step'], cut=(ge, y['step']))
        c.after('dual averaging: running error', c.vhb, s['h_bar'], cut=(ge, y['h_bar']))
        c.after('dual averaging: averaged log step size', c.vleb, s['leb'], cut=(ge, y['leb']))
    initial(c)
    for o in c.obls:
        if o.status in ('unsupported', 'differs') and c.notes:
            o.detail += ' | ' + '; '.join(c.notes[:2])[:300]
    c.replay()
    c.close()
    return c.obls


def initial(c):
    with c.graph.as_default():
        sess = c.session()
        vs = [('step size', c.veps, c.step0), ('iteration counter', c.vt, 0.)]
        if c.adapt is not None:
            vs += [('dual averaging step count', c.vstep, 0.), ('running error', c.vhb, 0.), ('averaged log step size', c.vleb, 0.)]
        if c.mass is not None:
            vs += [('moving variance counter', c.vet, 0.)]
            vs += [('moving mean', v, 0.) for v in c.vmean] + [('moving variance', v, 0.) for v in c.vvar]
        for n, v, want in vs:
            got = sess.run(v.initial_value)
            c.fact('%s starts at %s (%s)' % (n, want, v.op.name), bool(np.all(got == np.float32(want))), 'starts at %s' % (got,))


def reject(label, seed, tier):
    import zhusuan as zs
    from ..case import Case
    c = Case(label, seed)
    err = None
    with c.graph.as_default():
        try:
            zs.HMC(adapt_mass=True)
        except Exception as e:
            err = e
        c.fact('mass adaptation without step-size adaptation is rejected', isinstance(err, ValueError), 'got %r' % (err,))
        err = None
        try:
            zs.HMC().sample(lambda o: tf.reduce_sum(o['a']), {}, {'a': tf.zeros([3])})
        except Exception as e:
            err = e
        c.fact('a latent that is not a variable is rejected', isinstance(err, TypeError), 'got %r' % (err,))
    return c.obls


ALL = ['gamma', 't0', 'kappa', 'target_acceptance_rate', 'mass_collect_iters', 'mass_decay']


def cases(tier, seed):
    out = []
    SH = [([[3]], 0), ([[2, 3]], 1), ([[3, 2], [3]], 1), ([[]], 0), ([[2, 2, 3]], 2), ([[2]], 1)]
    for n, (s, nc) in enumerate(SH):
        out += [dict(shapes=s, nchain=nc, adapt='ph', hp=ALL[:4]),
                dict(shapes=s, nchain=nc, adapt='ph', mass='ph', hp=ALL, step_size=.5),
                dict(shapes=s, nchain=nc, adapt=bool(n % 2), mass='ph', hp=['mass_collect_iters'], n=2),
                dict(shapes=s, nchain=nc, adapt=not n % 2, mass=bool(n % 3), hp=dict(mass_collect_iters=[3, 0, 9, 10, 4, 1][n], gamma=.5), n=1),
                dict(shapes=s, nchain=nc, adapt=True, hp=dict(target_acceptance_rate=.7), n=1, step_size=.1)]
    for kw in out:
        yield 'adapt[%s]' % ','.join('%s=%s' % x for x in kw.items()), one, kw
    yield 'reject', reject, {}

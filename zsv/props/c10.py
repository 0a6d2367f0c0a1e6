"""C10: variational bounds and importance estimates have the defined values."""
import copy
import numpy as np
from .. import extreme
from .. import terms as tm, tensor as tn
from ..tensor import Ten, elementwise
from ..objspec import World, build

FUNCTIONS = ['zhusuan.variational.base.VariationalObjective.__init__/bn/tensor/_log_joint_term/_entropy_term/'
             '_validate_variational_inputs',
             'zhusuan.variational.exclusive_kl.EvidenceLowerBoundObjective._objective', 'zhusuan.variational.exclusive_kl.elbo',
             'zhusuan.variational.monte_carlo.ImportanceWeightedObjective._objective',
             'zhusuan.variational.monte_carlo.importance_weighted_objective', 'zhusuan.evaluation.is_loglikelihood',
             'zhusuan.utils.log_mean_exp', 'zhusuan.utils.merge_dicts', 'zhusuan.framework.bn.BayesianNet (through its C07/C08 contracts)']
ASSUMPTIONS = ['The model and the posterior are abstract: every log probability is an arbitrary array, keyed by the node '
               'and the value it is asked about; sizes are symbolic, ranks and numbers of latents (1 to 3) enumerated.']


def axes_of(axis, r):
    return [a % r for a in (axis if isinstance(axis, (list, tuple)) else [axis])]


def lognum(s):
    return elementwise(tm.log, s)


def spec_value(kind, P, Q, axis):
    lw = P if Q is None else elementwise(tm.sub, P, Q)
    if kind == 'elbo':
        return lw if axis is None else tn.reduce(lw, axes_of(axis, lw.rank), False, 'mean')
    return elementwise(tm.log, tn.reduce(elementwise(tm.exp, lw), axes_of(axis, lw.rank), False, 'mean'))


def check_calls(w, form, expected):
    """function form: called with exactly the samples and observations."""
    if form[0] != 'f':
        return
    bad = ''
    if not w.calls:
        bad = 'the log joint was never evaluated'
    for d in w.calls:
        if set(d) != set(expected):
            bad = 'evaluated on %s, expected %s' % (sorted(d), sorted(expected))
            break
        for k in expected:
            if w.reg.val(d[k]) != expected[k]:
                bad = 'node %s evaluated at %r, expected %r' % (k, w.reg.val(d[k]), expected[k])
    w.c.fact('the model is evaluated at the variational samples and the observations', not bad, bad)


def one(label, seed, tier, kind, form, nlat, axis, lshape, mode, extras=(), qshape=None, dtype='float64', first=()):
    import zhusuan as zs
    from .c11 import warm
    w = World(label, seed, mode, lshape, 3 if tier == 'quick' else 12, dtype, qshape)
    c = w.c
    model, observed, latent, variational, proles, qroles, expected = build(w, form, nlat, extras)
    obs0, lat0 = dict(observed), dict(latent) if latent is not None else None
    with c.graph.as_default():
        if kind == 'elbo':
            o = zs.variational.elbo(model, observed, latent=latent, variational=variational, axis=axis)
            warm(o, first, model, observed, latent, variational, axis)
            t = o.tensor
        elif kind == 'iw':
            o = zs.variational.importance_weighted_objective(model, observed, latent=latent, variational=variational,
                                                             axis=axis)
            warm(o, first, model, observed, latent, variational, axis)
            t = o.tensor
        elif kind == 'iwa':
            o = zs.variational.iw_objective(model, observed, latent=latent, variational=variational, axis=axis)
            t = o.tensor
        else:
            o = None
            warm(None, first, model, observed, latent, variational, axis)
            t = zs.is_loglikelihood(model, observed, latent=latent, proposal=variational, axis=axis)
        if o is not None:
            t2 = o.tensor
            c.fact('the objective has one value', t2 is t, 'two accesses give different tensors')
            c.fact('meta_bn / variational / bn report the objects in use',
                   (o.meta_bn is (None if form[0] == 'f' else model)) and o.variational is variational and
                   ((o.bn is None) == (form[0] == 'f')), 'wrong attributes')
            conv = zs.distributions and c.graph and __import__('tensorflow').convert_to_tensor(o)
            c.fact('converting the objective gives its value', conv is t or w.reg.val(conv) == w.reg.val(t), 'converted value differs')
    c.fact('the caller\'s dictionaries are left alone', 'forget' in first or observed == obs0 and latent == lat0, 'arguments were modified')
    check_calls(w, form, expected)
    P, Q = w.spec_sum(proles), w.spec_sum(qroles)
    if P is None or (Q is None and qroles):
        miss = [r for r in proles + qroles if r not in w.lp]
        c.fact('log p and log q are taken at the samples and the observations', False, 'never evaluated: %s; evaluated: %s' % (
            miss, sorted(map(repr, w.lp))))
        c.close()
        return c.obls
    spec = spec_value('elbo' if kind == 'elbo' else 'iw', P, Q, axis)
    c.prove('value is %s' % ('mean of log p - log q' if kind == 'elbo' else 'log mean exp of log p - log q'), t, spec)
    if kind != 'elbo':
        from .c11 import shifted
        with c.graph.as_default():
            shifted(c, t, [t], None, w.lp[proles[0]], 1.)
    if o is not None and form[0] == 'm':
        bad = ''
        b = o.bn
        for n, r in expected.items():
            if n not in b.nodes or w.reg.val(b.nodes[n]) != r:
                bad = 'node %s of .bn is %r, expected %r' % (n, w.reg.val(b.nodes[n]) if n in b.nodes else None, r)
        c.fact('.bn observes the samples and the observations', not bad, bad)
    c.close()
    return c.obls


def reject(label, seed, tier, what, kind, form='mv'):
    import zhusuan as zs
    import tensorflow as tf
    w = World(label, seed, 'dynamic', ['S', 'B'], 1)
    c = w.c
    mk = {'elbo': zs.variational.elbo, 'iw': zs.variational.importance_weighted_objective,
          'klpq': zs.variational.klpq, 'is': zs.is_loglikelihood}[kind]
    vk = 'proposal' if kind == 'is' else 'variational'

    def use(o):
        if kind == 'is':
            return
        if kind == 'klpq':
            o.importance()
        else:
            o.tensor
    err = None
    with c.graph.as_default():
        model, observed, latent, variational, proles, qroles, expected = build(w, form, 2, ())
        kw = dict(latent=latent, axis=0)
        kw[vk] = variational
        want = ValueError
        if what == 'no_posterior':
            @zs.meta_bayesian_net()
            def p():
                bn = zs.BayesianNet()
                for z in ('z0', 'free', 'z1', 'x'):
                    bn.stochastic(z, w.dist('p:' + z, w.lshape))
                return bn
            model = p()
        elif what == 'no_posterior_last':
            @zs.meta_bayesian_net()
            def p():
                bn = zs.BayesianNet()
                for z in ('z0', 'z1', 'x', 'free'):
                    bn.stochastic(z, w.dist('p:' + z, w.lshape))
                return bn
            model = p()
        elif what == 'unobserved_data':
            observed = {}
        elif what == 'both':
            kw['latent'] = {'z0': (w.value(('v',)), w.logp(('q',), w.lshape))}
        elif what == 'neither':
            kw['latent'] = kw[vk] = None
        elif what == 'bad_type':
            kw[vk] = object()
            want = TypeError
        elif what == 'no_axis':
            kw['axis'] = None
        try:
            use(mk(model, observed, **kw))
        except Exception as e:
            err = e
    c.fact('%s is rejected' % what, isinstance(err, want), 'got %r, expected %s' % (err, want.__name__))
    c.close()
    return c.obls


def noq(label, seed, tier, axis, form):
    """A posterior without latents: the ELBO is the log joint."""
    import zhusuan as zs
    w = World(label, seed, 'dynamic', ['S', 'B'], 2)
    c = w.c
    model, observed, latent, variational, proles, qroles, expected = build(w, form, 0, ('qobs',))
    with c.graph.as_default():
        o = zs.variational.elbo(model, observed, variational=variational, axis=axis)
        t = o.tensor
    check_calls(w, form, expected)
    P = w.spec_sum(proles)
    if P is None:
        c.fact('log p is taken at the observations', False, 'never evaluated')
    else:
        c.prove('value is the mean log joint', t, spec_value('elbo', P, None, axis))
    c.close()
    return c.obls


def cases(tier, seed):
    for ax in (0, 1):
        yield 'extreme[is_loglikelihood,axis=%d]' % ax, extreme.objective, dict(which='is', axis=ax)
    out = []
    n = 0
    modes = ('static', 'dynamic', 'unknown')
    for kind in ('elbo', 'iw', 'iwa', 'is'):
        for form in ('fl', 'fv', 'ml', 'mv'):
            for nlat in (1, 2, 3):
                for ls, axs in ((['S'], [0, -1]), (['S', 'B'], [0, 1, -1, -2, [0, 1], (0,)]),
                                (['S', 'B', 'A'], [0, 1, 2, -2, [0, 2]])):
                    for axis in axs + ([None] if kind == 'elbo' else []):
                        for extras in ((), ('two_obs', 'qobs', 'qdet', 'pdet', 'tuple')):
                            n += 1
                            if tier == 'quick' and kind == 'iwa' and n % 5:
                                continue
                            out.append(dict(kind=kind, form=form, nlat=nlat, axis=axis, lshape=ls, mode=modes[n % 3],
                                            extras=extras))
    for kind in ('elbo', 'iw', 'is'):
        for form in ('fl', 'fv', 'ml', 'mv'):
            for mode in modes:
                out.append(dict(kind=kind, form=form, nlat=2, axis=0, lshape=['S', 'B'], mode=mode, extras=('bc',), qshape=['S', 1]))
                out.append(dict(kind=kind, form=form, nlat=2, axis=1, lshape=['S', 'B'], mode=mode, extras=('bc',), qshape=['S', 'B']))
                out.append(dict(kind=kind, form=form, nlat=2, axis=0, lshape=['S', 'B'], mode=mode, dtype='float32'))
    for kind in ('elbo', 'iw', 'iwa', 'is'):
        for form in ('fv', 'mv'):
            for nlat in (1, 2):
                for axis in (0, 1):
                    n += 1
                    out.append(dict(kind=kind, form=form, nlat=nlat, axis=axis, lshape=['S', 'B'], mode=modes[n % 3],
                                    extras=('qshadow', 'two_obs')))
    for kind, fs in (('elbo', (('reinforce',), ('baseline', 'sgvb'), ('other',), ('forget',))), ('iw', (('vimco',), ('forget',), ('sgvb', 'operators'), ('other',))),
                     ('is', (('other',),))):
        for first in fs:
            for form in ('fl', 'fv', 'ml', 'mv'):
                n += 1
                out.append(dict(kind=kind, form=form, nlat=2, axis=n % 2, lshape=['S', 'B'], mode=modes[n % 3],
                                extras=('two_obs', 'qobs', 'qdet', 'pdet', 'tuple')[:n % 6], dtype='float32', first=first))
    for kw in out:
        yield '%s[%s]' % (kw['kind'], ','.join('%s=%s' % i for i in kw.items() if i[0] != 'kind')), one, kw
    for kind in ('elbo', 'iw', 'klpq', 'is'):
        for what in ('no_posterior', 'no_posterior_last', 'unobserved_data', 'both', 'neither', 'bad_type') + (
                ('no_axis',) if kind in ('iw', 'is') else ()):
            for form in (('mv', 'ml') if what.startswith(('no_p', 'un')) else ('mv',)):
                yield 'reject[%s,%s,%s]' % (kind, what, form), reject, dict(what=what, kind=kind, form=form)
    for form in ('fv', 'mv'):
        for axis in (None, 0, 1):
            yield 'elbo without latents[%s,%s]' % (form, axis), noq, dict(axis=axis, form=form)

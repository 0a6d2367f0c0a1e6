"""C11: surrogate costs have exactly the documented gradient estimators.

The cost is evaluated over a live and a frozen copy of every input (split.py);
its gradient is the derivative with respect to the live copy.  A cost whose
split value equals the documented surrogate has the documented gradient."""
import time
import traceback
import warnings
import numpy as np
from .. import terms as tm, tensor as tn
from ..case import js
from ..env import tf
from ..objspec import World, build
from ..split import Split, SplitStep, fz
from ..step import StepEval
from ..tensor import Ten, Unsupported, ShapeError, elementwise as E
from ..terms import ival, const
from ..world import StepCase
from ..bnspec import ADist
from .. import extreme
from .c05 import live
from .c10 import axes_of, check_calls

FUNCTIONS = ['zhusuan.variational.exclusive_kl.EvidenceLowerBoundObjective.sgvb/reinforce/_objective',
             'zhusuan.variational.monte_carlo.ImportanceWeightedObjective.sgvb/vimco/_objective',
             'zhusuan.variational.inclusive_kl.InclusiveKLObjective.importance/rws',
             'zhusuan.variational.base.VariationalObjective._log_joint_term/_entropy_term', 'zhusuan.utils.log_mean_exp',
             'tensorflow moving_averages.assign_moving_average (its graph is part of the step)']
ASSUMPTIONS = ['tf.gradients is the derivative of the split value with respect to the live copy (compared with central differences of '
               'the specification at run time).',
               'Log probabilities are arbitrary arrays plus an arbitrary linear dependence on the value they are asked about, so '
               'gradient that should or should not flow through a sample is seen.',
               'vimco takes a single axis of size at least 2 (its own precondition).',
               'Numbers of latents 1 to 3 and ranks 1 to 3 enumerated, sizes symbolic.']


class GWorld(World):
    def __init__(self, *a, **kw):
        World.__init__(self, *a, cls=StepCase, **kw)
        self.links = {}
        self.nu = 0
        self.vname = {}

    def value(self, role, dtype=None):
        n = 'v%d' % self.k
        self.k += 1
        t = self.c.ph(n, ['D'], self.dtype)
        self.reg.role[t] = role
        self.vname[role] = n
        return t

    def linked(self, role, shape, givens):
        """an arbitrary log probability that depends on the values `givens`"""
        if role in self.links:
            return self.links[role][0]
        t = World.logp(self, role, shape)
        ls = []
        for g in givens:
            u = 'u%d' % self.nu
            self.nu += 1
            ut = self.c.ph(u, [], self.dtype)
            gt = tf.convert_to_tensor(g)
            r = self.reg.val(gt)
            ls.append((u, r))
            t = t + ut * tf.reduce_sum(gt)
        self.reg.role[t] = role
        self.links[role] = (t, ls)
        return t

    def dist(self, tag, shape):
        w = self

        class D(ADist):
            def sample(self, n_samples=None):
                self.k += 1
                return w.value(('sample', tag, self.k))

            def log_prob(self, given):
                return w.linked(('lp', tag, w.reg.val(given)), shape, [given])
        with self.c.graph.as_default():
            return D(self.reg, tag, getattr(tf, self.dtype))

    def spec_sum(self, roles, frozen=False):
        tot = None
        rn = (lambda n: fz(n)) if frozen else (lambda n: n)

        def inp(n):
            d = self.c.inputs[n]['ten']
            return Ten(d.shape, lambda *i: tm.rd(rn(n), i, 'R'), d.dtype)
        for r in roles:
            if r not in self.lp:
                return None
            x = inp(self.lp[r])
            for u, vr in self.links.get(r, (None, ()))[1]:
                if vr not in self.vname:
                    return None
                s = tn.reduce(inp(self.vname[vr]), [0], False, 'sum')
                x = E(tm.add, x, E(tm.mul, inp(u), s))
            tot = x if tot is None else E(tm.add, tot, x)
        return tot


def gbuild(w, form, nlat, extras):
    """like objspec.build, with a function model that depends on its arguments"""
    model, observed, latent, variational, proles, qroles, expected = build(w, form, nlat, extras)
    if form[0] == 'f':
        def model(obs):
            w.calls.append(dict(obs))
            return w.linked(('joint',), w.lshape, [obs[k] for k in sorted(obs)])
    return model, observed, latent, variational, proles, qroles, expected


def sub(a, b): return E(tm.sub, a, b)
def mul(a, b): return E(tm.mul, a, b)
def neg(a): return E(tm.neg, a)
def red(a, axes, how, keep=False): return tn.reduce(a, axes, keep, how)


def lme(x, axes, keep=False):
    return E(tm.log, red(E(tm.exp, x), axes, 'mean', keep))


def vimco_signal(x, a):
    """lme(x) minus its value with x_j replaced by the mean of the others"""
    S = x.shape[a]
    n1 = tm.sub(tm.toR(S), const(1))
    tot = red(x, [a], 'sum', True)
    m = E(lambda s, y: tm.div(tm.sub(s, y), n1), tot, x)
    ex = red(E(tm.exp, x), [a], 'sum', True)
    loo = E(lambda s, y, z: tm.log(tm.div(tm.add(tm.sub(s, tm.exp(y)), tm.exp(z)), tm.toR(S))), ex, x, m)
    return sub(lme(x, [a], True), loo)


def spec_cost(kind, P, Q, Pf, Qf, axis, opt):
    """documented surrogate; f: held constant"""
    lw = sub(P, Q)
    ax = None if axis is None else axes_of(axis, lw.rank)
    mean = lambda x: x if ax is None else red(x, ax, 'mean')
    if kind == 'elbo.sgvb':
        return [neg(mean(lw))]
    if kind == 'iw.sgvb':
        return [neg(lme(lw, ax))]
    lwf = sub(Pf, Qf)
    if kind == 'iw.vimco':
        s = vimco_signal(lwf, ax[0])
        return [sub(neg(lme(lw, ax)), red(mul(Q, s), ax, 'sum'))]
    if kind in ('klpq.importance', 'klpq.rws'):
        if ax is None:
            return [neg(Q)]
        e = E(tm.exp, lwf)
        wt = E(tm.div, e, red(e, ax, 'sum', True))
        return [neg(red(mul(wt, Q), ax, 'sum'))]
    sig = lwf
    if opt.get('bl') is not None:
        sig = sub(sig, opt['blf'])
    if opt['vr']:
        sig = sub(sig, opt['mm'])
    # the part of the cost that carries gradient
    cost = mean(sub(neg(P), mul(sig, Q)))
    if opt.get('bl') is not None:
        return [cost, mean(mul(Ten([], lambda: tm.const('1/2') if False else tm.div(const(1), const(2)), P.dtype),
                               E(tm.square, sub(lwf, opt['bl']))))]
    return [cost]


def one(label, seed, tier, kind, form, nlat, axis, lshape, mode, extras=(), qshape=None, dtype='float64', vr=True, bl=None, decay=None, first=()):
    import zhusuan as zs
    warnings.filterwarnings('ignore')
    w = GWorld(label, seed, mode, lshape, 2 if tier == 'quick' else 8, dtype, qshape)
    c = w.c
    if kind == 'iw.vimco':
        c.facts.dimlo[lshape[axis]] = 2
    model, observed, latent, variational, proles, qroles, expected = gbuild(w, form, nlat, extras)
    V = zs.variational
    mk = {'elbo': V.elbo, 'iw': V.importance_weighted_objective, 'klpq': V.klpq}[kind.split('.')[0]]
    opt = dict(vr=vr)
    with c.graph.as_default():
        o = mk(model, observed, latent=latent, variational=variational, axis=axis)
        m = kind.split('.')[1]
        warm(o, first, model, observed, latent, variational, axis)
        before = set(tf.global_variables())
        if m == 'reinforce':
            kw = {}
            if bl is not None:
                kw['baseline'] = c.ph('bl', bl, dtype)
            if decay == 'ph':
                kw['decay'] = c.ph('decay', [], 'float32', 'unit')
                opt['decay'] = c.ten('decay')
            else:
                dv = decay or 0.8
                if decay:
                    kw['decay'] = decay
                from .c14 import _fc
                opt['decay'] = _fc(dv)
            if not vr:
                kw['variance_reduction'] = False
            r = o.reinforce(**kw)
        else:
            r = getattr(o, m)()
        new = [v for v in tf.global_variables() if v not in before]
    costs = list(r) if isinstance(r, (tuple, list)) else [r]
    c.fact('one cost, and a baseline cost iff a baseline is given', len(costs) == (2 if bl is not None and vr else 1), '%d costs' % len(costs))
    check_calls(w, form, expected)
    with c.graph.as_default():
        ps = [d['tensor'] for n, d in c.inputs.items() if d['tensor'] is not None and d['dom'] == 'real']
        wts = [tf.placeholder(x.dtype, None) for x in costs]
        grads = []
        for x, wt in zip(costs, wts):
            try:
                grads.append(tf.gradients(tf.reduce_sum(x * wt), ps))
            except Exception as e:
                grads.append(e)
    c.begin(costs)
    P, Q = w.spec_sum(proles), w.spec_sum(qroles)
    if P is None or Q is None:
        c.fact('log p and log q are taken at the samples and the observations', False, 'evaluated: %s' % sorted(map(repr, w.lp)))
        c.close()
        return c.obls
    Pf, Qf = w.spec_sum(proles, True), w.spec_sum(qroles, True)
    mm = biased = lstep = None
    if kind == 'elbo.reinforce' and vr:
        for v in new:
            leaf = v.op.name.split('/')[-1]
            if leaf.startswith('biased'):
                biased = v
            elif leaf.startswith('local_step'):
                lstep = v
            else:
                mm = v
        ok = mm is not None and biased is not None and lstep is not None and len(new) == 3
        c.fact('the state is a zero-debiased moving mean', ok, 'variables: %s' % [v.op.name for v in new])
        if not ok:
            c.close()
            return c.obls
        c.fact('the moving mean is not trainable', not set(new) & set(c.graph.get_collection('trainable_variables')), 'trainable')
        opt['mm'] = c.vten(mm)
        c.facts.tprop['var:' + lstep.op.name] = {'nonneg', 'int'}
        c.vdom[lstep.op.name] = lambda rng, sh, tr: np.asarray([2., 0., 7., 1.][tr % 4])
    elif kind == 'elbo.reinforce':
        c.fact('no state without variance reduction', not new, 'variables: %s' % [v.op.name for v in new])
    if bl is not None:
        d = c.ten('bl')
        opt['bl'] = d if vr else None
        opt['blf'] = Ten(d.shape, lambda *i: tm.rd(fz('bl'), i, 'R'), d.dtype)
    try:
        specs = spec_cost(kind, P, Q, Pf, Qf, axis, opt)
    except ShapeError as e:
        c.fact('documented surrogate is well shaped', False, str(e))
        return c.obls
    names = ['cost', 'baseline cost']
    for i, (x, sp) in enumerate(zip(costs, specs)):
        gradient(c, 'gradient of the %s is the documented estimator' % names[i], x, sp, ps, wts[i], grads[i])
    if kind in ('iw.sgvb', 'iw.vimco', 'klpq.importance', 'klpq.rws'):
        with c.graph.as_default():
            shifted(c, costs[0], [g for g in grads[0] if g is not None] if not isinstance(grads[0], Exception) else [], wts[0],
                    w.lp[proles[0]])
    if mm is not None:
        l = sub(P, Q)
        if bl is not None:
            l = sub(l, opt['bl'])
        bc = red(l, list(range(l.rank)), 'mean')
        d = opt['decay']
        nb = E(lambda b, v, r: tm.add(tm.mul(r, b), tm.mul(tm.sub(const(1), r), v)), c.vten(biased), bc, d)
        ns = E(lambda t: tm.add(t, const(1)), c.vten(lstep))
        nm = E(lambda b, t, r: tm.div(b, tm.sub(const(1), tm.powt(r, t))), nb, ns, d)
        c.after('biased moving mean decays as configured', biased, nb)
        c.after('update count', lstep, ns)
        c.after('moving mean of the learning signal', mm, nm)
        for v in (mm, biased, lstep):
            with c.graph.as_default():
                c.fact('%s starts at 0' % v.op.name.split('/')[-1], float(c.session().run(v.initial_value)) == 0., 'other start')
        c.replay()
    c.close()
    return c.obls


def warm(o, first, *args):
    """a history of calls on the same objective (or another one over the same nets) that must not matter"""
    import zhusuan as zs
    V = zs.variational
    model, observed, latent, variational, axis = args
    for f in first:
        if f == 'forget':       # the caller reuses its dictionaries once the objective is built
            for d in (observed, latent):
                if d is not None:
                    d.clear()
        elif f == 'other':
            for mk, ms in ((V.elbo, ('tensor', 'sgvb')), (V.importance_weighted_objective, ('vimco', 'sgvb')), (V.klpq, ('importance',))):
                x = mk(model, observed, latent=latent, variational=variational, axis=axis)
                for m in ms:
                    use(x, m)
        else:
            use(o, f)


def use(o, m):
    if m == 'tensor':
        return o.tensor
    if m == 'operators':
        return o + 1., -o, 2. * o
    if m == 'baseline':
        with tf.variable_scope('warm', reuse=tf.AUTO_REUSE):
            return o.reinforce(baseline=tf.get_variable('b', [], tf.float32), decay=.3)
    if m == 'reinforce':
        with tf.variable_scope('warm', reuse=tf.AUTO_REUSE):
            return o.reinforce()
    return getattr(o, m)()


def gradient(c, name, cost, spec, ps, wt, grads):
    o = c.obl(name)
    t0 = time.time()
    try:
        S = SplitStep(c.hb, live(c), live(c, ()), c.state, c.abstract)
        v = S.ten(cost)
        c._prove_ten(o, v, spec, c.facts)
        if o.status != 'proved' and v.rank == spec.rank:
            # up to terms that carry no gradient
            F = S.frozen.ten(cost)
            names = {n for n, d in c.inputs.items() if d['tensor'] is not None}
            from ..split import rename
            sf = Ten(spec.shape, lambda *i: rename(spec.at(*i), names), spec.dtype)
            o2 = c.obl(name)
            c.obls.pop()
            c._prove_ten(o2, sub(v, F), sub(spec, sf), c.facts)
            if o2.status == 'proved':
                o.status, o.detail, o.regions, o.used, o.backend = 'proved', '', o2.regions, o2.used, o2.backend
        if o.status == 'proved':
            o.backend = 'split value: ' + o.backend
    except Unsupported as e:
        o.status, o.detail = 'unsupported', 'Unsupported: %s' % e
    except ShapeError as e:
        o.status, o.detail = 'differs', 'ill-shaped: %s' % e
    except Exception:
        o.status, o.detail = 'unsupported', 'engine: ' + traceback.format_exc(limit=-3)
    try:
        replay(c, o, cost, spec, ps, wt, grads)
    except Exception:
        o.detail += ' [replay: %s]' % traceback.format_exc(limit=-2)
    o.time_s = time.time() - t0
    if o.status == 'differs' and o.numeric and 'ill-shaped' not in o.detail:
        o.status = 'bounded'


def replay(c, o, cost, spec, ps, wt, grads):
    """real tf.gradients against central differences of the specification in its live copy"""
    if isinstance(grads, Exception):
        o.status, o.detail, o.cex = 'refuted', 'tf.gradients fails: %s' % grads, dict(kind='exception', error=str(grads)[:500])
        return
    name = {d['tensor']: n for n, d in c.inputs.items() if d['tensor'] is not None}
    for trial in range(c.trials):
        dims, vals, sv, noise, fd = c.run_once(trial)
        env0 = dict({'var:' + k: x for k, x in sv.items()})
        froz = {fz(n): x for n, x in vals.items()}
        f = lambda vs: c.spec_array(spec, dims, c.env(dict(vs, **froz), dims, env0))
        base = f(vals)
        W = c.rng.normal(size=base.shape).astype(cost.dtype.name)
        fd[wt] = W
        with c.graph.as_default():
            c.load(c.session(), sv)
            try:
                val = c.session().run(cost, fd)
            except Exception as e:
                o.status, o.detail = 'refuted', 'the real code fails at run time: %s' % str(e)[:300]
                o.cex = dict(kind='runtime-error', error=str(e)[:600], inputs=js(vals))
                return
            if val.shape != base.shape:
                o.status, o.detail = 'refuted', 'cost has shape %s, documented %s' % (val.shape, base.shape)
                o.cex = dict(kind='shape', got=list(val.shape), want=list(base.shape), inputs=js(vals))
                return
            c.load(c.session(), sv)
            live_g = [g for g in grads if g is not None]
            got = iter(c.session().run(live_g, fd))
        for t, g in zip(ps, grads):
            n = name[t]
            x0 = np.asarray(vals[n], float)
            real = np.zeros(x0.shape) if g is None else np.asarray(next(got), float).reshape(x0.shape)
            flat = x0.reshape(-1)
            sel = list(range(flat.size))
            if flat.size > 4:
                sel = sorted(c.rng.choice(flat.size, 4, replace=False))
            for k in sel:
                h = 1e-5 * max(1., abs(flat[k]))
                d = []
                for s in (h, -h):
                    y = flat.copy()
                    y[k] += s
                    d.append(np.sum(f(dict(vals, **{n: y.reshape(x0.shape)})) * W.astype(float)))
                want = (d[0] - d[1]) / (2 * h)
                r = real.reshape(-1)[k]
                rt = 1e-4 if cost.dtype.name == 'float64' else 5e-3
                o.numeric += 1
                if not abs(r - want) <= rt * (1 + abs(want) + np.max(np.abs(real))):
                    o.status = 'refuted'
                    o.detail = 'gradient with respect to %s%s is %r, documented %r' % (n, np.unravel_index(k, x0.shape), r, want)
                    o.cex = dict(kind='gradient', wrt=n, index=int(k), got=float(r), want=float(want), inputs=js(vals), state=js(sv),
                                 weights=W.tolist())
                    return


def shifted(c, cost, fetches, wt, lname, delta=0.):
    """Log weights of any size: no exponential of a positive number, and adding a
    constant to all log weights changes the fetched values by exactly delta times it."""
    from .c17 import no_overflow
    n0 = len(c.obls)
    no_overflow(c, cost)
    o = c.obl('large log weights do not overflow')
    o.kind = 'runtime'
    for trial in range(2):
        if hasattr(c, 'run_once'):
            dims, vals, sv, noise, fd = c.run_once(trial)
        else:
            dims, vals = c.gen(trial)
            fd = c.feed(vals, dims)
        if wt is not None:
            fd[wt] = np.asarray(1., cost.dtype.name)
        base = c.session().run(fetches, fd)
        for k in (2000., -2000.):
            f2 = dict(fd)
            f2[c.inputs[lname]['tensor']] = (vals[lname] + k).astype(vals[lname].dtype)
            got = c.session().run(fetches, f2)
            tol = 1e-6 if cost.dtype.name == 'float64' else 2e-2
            o.numeric += 1
            for a, b in zip(base, got):
                if not np.all(np.abs(np.asarray(b, float) - a - delta * k) <= tol * (1 + np.abs(a) + np.max(np.abs(a)) + abs(delta))):
                    o.status, o.detail = 'refuted', 'with %+g added to every log weight: %s instead of %s' % (
                        k, np.ravel(b)[:4], np.ravel(np.asarray(a) + delta * k)[:4])
                    o.cex = dict(kind='value', shift=k, inputs=js(vals), got=np.ravel(b)[:16].tolist(), want=np.ravel(np.asarray(a) + delta * k)[:16].tolist())
                    return
    proved = all(x.status == 'proved' for x in c.obls[n0:-1])
    o.status = 'proved' if proved else 'bounded'
    if o.status == 'proved':
        o.backend, o.kind = 'follows from the Exp bounds above', 'vc'
    else:
        for x in c.obls[n0:-1]:
            if x.status == 'unsupported':
                x.status, x.numeric = 'bounded', o.numeric


def reject(label, seed, tier, static, axis):
    import zhusuan as zs
    w = GWorld(label, seed, 'dynamic', ['S', 'B'], 1)
    c = w.c
    err = None
    sh = [2, 3]
    sh[axis] = 1
    with c.graph.as_default():
        lp = tf.placeholder(tf.float32, sh if static else [None, None])
        lq = tf.placeholder(tf.float32, sh if static else [None, None])
        try:
            o = zs.variational.importance_weighted_objective(lambda d: lp, {}, latent={'z': [lq, lq]}, axis=axis).vimco()
            c.session().run(o, {lp: np.zeros(sh, 'float32'), lq: np.zeros(sh, 'float32')})
        except Exception as e:
            err = e
    want = ValueError if static else tf.errors.InvalidArgumentError
    c.fact('vimco on a single sample is rejected', isinstance(err, want), 'got %r' % (err,))
    c.close()
    return c.obls


def cases(tier, seed):
    out = []
    n = 0
    modes = ('static', 'dynamic', 'unknown')
    ex = ('two_obs', 'qobs', 'qdet', 'pdet', 'tuple')
    SH = ((['S'], [0, -1]), (['S', 'B'], [0, 1, -1, [0, 1], (0,)]), (['S', 'B', 'A'], [0, 1, 2, -2, [0, 2]]))
    for kind in ('elbo.sgvb', 'iw.sgvb', 'klpq.importance', 'klpq.rws', 'iw.vimco'):
        for form in ('fl', 'fv', 'ml', 'mv'):
            for nlat in (1, 2, 3):
                for ls, axs in SH:
                    for axis in axs + ([None] if kind[0] in 'ek' else []):
                        if kind == 'iw.vimco' and isinstance(axis, (list, tuple)):
                            continue
                        n += 1
                        if tier == 'quick' and (kind == 'klpq.rws' and n % 7 or (nlat == 3 and n % 2)):
                            continue
                        out.append(dict(kind=kind, form=form, nlat=nlat, axis=axis, lshape=ls, mode=modes[n % 3], extras=ex if n % 2 else ()))
    for form in ('fl', 'fv', 'ml', 'mv'):
        for nlat in (1, 2):
            for ls, axs in SH:
                for axis in axs + [None]:
                    for vr, bl, decay in ((True, None, None), (True, 'full', 'ph'), (True, 'last', .5), (True, [], None), (False, None, None),
                                          (True, None, 'ph'), (False, 'full', None)):
                        n += 1
                        if tier == 'quick' and n % 3 and not (form == 'mv' and nlat == 2):
                            continue
                        b = {'full': ls, 'last': ls[-1:], None: None}.get(bl if not isinstance(bl, list) else 'x', [])
                        out.append(dict(kind='elbo.reinforce', form=form, nlat=nlat, axis=axis, lshape=ls, mode=modes[n % 3],
                                        extras=ex if n % 2 else (), dtype='float32', vr=vr, bl=b, decay=decay))
    for kind in ('elbo.sgvb', 'iw.sgvb', 'klpq.importance', 'iw.vimco', 'elbo.reinforce'):
        for form in ('fl', 'mv'):
            for mode in modes:
                dt = 'float32' if 'rein' in kind else 'float64'
                out.append(dict(kind=kind, form=form, nlat=2, axis=0, lshape=['S', 'B'], mode=mode, extras=('bc',), qshape=['S', 1], dtype=dt))
                out.append(dict(kind=kind, form=form, nlat=1, axis=0, lshape=['S', 'B'], mode=mode, qshape=['S', 'B'], dtype='float32'))
    seqs = {'elbo.sgvb': (('tensor',), ('reinforce',), ('baseline', 'sgvb', 'other')), 'iw.sgvb': (('vimco',), ('tensor', 'vimco', 'other')),
            'klpq.importance': (('importance',), ('rws', 'other')), 'iw.vimco': (('sgvb',), ('forget',), ('vimco', 'operators', 'other')),
            'elbo.reinforce': (('tensor',), ('forget',), ('sgvb', 'operators'), ('baseline',), ('reinforce', 'sgvb', 'other'))}
    for kind, fs in sorted(seqs.items()):
        for first in fs:
            for form in ('fl', 'fv', 'ml', 'mv'):
                n += 1
                out.append(dict(kind=kind, form=form, nlat=2, axis=n % 2, lshape=['S', 'B'], mode=modes[n % 3], extras=ex if n % 2 else (),
                                dtype='float32', first=first, **(dict(bl=['S', 'B'], vr=True) if 'reinf' in kind and n % 2 else {})))
    for kw in out:
        yield '%s[%s]' % (kw['kind'], ','.join('%s=%s' % i for i in kw.items() if i[0] != 'kind')), one, kw
    for wh in ('sgvb', 'vimco', 'importance'):
        for ax in (0, 1):
            yield 'extreme[%s,axis=%d]' % (wh, ax), extreme.objective, dict(which=wh, axis=ax)
    for st in (True, False):
        for ax in (0, 1, -1, -2):
            yield 'vimco one sample[static=%s,axis=%d]' % (st, ax), reject, dict(static=st, axis=ax)

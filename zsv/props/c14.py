"""C14: stochastic-gradient MCMC updates follow their published equations."""
import itertools
import numpy as np
from .. import terms as tm, tensor as tn
from ..env import tf
from ..graph import GraphEval
from ..tensor import Ten, elementwise
from ..terms import ival, const
from ..case import Broken
from ..world import StepCase, LJ

FUNCTIONS = ['zhusuan.sgmcmc.SGMCMC.__init__/_make_grad_func/_apply_updates/sample', 'zhusuan.sgmcmc.SGLD._update/_update_single',
             'zhusuan.sgmcmc.PSGLD._define_variables/_update/_update_single', 'zhusuan.sgmcmc.PSGLD.RMSPreconditioner',
             'zhusuan.sgmcmc.SGHMC._define_variables/_update', 'zhusuan.sgmcmc.SGNHT._define_variables/_update']
ASSUMPTIONS = ['The log joint is an uninterpreted function of all latent values and its gradients are uninterpreted functions '
               'G_k; tf.gradients is assumed to return the registered gradient.',
               'Latent shapes are static (the code requires it); ranks and sizes enumerated, element indices symbolic.',
               'random_normal is standard_normal * stddev + mean with independent standard normal entries (operator contract).']

E = elementwise


def lift(f, *xs):
    return E(f, *xs)


def sc(t, v):
    """scalar tensor from term"""
    return Ten([], lambda: v, t)


def add(a, b): return E(tm.add, a, b)
def sub(a, b): return E(tm.sub, a, b)
def mul(a, b): return E(tm.mul, a, b)
def sqrt(a): return E(tm.sqrt, a)
def exp(a): return E(tm.exp, a)
def k(x): return Ten([], lambda: const(x), 'float32')
def sq(a): return E(tm.square, a)


def mean(a):
    return tn.reduce(a, list(range(a.rank)), False, 'mean')


def where(c, a, b):
    return Ten(a.shape, lambda *i: tm.ite(c.at(), a.at(*i), b.at(*i)), a.dtype)


def noise_names(ten):
    from ..norm import bvar
    t = ten.at(*[ival(0) if tm.isc(s, 1) else bvar('i', s) for s in ten.shape])
    # draws that enter directly, not through the abstract gradient of another position
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, tm.T) and x not in seen and x.op != 'app':
            seen.add(x)
            if x.op == 'rd' and x.args[0].startswith('noise:'):
                out.add(x.args[0])
            todo.extend(x.args)
    return sorted(out)


class Duck(object):
    """a model object: observe(**obs).log_joint()"""

    def __init__(self, f):
        self.f = f

    def observe(self, **obs):
        f = self.f

        class R(object):
            def log_joint(self):
                return f(obs)
        return R()


class State(object):
    """the sampler's own variables: by attribute, else by creation order"""

    def __init__(self, c, alg):
        n = len(c.qs)
        with c.graph.as_default():
            own = [v for v in tf.global_variables() if v not in c.qs]
        fl = [v for v in own if v.dtype.base_dtype.is_floating]
        self.t = getattr(alg, 't', None)
        if self.t is None:
            self.t = [v for v in own if v.dtype.base_dtype.is_integer][0]
        self.vs = list(getattr(alg, 'vs', None) or fl[:n])
        self.alphas = list(getattr(alg, 'alphas', None) or [v for v in fl if v not in self.vs][:n])


def build(label, seed, tier, alg, shapes, nchain, opts, form, hp, slow=0.):
    import zhusuan as zs
    c = StepCase(label, seed, trials=3 if tier == 'quick' else 10)
    names = ['w%d' % i for i in range(len(shapes))]
    c.names = names
    lj = c.lj = LJ(c, names, shapes, nchain, slow=slow)
    with c.graph.as_default():
        vs = [tf.Variable(tf.zeros(s), name=n) for n, s in zip(names, shapes)]
        c.qs = vs
        kw, T = {}, {}
        for n, dom in hp.items():
            if isinstance(dom, str):
                if dom == 'gap':            # friction = variance_estimate + gap, gap > 0
                    g = c.ph('gap', [], 'float32', 'pos')
                    b = c.ph('variance_estimate', [], 'float32', 'pos')
                    kw[n], kw['variance_estimate'] = g + b, b
                    T['variance_estimate'] = c.ten('variance_estimate')
                    T[n] = add(c.ten('gap'), c.ten('variance_estimate'))
                    continue
                if dom == 'nit':
                    kw[n] = c.ph(n, [], 'int32', 'count')
                else:
                    kw[n] = c.ph(n, [], 'float32', dom)
                T[n] = c.ten(n)
            else:
                kw[n] = dom
                if n == 'n_iter_resample_v':
                    T[n] = Ten([], lambda: ival(dom or 0), 'int32') if False else _ic(dom)
                else:
                    T[n] = _fc(dom)
        kw.update(opts)
        c.T = T
        alg_o = getattr(zs, alg)(**kw)
        c.alg0 = alg_o
        xobs = tf.placeholder(tf.float32, [None], name='xobs')
        c.xobs = xobs
        model = lj if form == 'f' else Duck(lj)
        c.latent = dict(zip(names, vs))
        c.observed = {'x': xobs}
        ret = alg_o.sample(model, c.observed, c.latent)
        if not isinstance(ret, tuple) or len(ret) != 2 or not isinstance(ret[1], tuple) or not all(isinstance(x, dict) for x in ret[1]):
            raise Broken('%s.sample returns %r, documented an operation and a tuple of dictionaries' % (alg, ret))
        c.sample_op, c.info = ret
    c.alg = State(c, alg_o)
    fs = [c.sample_op] + [t for d in c.info for t in d.values()]
    c.begin(fs)
    c.vdom[c.alg.t.op.name] = lambda rng, sh, tr: np.asarray([0, 3, 4, 6, 1, 2][tr % 6])
    if alg == 'PSGLD':
        for a in c.alg.vs:
            c.vdom[a.op.name] = lambda rng, sh, tr: np.abs(rng.normal(size=sh))
            c.facts.tprop['var:' + a.op.name] = {'nonneg'}
    return c


def _ic(v):
    return Ten([], lambda: ival(int(v or 0)), 'int32')


def _fc(v):
    from ..consts import recognise
    f = recognise(np.float32(v), 'float32')
    return Ten([], lambda: f, 'float32')


DEF = {'SGHMC': dict(friction=0.25, variance_estimate=0., n_iter_resample_v=20),
       'SGNHT': dict(variance_extra=0., tune_rate=1., n_iter_resample_v=None)}


def specs(c, alg, opts, noise):
    """noise: {latent index: (gaussian noise name, resample noise name or None)}
    -> (new q, new v, new aux, info) tensors per latent"""
    T = dict(c.T)
    for n, v in DEF.get(alg, {}).items():
        if n not in T:
            T[n] = _ic(v) if n == 'n_iter_resample_v' else _fc(v)
    lr = T['learning_rate']
    q = [c.vten(v) for v in c.qs]
    N = lambda nm, i: Ten(q[i].shape, lambda *ix: tm.rd(nm, ix, 'R'), 'float32')
    R = range(len(q))
    out = []
    if alg in ('SGLD', 'PSGLD'):
        for i in R:
            g = c.lj.grad(i, q)
            if alg == 'SGLD':
                nq = add(add(q[i], mul(mul(k(.5), lr), g)), mul(N(noise[i][0], i), sqrt(lr)))
                out.append(dict(q=nq))
            else:
                hp = opts.get('preconditioner_hparams')
                d, e = (_fc(hp.decay), _fc(hp.epsilon)) if hp else (_fc(.9), _fc(1e-3))
                aux = c.vten(c.alg.vs[i])
                # 1 - decay is computed in double precision before rounding to float32
                dd = 0.9 if hp is None else hp.decay
                od = _fc(1 - dd)
                na = add(mul(d, aux), mul(od, sq(g)))
                G = E(tm.div, k(1), add(e, sqrt(na)))
                nq = add(add(q[i], mul(mul(mul(k(.5), lr), G), g)), mul(N(noise[i][0], i), sqrt(mul(lr, G))))
                out.append(dict(q=nq, aux=na))
        return out
    t = c.vten(c.alg.t)
    n = T['n_iter_resample_v']
    v = [c.vten(x) for x in c.alg.vs]
    ov = []
    for i in R:
        if noise[i][1] is None:
            ov.append(v[i])
        else:
            cond = Ten([], lambda: tm.tand(tm.tnot(tm.eq(n.at(), ival(0))), tm.eq(tm.imod(t.at(), n.at()), ival(0))), 'bool')
            ov.append(where(cond, mul(N(noise[i][1], i), sqrt(lr)), v[i]))
    second = opts.get('second_order', True)
    half = k(.5)
    q1 = [add(q[i], mul(half, ov[i])) for i in R] if second else q
    vec = opts.get('use_vector_alpha', True)
    mk = (lambda x: x) if alg == 'SGNHT' and vec else mean
    for i in R:
        g = c.lj.grad(i, q1)
        if alg == 'SGHMC':
            al, be = T['friction'], T['variance_estimate']
            nz = mul(N(noise[i][0], i), sqrt(mul(mul(k(2), sub(al, be)), lr)))
            if not second:
                nv = add(add(mul(sub(k(1), al), ov[i]), mul(lr, g)), nz)
                nq = add(q[i], nv)
            else:
                dh = exp(mul(k(-.5), al))
                nv = mul(dh, add(add(mul(dh, ov[i]), mul(lr, g)), nz))
                nq = add(q1[i], mul(half, nv))
            out.append(dict(q=nq, v=nv, mean_k=mean(sq(nv))))
        else:
            a, tr = T['variance_extra'], T['tune_rate']
            al = c.vten(c.alg.alphas[i])
            nz = mul(N(noise[i][0], i), sqrt(mul(mul(k(2), a), lr)))
            if not second:
                nv = add(add(mul(sub(k(1), al), ov[i]), mul(lr, g)), nz)
                nq = add(q[i], nv)
                m = mk(sq(nv))
                na = add(al, mul(tr, sub(m, lr)))
            else:
                a1 = add(al, mul(mul(half, tr), sub(mk(sq(ov[i])), lr)))
                dh = exp(mul(k(-.5), a1))
                nv = mul(dh, add(add(mul(dh, ov[i]), mul(lr, g)), nz))
                nq = add(q1[i], mul(half, nv))
                m = mk(sq(nv))
                na = add(a1, mul(mul(half, tr), sub(m, lr)))
            out.append(dict(q=nq, v=nv, mean_k=m, alpha=na))
    return out


def pick_noise(c, alg):
    """which draw plays which role for each latent (there is one right answer or none)"""
    R = range(len(c.qs))
    cand = []
    for i in R:
        tgt = c.alg.vs[i] if alg in ('SGHMC', 'SGNHT') else c.qs[i]
        cand.append(noise_names(c.ev().final(tgt.op)))
    return cand


def numeric_choice(c, alg, opts, choices, joint):
    """no assignment is proved: take the one the real run agrees with, if any"""
    R = range(len(c.qs))
    try:
        runs = []
        for trial in range(2):
            dims, vals, sv, noise, fd = c.run_once(trial)
            got, post = c.execute(c.session(), sv, fd)
            runs.append((dims, c.env(vals, dims, dict({'var:' + a: b for a, b in sv.items()}, **noise)), post))
        for ix in joint:
            nz = {i: choices[i][ix[i]] for i in R}
            sps = specs(c, alg, opts, nz)
            ok = True
            for dims, env, post in runs:
                for i in R:
                    key = 'v' if 'v' in sps[i] else 'q'
                    tgt = c.alg.vs[i] if key == 'v' else c.qs[i]
                    ok = ok and np.allclose(post[tgt.op.name], c.spec_array(sps[i][key], dims, env), rtol=1e-3, atol=1e-3)
            if ok:
                return nz
    except Exception:
        pass
    return None


def one(label, seed, tier, alg, shapes, nchain, opts, form, hp):
    c = build(label, seed, tier, alg, shapes, nchain, opts, form, hp)
    # the contents of t are a count
    c.facts.tprop['var:' + c.alg.t.op.name] = {'nonneg', 'int'}
    names = c.names
    R = range(len(names))
    bad = ''
    for d in c.lj.calls:
        if set(d) != set(names) | {'x'} or d['x'] is not c.xobs:
            bad = 'log joint given %s' % sorted(d)
    c.fact('the log joint gets the latents and the observations', not bad and bool(c.lj.calls), bad or 'never called')
    try:
        cand = pick_noise(c, alg)
        maxn = 1 if alg in ('SGLD', 'PSGLD') else 2
        okn = all(0 <= len(x) <= maxn for x in cand)
        alln = [n for x in cand for n in x]
        c.fact('each latent gets its own noise', len(alln) == len(set(alln)), 'shared draws: %s' % cand)
    except Exception as e:
        c.obls.append(_err(c, 'noise', e))
        return c.obls
    choices = []
    for x in cand:
        if alg in ('SGLD', 'PSGLD'):
            choices.append([(n, None) for n in x] or [('noise:none', None)])
        elif len(x) >= 2:
            choices.append(list(itertools.permutations(x, 2)))
        else:
            choices.append([(x[0], None), ('noise:none', x[0])] if x else [('noise:none', None)])
    # the assignment of draws to roles that proves the momentum / position updates, if there is one
    joint = list(itertools.islice(itertools.product(*[range(len(x)) for x in choices]), 64))
    joint.sort(key=lambda ix: len(set(ix)))
    chosen = {i: choices[i][0] for i in R}
    if len(joint) > 1:
        for ix in joint:
            nz = {i: choices[i][ix[i]] for i in R}
            sps = specs(c, alg, opts, nz)
            for i in R:
                key = 'v' if 'v' in sps[i] else 'q'
                tgt = c.alg.vs[i] if key == 'v' else c.qs[i]
                o = c.obl('probe')
                c.obls.pop()
                try:
                    c._prove_ten(o, c.ev().final(tgt.op), sps[i][key], c.facts)
                except Exception:
                    pass
                if o.status != 'proved':
                    break
            else:
                chosen = nz
                break
        else:
            chosen = numeric_choice(c, alg, opts, choices, joint) or chosen
    sp = specs(c, alg, opts, chosen)
    for i in R:
        s = sp[i]
        c.after('%s after the step' % names[i], c.qs[i], s['q'])
        c.reports('info.q[%s]' % names[i], c.info.q[names[i]], s['q'])
        if 'aux' in s:
            c.after('second moment of %s' % names[i], c.alg.vs[i], s['aux'])
        if 'v' in s:
            c.after('momentum of %s' % names[i], c.alg.vs[i], s['v'])
            c.reports('info.mean_k[%s]' % names[i], c.info.mean_k[names[i]], s['mean_k'])
        if 'alpha' in s:
            c.after('thermostat of %s' % names[i], c.alg.alphas[i], s['alpha'])
            c.reports('info.alpha[%s]' % names[i], c.info.alpha[names[i]], s['alpha'])
    t = c.vten(c.alg.t)
    c.after('the iteration counter', c.alg.t, Ten([], lambda: tm.add(t.at(), ival(1)), 'int32'))
    want = {'SGLD': {'q'}, 'PSGLD': {'q'}, 'SGHMC': {'q', 'mean_k'}, 'SGNHT': {'q', 'mean_k', 'alpha'}}[alg]
    c.fact('info reports the documented attributes of every latent', want <= set(c.info._fields) and all(
        set(getattr(c.info, f)) == set(names) for f in want), 'info is %s' % (c.info,))
    initial(c, alg, opts)
    c.replay()
    c.close()
    return c.obls


def initial(c, alg, opts):
    """initial momenta, thermostats, counter"""
    ge = GraphEval({d['tensor'].name: d['ten'] for d in c.inputs.values() if d['tensor'] is not None}, c.state, c.abstract)
    T = dict(c.T)
    for n, v in DEF.get(alg, {}).items():
        T.setdefault(n, _ic(v) if n == 'n_iter_resample_v' else _fc(v))

    def ob(name, var, spec):
        o = c.obl(name)
        try:
            ten = ge.ten(var.initial_value)
            nn = noise_names(ten)
            c._prove_ten(o, ten, spec(ten, nn), c.facts)
        except Exception as e:
            o.status, o.detail = 'unsupported', repr(e)[:200]
        try:
            if o.status != 'unsupported':
                run_init(o, var, spec(ten, nn))
        except Exception as e:
            o.detail += ' [replay: %r]' % (e,)

    def run_init(o, var, want):
        from ..case import js, mismatch
        for trial in range(2):
            dims, vals = c.gen(trial)
            fd = c.feed(vals, dims)
            noise = {}
            with c.graph.as_default():
                for op in c.graph.get_operations():
                    if op.type == 'RandomStandardNormal' and 'noise:' + op.name in noise_names(ten_of(var)):
                        x = c.rng.normal(size=c.session().run(op.inputs[0], fd)).astype('float32')
                        fd[op.outputs[0]], noise['noise:' + op.name] = x, x
                got = c.session().run(var.initial_value, fd)
            w = c.spec_array(want, dims, c.env(vals, dims, noise))
            o.numeric += 1
            if np.shape(got) != np.shape(w) or mismatch(np.asarray(got), w, 1e-4, 1e-5) is not None:
                o.status, o.detail = 'refuted', 'initial value is %s, specified %s' % (got, w)
                o.cex = dict(kind='value', got=repr(got), want=repr(w), inputs=js(vals), noise=js(noise))
                return

    def ten_of(var):
        return ge.ten(var.initial_value)
    ob('the counter starts at 0', c.alg.t, lambda t, n: _ic(0))
    for i, q in enumerate(c.qs):
        full = lambda v: Ten(c.vten(q).shape, lambda *ix: v.at(), 'float32')
        if alg == 'PSGLD':
            ob('second moment %d starts at 0' % i, c.alg.vs[i], lambda t, n: full(k(0)))
        if alg in ('SGHMC', 'SGNHT'):
            ob('momentum %d starts as N(0, lr)' % i, c.alg.vs[i], lambda t, n: mul(
                Ten(c.vten(q).shape, lambda *ix: tm.rd(n[0] if n else 'none', ix, 'R'), 'float32'), sqrt(T['learning_rate'])))
        if alg == 'SGNHT':
            ob('thermostat %d starts at variance_extra' % i, c.alg.alphas[i],
               lambda t, n: full(T['variance_extra']) if opts.get('use_vector_alpha', True) else T['variance_extra'])


def _err(c, name, e):
    o = c.obl(name)
    c.obls.pop()
    o.status, o.detail = 'unsupported', repr(e)[:300]
    return o


def reject(label, seed, tier, alg):
    import zhusuan as zs
    from ..case import Case
    c = Case(label, seed)
    err = None
    with c.graph.as_default():
        try:
            getattr(zs, alg)(0.1).sample(lambda o: tf.reduce_sum(o['a']), {}, {'a': tf.zeros([3])})
        except Exception as e:
            err = e
    c.fact('a latent that is not a variable is rejected', isinstance(err, TypeError), 'got %r' % (err,))
    return c.obls


def cases(tier, seed):
    out = []
    shp = [([[3]], 0), ([[2, 3]], 1), ([[2, 3], [2]], 1), ([[2, 1, 3], [2, 1], [2, 1, 2, 2]], 2), ([[]], 0), ([[2], [2, 2]], 0),
           ([[1, 2], [1, 2]], 1)]
    hps = {'SGLD': [dict(learning_rate='pos'), dict(learning_rate=0.125)],
           'PSGLD': [dict(learning_rate='pos'), dict(learning_rate=0.125)],
           'SGHMC': [dict(learning_rate='pos', friction='pos', variance_estimate=0., n_iter_resample_v='nit'),
                     dict(learning_rate='pos', friction='gap', n_iter_resample_v='nit'),
                     dict(learning_rate='pos', friction=0.5, n_iter_resample_v=None),
                     dict(learning_rate=0.125, n_iter_resample_v=3), dict(learning_rate='pos'), dict(learning_rate=.25, n_iter_resample_v=0),
                     dict(learning_rate=.25, friction=.5, variance_estimate=.25, n_iter_resample_v=1)],
           'SGNHT': [dict(learning_rate='pos', variance_extra='pos', tune_rate='pos', n_iter_resample_v='nit'),
                     dict(learning_rate='pos'), dict(learning_rate=0.125, variance_extra=.5, tune_rate=2., n_iter_resample_v=2),
                     dict(learning_rate=.25, variance_extra=0., n_iter_resample_v=0)]}
    optss = {'SGLD': [{}], 'PSGLD': [{}, 'hp'], 'SGHMC': [dict(second_order=False), dict(second_order=True), {}],
             'SGNHT': [dict(second_order=a, use_vector_alpha=b) for a in (False, True) for b in (False, True)] + [{}]}
    n = 0
    for alg in ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT'):
        for hp in hps[alg]:
            for op in optss[alg]:
                for s, nc in shp:
                    n += 1
                    if tier == 'quick' and len(s) == 3 and n % 2:
                        continue
                    o = op
                    if op == 'hp':
                        import zhusuan as zs
                        o = dict(preconditioner_hparams=zs.PSGLD.RMSPreconditioner.HParams(decay=0.75, epsilon=0.125))
                    out.append(dict(alg=alg, shapes=s, nchain=nc, opts=o, form='fm'[n % 2], hp=hp))
    for kw in out:
        yield '%s[%s]' % (kw['alg'], ','.join('%s=%s' % (a, b) for a, b in kw.items() if a != 'alg')), one, kw
    for alg in ('SGLD', 'PSGLD', 'SGHMC', 'SGNHT'):
        yield 'reject[%s]' % alg, reject, dict(alg=alg)

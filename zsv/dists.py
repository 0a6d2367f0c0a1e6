"""Contracts of the distributions: parameters, domains, and the textbook log
densities (the postconditions of log_prob), written as terms.

`make(ctx, name, cfg)` instantiates the real class from /repo on symbolic
parameters and returns a Bound object with the real object and its contract."""
from __future__ import annotations
import zlib
from fractions import Fraction
import numpy as np
from .env import tf
from . import terms as tm
from . import tensor as tn
from .terms import ival, isc, const, add, sub, mul, div, log, exp, neg, square, lgamma, softplus
from .tensor import Ten, bshape, bidx, elementwise, reduce

C = const
HALF = C(Fraction(1, 2))
LOG2PI = log(mul(C(2), tm.PI))
NINF = tm.mk('inf', (-1,), 'R')


class Bound(object):
    pass


# --------------------------------------------------------------- densities
def normal_lp(x, m, s):
    return sub(neg(add(log(s), mul(HALF, LOG2PI))), div(square(sub(x, m)), mul(C(2), square(s))))


def normal_lp_log(x, m, ls):
    return sub(neg(add(ls, mul(HALF, LOG2PI))), mul(HALF, exp(mul(C(-2), ls)), square(sub(x, m))))


def foldnormal_lp(x, m, s):
    # density phi((x-m)/s)/s + phi((x+m)/s)/s on x >= 0
    a = normal_lp(x, m, s)
    b = normal_lp(x, neg(m), s)
    return tm.ite(tm.le(C(0), x), add(a, softplus(sub(b, a))), NINF)


def bernoulli_lp(x, l):
    # x log sigmoid(l) + (1-x) log(1 - sigmoid(l))
    p = div(C(1), add(C(1), exp(neg(l))))
    return add(mul(x, log(p)), mul(sub(C(1), x), log(sub(C(1), p))))


def uniform_lp(x, a, b):
    return tm.ite(tm.tand(tm.le(a, x), tm.lt(x, b)), neg(log(sub(b, a))), NINF)


def gamma_lp(x, a, b):
    return sub(add(mul(a, log(b)), mul(sub(a, C(1)), log(x))), add(lgamma(a), mul(b, x)))


def invgamma_lp(x, a, b):
    return sub(sub(mul(a, log(b)), lgamma(a)), add(mul(add(a, C(1)), log(x)), div(b, x)))


def beta_lp(x, a, b):
    return add(mul(sub(a, C(1)), log(x)), mul(sub(b, C(1)), log(sub(C(1), x))),
               lgamma(add(a, b)), neg(lgamma(a)), neg(lgamma(b)))


def poisson_lp(x, r):
    return sub(sub(mul(x, log(r)), r), lgamma(add(x, C(1))))


def binomial_lp(x, l, n):
    p = div(C(1), add(C(1), exp(neg(l))))
    return add(lgamma(add(n, C(1))), neg(lgamma(add(x, C(1)))), neg(lgamma(add(sub(n, x), C(1)))),
               mul(x, log(p)), mul(sub(n, x), log(sub(C(1), p))))


def laplace_lp(x, m, b):
    return sub(neg(log(mul(C(2), b))), div(tm.tabs(sub(x, m)), b))


def binconcrete_lp(x, t, l):
    # Maddison et al. (2016), eq. for the binary concrete density with location e^l
    la = l
    num = add(log(t), la, mul(sub(neg(t), C(1)), log(x)), mul(sub(neg(t), C(1)), log(sub(C(1), x))))
    den = mul(C(2), log(add(mul(exp(la), tm.exp(mul(neg(t), log(x)))),
                            exp(mul(neg(t), log(sub(C(1), x)))))))
    return sub(num, den)


UNI = {
    # name: (params [(arg, domain)], value domain, value dtype is param dtype?, log density)
    'Normal': ([('mean', 'real'), ('std', 'pos')], 'real', normal_lp),
    'FoldNormal': ([('mean', 'real'), ('std', 'pos')], 'real', foldnormal_lp),
    'Bernoulli': ([('logits', 'real')], 'binary', bernoulli_lp),
    'Uniform': ([('minval', 'real'), ('maxval', 'real')], 'real', uniform_lp),
    'Gamma': ([('alpha', 'pos'), ('beta', 'pos')], 'pos', gamma_lp),
    'Beta': ([('alpha', 'pos'), ('beta', 'pos')], 'unit', beta_lp),
    'Poisson': ([('rate', 'pos')], 'count', poisson_lp),
    'Binomial': ([('logits', 'real')], 'count', binomial_lp),
    'InverseGamma': ([('alpha', 'pos'), ('beta', 'pos')], 'pos', invgamma_lp),
    'Laplace': ([('loc', 'real'), ('scale', 'pos')], 'real', laplace_lp),
    'BinConcrete': ([('temperature', 'pos'), ('logits', 'real')], 'unit', binconcrete_lp),
    'Categorical': ([('logits', 'real')], 'category', None),
}
DISCRETE = {'Bernoulli', 'Poisson', 'Binomial', 'Categorical', 'Multinomial', 'UnnormalizedMultinomial',
            'OnehotCategorical'}
REPARAM = {'Normal', 'FoldNormal', 'Uniform', 'Laplace', 'BinConcrete', 'MultivariateNormalCholesky',
           'MatrixVariateNormalCholesky', 'ExpConcrete', 'Concrete'}
PATHDERIV = {'Normal', 'FoldNormal', 'Laplace', 'BinConcrete', 'MultivariateNormalCholesky',
             'MatrixVariateNormalCholesky', 'ExpConcrete', 'Concrete'}
CHECKNUM = {'Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta', 'Poisson', 'Binomial', 'InverseGamma', 'Laplace',
            'BinConcrete', 'MultivariateNormalCholesky', 'MatrixVariateNormalCholesky', 'Dirichlet',
            'ExpConcrete', 'Concrete'}
MULTI = ['MultivariateNormalCholesky', 'MatrixVariateNormalCholesky', 'Multinomial', 'UnnormalizedMultinomial',
         'OnehotCategorical', 'Dirichlet', 'ExpConcrete', 'Concrete']
VALUE_NDIMS = {n: 1 for n in MULTI}
VALUE_NDIMS['MatrixVariateNormalCholesky'] = 2


def sbcast(*shapes):
    """broadcast of symbolic shape lists (entries int 1 or dimension names)."""
    n = max(len(s) for s in shapes)
    out = [1] * n
    for s in shapes:
        for i, d in enumerate(s):
            k = n - len(s) + i
            if d != 1:
                assert out[k] in (1, d), (shapes,)
                out[k] = d
    return out


def common(*shapes):
    """largest shape below all given ones (used to quantify ordered pairs)."""
    n = min(len(s) for s in shapes)
    out = []
    for k in range(1, n + 1):
        ds = [s[-k] for s in shapes]
        out.insert(0, ds[0] if all(d == ds[0] for d in ds) else 1)
    return out


def dist_class(name):
    import zhusuan.distributions as zd
    return getattr(zd, name)


def make(ctx, name, shapes, given_shape, dtype='float64', vdtype=None, given_mode=None, n_exp=None,
         alias=None, need_given=True, given_dom=None, K='K', normalize=True, **kw):
    """shapes: list of batch shapes, one per parameter (value axes are appended).
    given_shape: shape of x without the value axes, or None."""
    b = Bound()
    b.name, b.ctx, b.dtype = name, ctx, dtype
    b.params = {}
    cls = dist_class(name)
    args = {}
    vnd = VALUE_NDIMS.get(name, 0)
    if name in UNI:
        plist, vdom, lp = UNI[name]
    b.vdtype = vdtype or dtype
    vd = b.vdtype
    temp_scalar = name in ('BinConcrete', 'ExpConcrete', 'Concrete')
    batch_shapes = []
    extra = {}
    R = lambda n: ctx.ten(n)
    valshape = {'MultivariateNormalCholesky': ['D'], 'MatrixVariateNormalCholesky': ['R', 'L']}.get(
        name, [K] if vnd else [])
    b.valshape = valshape

    # ---- parameters
    if name in ('Normal', 'FoldNormal'):
        args['mean'] = ctx.ph('mean', shapes[0], dtype)
        if alias == 'logstd':
            args['logstd'] = ctx.ph('logstd', shapes[1], dtype)
        else:
            args['std'] = ctx.ph('std', shapes[1], dtype, 'pos')
        batch_shapes = shapes[:2]
    elif name == 'Uniform':
        cs = common(shapes[0], shapes[1])
        c = ctx.hidden('c0', cs, dtype)
        p = ctx.hidden('width', shapes[1], dtype, 'pos')
        q = ctx.hidden('offset', shapes[0], dtype, 'nonneg')
        args['minval'] = ctx.derived('minval', shapes[0], dtype, elementwise(tm.sub, c, q))
        args['maxval'] = ctx.derived('maxval', shapes[1], dtype, elementwise(tm.add, c, p))
        batch_shapes = shapes[:2]
    elif name in UNI and name != 'Categorical' and not temp_scalar:
        for (a, dom), s in zip(plist, shapes):
            args[a] = ctx.ph(a, s, dtype, dom)
            batch_shapes.append(s)
        if name == 'Binomial':
            extra['n_experiments'] = n_exp
    elif temp_scalar:
        args['temperature'] = ctx.ph('temperature', [], dtype, 'pos')
        args['logits'] = ctx.ph('logits', list(shapes[0]) + ([] if name == 'BinConcrete' else [K]), dtype)
        batch_shapes = [shapes[0]]
    elif name in ('Categorical', 'OnehotCategorical', 'Multinomial', 'UnnormalizedMultinomial'):
        args['logits'] = ctx.ph('logits', list(shapes[0]) + [K], dtype)
        batch_shapes = [shapes[0]]
        if name == 'Multinomial':
            extra['n_experiments'] = n_exp
        if name in ('Multinomial', 'UnnormalizedMultinomial'):
            extra['normalize_logits'] = normalize
    elif name == 'Dirichlet':
        args['alpha'] = ctx.ph('alpha', list(shapes[0]) + [K], dtype, 'pos')
        ctx.facts.dimlo[K] = 2
        batch_shapes = [shapes[0]]
    elif name == 'MultivariateNormalCholesky':
        args['mean'] = ctx.ph('mean', list(shapes[0]) + ['D'], dtype)
        args['cov_tril'] = tril(ctx, 'cov_tril', list(shapes[0]) + ['D', 'D'], dtype)
        batch_shapes = [shapes[0]]
    elif name == 'MatrixVariateNormalCholesky':
        args['mean'] = ctx.ph('mean', list(shapes[0]) + ['R', 'L'], dtype)
        args['u_tril'] = tril(ctx, 'u_tril', list(shapes[0]) + ['R', 'R'], dtype)
        args['v_tril'] = tril(ctx, 'v_tril', list(shapes[0]) + ['L', 'L'], dtype)
        batch_shapes = [shapes[0]]
    else:
        raise KeyError(name)
    b.batch = sbcast(*batch_shapes)
    b.args = dict(args)
    b.batch_shapes = batch_shapes
    b.extra = extra
    b.n_exp = n_exp

    # ---- the real object
    kwargs = dict(args)
    kwargs.update(extra)
    if name in DISCRETE and vdtype is not None:
        kwargs['dtype'] = getattr(tf, vdtype)
    kwargs.update(kw)
    b.kwargs = kwargs
    with ctx.graph.as_default():
        b.dist = cls(**kwargs)
    if name in DISCRETE and vdtype is None:
        b.vdtype = vd = 'int32'

    # ---- the point
    if given_shape is not None:
        gs = list(given_shape) + valshape
        dom = given_dom
        if name in UNI:
            dom = dom or vdom
            b.given = ctx.ph('x', gs, vd, dom, mode=given_mode, bound=K if dom == 'category' else None)
            if name == 'Binomial':
                ctx.post_gen.append(binomial_gen(b))
            if name in ('Uniform',):
                ctx.post_gen.append(uniform_gen)
        elif name in ('ExpConcrete',):
            b.given = ctx.ph('x', gs, vd, mode=given_mode)
            ctx.post_gen.append(lambda v, d, t: v.__setitem__(
                'x', (v['x'] - np.log(np.sum(np.exp(v['x']), -1, keepdims=True))).astype(v['x'].dtype)))
        elif name in ('Concrete', 'Dirichlet'):
            b.given = ctx.ph('x', gs, vd, 'unit', mode=given_mode)
            ctx.post_gen.append(lambda v, d, t: v.__setitem__(
                'x', (v['x'] / np.sum(v['x'], -1, keepdims=True)).astype(v['x'].dtype))
                if v['x'].shape[-1] > 1 else None)
        elif name in ('Multinomial', 'UnnormalizedMultinomial'):
            b.given = ctx.ph('x', gs, vd, 'count', mode=given_mode)
            if name == 'Multinomial' and n_exp is not None:
                ctx.post_gen.append(multinomial_gen(b))
        elif name == 'OnehotCategorical':
            h = ctx.hidden('cat', list(given_shape), 'int32', 'category', bound=K, mode=given_mode)
            # a point of the support is a one-hot vector
            one, zero = (C(1), C(0)) if tn.sort_of(vd) == 'R' else (ival(1), ival(0))
            ten = Ten([ctx.cdim(s, given_mode) for s in gs],
                      lambda *i: tm.ite(tm.eq(h.at(*i[:-1]), i[-1]), one, zero), vd)
            b.given = ctx.derived('x', gs, vd, ten, mode=given_mode)
        else:
            b.given = ctx.ph('x', gs, vd, mode=given_mode)
        b.logp = spec_logp(b)
    if zlib.crc32(ctx.label.encode()) % 2:
        warm(b)
    return b


def warm(b):
    """A history of earlier calls on the same object, which must not matter."""
    d = b.dist
    with b.ctx.graph.as_default():
        for n in (None, 2):
            try:
                d.sample(n)
            except Exception:       # laws that cannot be sampled; what is rejected is C06
                pass
        if getattr(b, 'given', None) is not None:
            q = tf.placeholder(b.given.dtype, b.given.get_shape())
            for f in (d.log_prob, d.prob):
                f(q)
                f(b.given)
        d.get_batch_shape(), d.batch_shape, d.get_value_shape(), d.value_shape


def tril(ctx, name, shape, dtype):
    t = ctx.ph(name, shape, dtype)
    ctx.facts.tcond[name] = lambda idx, N: {'pos'} if N.psub(idx[-1], idx[-2]) is N.ZERO else set()

    def fix(v, d, t_):
        a = v[name]
        n = a.shape[-1]
        i = np.arange(n)
        a[..., i, i] = np.abs(a[..., i, i]) + 0.3
        if t_ % 2 == 0:
            v[name] = np.tril(a).astype(dtype)
        else:
            v[name] = a      # entries above the diagonal must be ignored
            v[name] = np.tril(a).astype(dtype)
    ctx.post_gen.append(fix)
    return t


def binomial_gen(b):
    def f(v, d, t):
        n = d['NE'] if not isinstance(b.n_exp, int) else b.n_exp
        v['x'] = (v['x'] % (n + 1)).astype(v['x'].dtype)
    return f


def multinomial_gen(b):
    def f(v, d, t):
        n = d['NE'] if not isinstance(b.n_exp, int) else b.n_exp
        x = v['x']
        out = np.zeros(x.shape)
        r = np.random.RandomState(t)
        for ix in np.ndindex(*x.shape[:-1]):
            for _ in range(n):
                out[ix + (r.randint(x.shape[-1]),)] += 1
        v['x'] = out.astype(x.dtype)
    return f


def uniform_gen(v, d, t):
    # include the end points
    x = v['x']
    if t == 1 and x.size:
        mn = v['c0'] - v['offset'] if v['c0'].size == 1 else None
        if mn is not None:
            x.reshape(-1)[0] = np.ravel(mn)[0]
    v['x'] = x


def nexp_term(b):
    if isinstance(b.n_exp, int):
        return C(b.n_exp)
    return tm.toR(tm.dim('NE'))


def spec_logp(b):
    """Postcondition of log_prob before grouping: Ten over broadcast batch axes."""
    ctx, name = b.ctx, b.name
    R = lambda n: ctx.ten(n)
    X = R('x')
    if X.sort != 'R':
        Xr = Ten(X.shape, lambda *i: tm.toR(X.at(*i)), b.dtype)
    else:
        Xr = Ten(X.shape, X.at, b.dtype)
    P = {a: R(a) for a in b.args}
    if name in ('Normal', 'FoldNormal'):
        if 'logstd' in P:
            f = {'Normal': lambda x, m, l: normal_lp(x, m, exp(l)),
                 'FoldNormal': lambda x, m, l: foldnormal_lp(x, m, exp(l))}[name]
            return elementwise(f, Xr, P['mean'], P['logstd'])
        return elementwise(UNI[name][2], Xr, P['mean'], P['std'])
    if name == 'Binomial':
        n = nexp_term(b)
        return elementwise(lambda x, l: binomial_lp(x, l, n), Xr, P['logits'])
    if name == 'BinConcrete':
        return elementwise(binconcrete_lp, Xr, P['temperature'], P['logits'])
    if name == 'Categorical':
        L = P['logits']
        sh = bshape(X.shape, L.shape[:-1])

        def fn(*i):
            k = tm.toI(X.at(*bidx(X.shape, i)))
            li = bidx(L.shape[:-1], i)
            return sub(L.at(*(li + [k])),
                       log(tm.big('sum', L.shape[-1], lambda j: exp(L.at(*(li + [j]))))))
        return Ten(sh, fn, b.dtype)
    if name in UNI:
        return elementwise(UNI[name][2], Xr, *[P[a] for a, _ in UNI[name][0]])
    # ---- multivariate: last axis is the value axis
    if name in ('OnehotCategorical', 'Multinomial', 'UnnormalizedMultinomial'):
        L = P['logits']
        K = L.shape[-1]
        sh = bshape(X.shape[:-1], L.shape[:-1])

        def fn(*i):
            xi, li = bidx(X.shape[:-1], i), bidx(L.shape[:-1], i)
            lse = log(tm.big('sum', K, lambda j: exp(L.at(*(li + [j])))))
            norm = b.extra.get('normalize_logits', True)
            lp = lambda k: sub(L.at(*(li + [k])), lse) if norm else L.at(*(li + [k]))
            s = tm.big('sum', K, lambda k: mul(Xr.at(*(xi + [k])), lp(k)))
            if name == 'Multinomial':
                n = nexp_term(b) if b.n_exp is not None else \
                    tm.big('sum', K, lambda k: Xr.at(*(xi + [k])))
                s = add(s, lgamma(add(n, C(1))),
                        neg(tm.big('sum', K, lambda k: lgamma(add(Xr.at(*(xi + [k])), C(1))))))
            return s
        return Ten(sh, fn, b.dtype)
    if name == 'Dirichlet':
        A = P['alpha']
        K = A.shape[-1]
        sh = bshape(X.shape[:-1], A.shape[:-1])

        def fn(*i):
            xi, ai = bidx(X.shape[:-1], i), bidx(A.shape[:-1], i)
            return add(lgamma(tm.big('sum', K, lambda k: A.at(*(ai + [k])))),
                       neg(tm.big('sum', K, lambda k: lgamma(A.at(*(ai + [k]))))),
                       tm.big('sum', K, lambda k: mul(sub(A.at(*(ai + [k])), C(1)), log(Xr.at(*(xi + [k]))))))
        return Ten(sh, fn, b.dtype)
    if name in ('ExpConcrete', 'Concrete'):
        L, T_ = P['logits'], P['temperature']
        K = L.shape[-1]
        sh = bshape(X.shape[:-1], L.shape[:-1])
        n = tm.toR(K)

        def fn(*i):
            xi, li = bidx(X.shape[:-1], i), bidx(L.shape[:-1], i)
            t = T_.at()
            lx = (lambda k: Xr.at(*(xi + [k]))) if name == 'ExpConcrete' else \
                (lambda k: log(Xr.at(*(xi + [k]))))
            e = lambda k: sub(L.at(*(li + [k])), mul(t, lx(k)))
            r = add(lgamma(n), mul(sub(n, C(1)), log(t)), tm.big('sum', K, e),
                    neg(mul(n, log(tm.big('sum', K, lambda k: exp(e(k)))))))
            if name == 'Concrete':
                r = sub(r, tm.big('sum', K, lx))
            return r
        return Ten(sh, fn, b.dtype)
    if name == 'MultivariateNormalCholesky':
        M, L = P['mean'], P['cov_tril']
        n = M.shape[-1]
        sh = bshape(X.shape[:-1], M.shape[:-1])

        def fn(*i):
            xi, mi, li = bidx(X.shape[:-1], i), bidx(M.shape[:-1], i), bidx(L.shape[:-2], i)
            z = lambda r: trisolve(lambda p, q: L.at(*(li + [p, q])),
                                   lambda p: sub(Xr.at(*(xi + [p])), M.at(*(mi + [p]))), n, r)
            return add(neg(mul(HALF, tm.toR(n), LOG2PI)),
                       neg(tm.big('sum', n, lambda k: log(L.at(*(li + [k, k]))))),
                       neg(mul(HALF, tm.big('sum', n, lambda r: square(z(r))))))
        return Ten(sh, fn, b.dtype)
    if name == 'MatrixVariateNormalCholesky':
        M, U, V = P['mean'], P['u_tril'], P['v_tril']
        nr, nc = M.shape[-2], M.shape[-1]
        sh = bshape(X.shape[:-2], M.shape[:-2])

        def fn(*i):
            xi, mi = bidx(X.shape[:-2], i), bidx(M.shape[:-2], i)
            ui, vi = bidx(U.shape[:-2], i), bidx(V.shape[:-2], i)
            # Y = X - M ; W = U^-1 Y ; Z = V^-1 W^T ; quadratic form ||Z||^2
            W = lambda r, c: trisolve(lambda p, q: U.at(*(ui + [p, q])),
                                      lambda p: sub(Xr.at(*(xi + [p, c])), M.at(*(mi + [p, c]))), nr, r)
            Z = lambda c, r: trisolve(lambda p, q: V.at(*(vi + [p, q])), lambda p: W(r, p), nc, c)
            return add(neg(mul(HALF, tm.toR(nr), tm.toR(nc), LOG2PI)),
                       neg(mul(tm.toR(nc), tm.big('sum', nr, lambda k: log(U.at(*(ui + [k, k])))))),
                       neg(mul(tm.toR(nr), tm.big('sum', nc, lambda k: log(V.at(*(vi + [k, k])))))),
                       neg(mul(HALF, tm.big('sum', nc, lambda c: tm.big('sum', nr, lambda r: square(Z(c, r)))))))
        return Ten(sh, fn, b.dtype)
    raise KeyError(name)


def trisolve(Lf, yf, n, r):
    from .norm import bvar
    a1, a2, a3 = bvar('a', n), bvar('a', n), bvar('a', n)
    return tm.app('trisolve_L', [n, r], [tm.lam([a1, a2], Lf(a1, a2)), tm.lam([a3], yf(a3))])


def grouped(ten, g, kind='sum'):
    if g == 0:
        return ten
    return reduce(ten, list(range(-g, 0)), False, kind)

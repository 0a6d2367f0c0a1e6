"""Bounded stand-ins for what the real-number reading of the graph cannot see: at the listed valid but
extreme parameters the textbook value is an ordinary float, so the code must return it (a formula
that overflows, underflows or cancels on the way is not the log density there)."""
from __future__ import annotations
import math
import numpy as np
from .case import Case, js
from . import dists

L = np.longdouble
LG = np.vectorize(math.lgamma, otypes=[L])
H2PI = L(0.5) * np.log(L(2) * np.pi)


def lse(a):
    a = np.asarray(a, L)
    m = np.max(a, -1, keepdims=True)
    return (m + np.log(np.sum(np.exp(a - m), -1, keepdims=True)))


def sp(x):
    x = np.asarray(x, L)
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


# every reference returns the list of the textbook terms (their sum is the log density)
def r_normal(x, mean=None, std=None, logstd=None):
    ls = np.log(std) if logstd is None else logstd
    s = np.exp(ls)
    return [-H2PI + 0 * x, -ls + 0 * x, -((x - mean) / s) ** 2 / 2]


def r_fold(x, mean=None, std=None, logstd=None):
    ls = np.log(std) if logstd is None else logstd
    s = np.exp(ls)
    return [-H2PI + 0 * x, -ls + 0 * x, -((x - mean) / s) ** 2 / 2, sp(-2 * mean * x / s ** 2)]


def r_bern(x, logits):
    return [-x * sp(-logits), -(1 - x) * sp(logits)]


def r_cat(x, logits):
    lp = logits - lse(logits)
    return [np.take_along_axis(lp, np.asarray(x, int)[..., None], -1)[..., 0]]


def r_unif(x, minval, maxval):
    return [-np.log(maxval - minval) + 0 * x]


def r_gamma(x, alpha, beta):
    return [alpha * np.log(beta), -LG(alpha), (alpha - 1) * np.log(x), -beta * x]


def r_invgamma(x, alpha, beta):
    return [alpha * np.log(beta), -LG(alpha), -(alpha + 1) * np.log(x), -beta / x]


def r_beta(x, alpha, beta):
    return [(alpha - 1) * np.log(x), (beta - 1) * np.log1p(-x), LG(alpha + beta), -LG(alpha), -LG(beta)]


def r_pois(x, rate):
    return [x * np.log(rate), -rate + 0 * x, -LG(x + 1)]


def r_binom(x, logits, n_experiments):
    n = L(n_experiments)
    return [LG(n), np.log(n), -LG(x + 1), -LG(n - x + 1), -x * sp(-logits), -(n - x) * sp(logits)]


def r_laplace(x, loc, scale):
    return [-np.log(2 * scale) + 0 * x, -np.abs(x - loc) / scale]


def r_binconc(x, temperature, logits):
    t = logits + temperature * (np.log1p(-x) - np.log(x))
    return [np.log(temperature) - np.log(x) - np.log1p(-x), t, -2 * sp(t), 0 * temperature * np.log(x)]


def r_multi(x, logits, n_experiments=None, norm=True):
    lp = logits - lse(logits)
    n = np.sum(x, -1)
    out = [np.sum(x * lp, -1)]
    if norm:
        out += [LG(n + 1), -np.sum(LG(x + 1), -1)]
    return out


def r_dir(x, alpha):
    return [np.sum((alpha - 1) * np.log(x), -1), LG(np.sum(alpha, -1)), -np.sum(LG(alpha), -1)]


def r_expconc(x, temperature, logits, log_given=None):
    k = L(x.shape[-1])
    t = logits - temperature * x
    return [LG(k), (k - 1) * np.log(temperature), np.sum(t, -1), -k * lse(t)[..., 0]]


def r_conc(x, temperature, logits):
    return r_expconc(np.log(x), temperature, logits) + [-np.sum(np.log(x), -1)]


def r_mvn(x, mean, cov_tril):
    d = x - mean
    z = np.zeros_like(d)
    n = d.shape[-1]
    for i in range(n):
        z[..., i] = (d[..., i] - np.sum(cov_tril[..., i, :i] * z[..., :i], -1)) / cov_tril[..., i, i]
    return [-n * H2PI, -np.sum(np.log(np.diagonal(cov_tril, 0, -2, -1)), -1), -np.sum(z * z, -1) / 2]


def r_matn(x, mean, u_tril, v_tril):
    # vec of X - M row by row has covariance U (x) V
    r, c = x.shape[-2:]
    return r_mvn(x.reshape(r * c), mean.reshape(r * c), np.kron(u_tril, v_tril))


A = np.array
BIG = [-1e4, -1000., -100., -50., -20., 0., 20., 50., 100., 1000., 1e4]
LOGITS = [[0., 1000.], [1000., 0., -1000.], [-1000., -1000., -1001.], [1e4, 1e4, 1e4, 1e4], [-5e3, 5e3],
          [90., -90., 0.], [-90., -95., -100.], [0., -300., -600., -900.]]
CL = [[0., 400.], [400., 0., -400.], [-300., -300., -301.], [90., -90., 0.], [-90., -95., -100.],
      [2e3, 2e3, 2e3]]


def eyes(n, s):
    a = np.eye(n) * s
    for i in range(1, n):
        a[i, i - 1] = s * .5
    return a


def points(name):
    out = []
    if name in ('Normal', 'FoldNormal'):
        for m, s, z in ((0., 1e-5, 2.), (0., 1e5, -1.), (1e3, 1., 3.), (-40., 1., 60.), (0., 1., 1e3), (2., .01, 0.),
                        (-3., .1, 45.), (3., .1, -25.)):
            x = m + s * z
            if name == 'FoldNormal':
                x = abs(x)
            out.append((dict(mean=m, std=s), x))
            out.append((dict(mean=m, logstd=math.log(s)), x))
    elif name == 'Bernoulli':
        out = [(dict(logits=l), float(x)) for l in BIG for x in (0, 1)]
    elif name == 'Categorical':
        out = [(dict(logits=l), float(x)) for l in LOGITS for x in range(len(l))]
    elif name == 'Uniform':
        out = [(dict(minval=-1e4, maxval=1e4), 5.), (dict(minval=0., maxval=1e-8), 2e-9),
               (dict(minval=-1e30, maxval=1e30), 5.)]
    elif name in ('Gamma', 'InverseGamma'):
        out = [(dict(alpha=a, beta=b), x) for a in (1e-3, 1., 60., 1e3) for b in (1e-3, 1., 50.)
               for x in (1e-20, 1e-4, 1., 300.) if name == 'Gamma' or x > 1e-10]
    elif name == 'Beta':
        out = [(dict(alpha=a, beta=b), x) for a in (1e-3, 1., 60., 1e3) for b in (1e-3, 2., 400.)
               for x in (1e-20, 1e-4, .5, .97)]
    elif name == 'Poisson':
        out = [(dict(rate=r), x) for r in (1e-6, 1., 200., 1e4) for x in (0., 3., 150., 1e4)]
    elif name == 'Binomial':
        out = [(dict(logits=l, n_experiments=n), float(x)) for l in BIG for n, xs in
               ((1, (0, 1)), (5, (0, 2, 5)), (300, (0, 150, 300))) for x in xs]
    elif name == 'Laplace':
        out = [(dict(loc=m, scale=s), x) for m, s, x in ((0., 1e-4, 10.), (0., 1e5, 3.), (-500., 1., 500.),
                                                         (3., .01, 3.))]
    elif name == 'BinConcrete':
        out = [(dict(temperature=t, logits=l), x) for t in (.05, 1., 20.) for l in (-500., -90., 0., 90., 500.)
               for x in (1e-6, .5, .9375)]
    elif name in ('Multinomial', 'UnnormalizedMultinomial'):
        for l in LOGITS:
            for x in ([3.] + [0.] * (len(l) - 1), [1.] * len(l), [0.] * (len(l) - 1) + [200.]):
                kw = dict(logits=l)
                if name == 'Multinomial':
                    kw['n_experiments'] = int(sum(x))
                out.append((kw, x))
    elif name == 'OnehotCategorical':
        out = [(dict(logits=l), np.eye(len(l))[k].tolist()) for l in LOGITS for k in range(len(l))]
    elif name == 'Dirichlet':
        out = [(dict(alpha=a), x) for a in ([1e-3, 2.], [60., 1e-2], [500., 300.]) for x in ([.25, .75], [.9375, .0625])]
        out += [(dict(alpha=a), [1e-25, 1.]) for a in ([.5, 2.], [3., 1.], [1.5, 40.])]
        out += [(dict(alpha=[40.] * 32), [1 / 32.] * 32), (dict(alpha=[.01] * 32), [1 / 32.] * 32)]
    elif name in ('ExpConcrete', 'Concrete'):
        for l in CL:
            for t in (.05, 1., 4.):
                k = len(l)
                ps = [[1. / k] * k, [2. ** -8 if i else 1 - (k - 1) * 2. ** -8 for i in range(k)]]
                for p in ps:
                    out.append((dict(temperature=t, logits=l), p if name == 'Concrete' else np.log(p).tolist()))
        if name == 'ExpConcrete':
            for t in (.05, 1.):
                out.append((dict(temperature=t, logits=[0., 1., 2.]), [-700., 0., -900.]))
                out.append((dict(temperature=t, logits=[0., 1.]), [0., -200.]))
    elif name == 'MultivariateNormalCholesky':
        for n, s in ((1, 1e-4), (3, 1e4), (60, .1), (60, 12.), (40, 1e-3)):
            z = np.sin(np.arange(n)) * s
            out.append((dict(mean=[.5] * n, cov_tril=eyes(n, s).tolist()), (.5 + z).tolist() if s > .01
                        else (z + .5).tolist()))
    elif name == 'MatrixVariateNormalCholesky':
        for r, c, s, t in ((1, 1, 1e-3, 1e3), (9, 8, .1, .3), (8, 9, 6., 4.), (2, 3, 1e-2, 1.)):
            x = np.sin(np.arange(r * c)).reshape(r, c) * s * t
            out.append((dict(mean=np.zeros((r, c)).tolist(), u_tril=eyes(r, s).tolist(), v_tril=eyes(c, t).tolist()),
                        x.tolist()))
    return out


REF = dict(Normal=r_normal, FoldNormal=r_fold, Bernoulli=r_bern, Categorical=r_cat, Uniform=r_unif, Gamma=r_gamma,
           InverseGamma=r_invgamma, Beta=r_beta, Poisson=r_pois, Binomial=r_binom, Laplace=r_laplace,
           BinConcrete=r_binconc, Multinomial=r_multi,
           UnnormalizedMultinomial=lambda x, logits: r_multi(x, logits, norm=False),
           OnehotCategorical=lambda x, logits: r_multi(x, logits, norm=False), Dirichlet=r_dir, ExpConcrete=r_expconc,
           Concrete=r_conc, MultivariateNormalCholesky=r_mvn, MatrixVariateNormalCholesky=r_matn)


def cast(v, dt):
    return np.asarray(v, dt).astype(L)


def logprob(label, seed, tier, name):
    """log_prob and prob of the real class at extreme valid parameters, against the textbook terms summed
    in extended precision."""
    from .env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    for dtype in ('float32', 'float64'):
        dt = np.dtype(dtype)
        ob = c.obl('log_prob and prob at extreme valid parameters (%s)' % dtype)
        ob.kind = 'runtime'
        fetch, fd, refs = [], {}, []
        made = {}
        for a, x in points(name):
            key = tuple((k, v if k == 'n_experiments' else np.shape(v)) for k, v in sorted(a.items())) + (np.shape(x),)
            if key not in made:
                with c.graph.as_default():
                    ph = {k: v if k == 'n_experiments' else tf.placeholder(getattr(tf, dtype), np.shape(v))
                          for k, v in a.items()}
                    kw = dict(dtype=getattr(tf, dtype)) if name in dists.DISCRETE and name != 'Categorical' else {}
                    d = cls(**dict(ph, **kw))
                    xp = tf.placeholder(d.dtype, np.shape(x))
                    made[key] = ph, xp, d.log_prob(xp), d.prob(xp)
            ph, xp, lp, p = made[key]
            fd = {ph[k]: np.asarray(v, dt) for k, v in a.items() if k != 'n_experiments'}
            fd[xp] = np.asarray(x, xp.dtype.as_numpy_dtype)
            g, gp = c.session().run([lp, p], fd)
            terms = REF[name](cast(x, dt), **{k: v if k == 'n_experiments' else cast(v, dt) for k, v in a.items()})
            want = float(sum(np.asarray(t, L) for t in terms))
            scale = max([1.] + [float(np.max(np.abs(t))) for t in terms])
            if 'logits' in a and name in dists.MULTI + ['Categorical']:
                scale = max(scale, float(np.max(np.abs(a['logits']))) * max(1., float(np.sum(np.abs(x)))))
            eps = float(np.finfo(dt).eps)
            n = np.size(x)
            tol = 64 * eps * scale * max(1, math.sqrt(n))
            if name in ('MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
                tol = 2048 * eps * scale * n
            if name in ('Normal', 'FoldNormal', 'Laplace') and 'logstd' in a:
                tol += 64 * eps * scale * abs(a['logstd'])
            if name in ('Beta', 'BinConcrete', 'Concrete', 'Dirichlet'):
                tol += 256 * eps * scale
            ob.numeric += 1
            wp = math.exp(want) if want < 80 else None
            bad = not np.all(np.isfinite(g)) or abs(float(g) - want) > tol
            badp = wp is not None and not abs(float(gp) - wp) <= 1e-30 + wp * min(.9, (4 * tol + 8 * eps))
            if wp is not None and wp < 1e-30 and 0 <= float(gp) <= 2e-30:
                badp = False
            if bad or badp:
                ob.status = 'refuted'
                ob.detail = '%s(%s): %s(%s) = %s, textbook value %s' % (
                    name, ', '.join('%s=%s' % (k, js({'v': np.asarray(v)})['v'] if np.size(v) < 30 else '...')
                                    for k, v in a.items()), 'log_prob' if bad else 'prob',
                    x if np.size(x) < 30 else '...', g if bad else gp, want if bad else wp)
                ob.cex = dict(kind='value', args={k: np.asarray(v).tolist() for k, v in a.items()},
                              x=np.asarray(x).tolist(), dtype=dtype, got=float(g if bad else gp),
                              want=want if bad else wp, accessor='log_prob' if bad else 'prob')
                break
        else:
            ob.status = 'bounded'
    c.close()
    return c.obls


# ------------------------------------------------------------------ samples
def near(m, s, lo=None, hi=None):
    def f(x, n, eps):
        if lo is not None and np.any(x < lo) or hi is not None and np.any(x > hi):
            return 'a sample outside [%s, %s]' % (lo, hi)
        if np.any(np.abs(x - m) > 40 * s + 64 * eps * abs(m)):
            return 'a sample 40 standard deviations from the mean %s' % m
        if abs(np.mean(x) - m) > 9 * s / math.sqrt(n) + 64 * eps * (abs(m) + s):
            return 'sample mean %s, the law has mean %s and standard deviation %s' % (np.mean(x), m, s)
    return f


def always(v):
    def f(x, n, eps):
        if not np.all(x == np.asarray(v)):
            return 'a sample other than %s, which has all the mass' % (v,)
    return f


def simplex(log=False, mean=None):
    def f(x, n, eps):
        y = np.exp(x) if log else x
        if np.any(y < 0) or np.any(np.abs(np.sum(y, -1) - 1) > 64 * eps * x.shape[-1]):
            return 'a sample off the simplex'
        if mean is not None:
            a = np.argmax(y, -1)
            fr = np.array([np.mean(a == k) for k in range(y.shape[-1])])
            if np.any(np.abs(fr - mean) > 9 * np.sqrt((np.asarray(mean) + 1e-6) / n)):
                return 'argmax frequencies %s, the law has %s' % (fr, mean)
    return f


def freq(mean):
    def f(x, n, eps):
        fr = np.mean(x.reshape(-1, x.shape[-1]), 0)
        if np.any(np.abs(fr - mean) > 9 * np.sqrt((np.asarray(mean) + 1e-6) / n)):
            return 'frequencies %s, the law has %s' % (fr, mean)
    return f


def soft(l):
    return np.exp(np.asarray(l, L) - lse(l)).astype(float)


def sample_points(name):
    e = []
    if name == 'Normal':
        for m, s in ((0., 1e-5), (0., 1e15), (1e4, 1.)):
            e += [(dict(mean=m, std=s), near(m, s)), (dict(mean=m, logstd=math.log(s)), near(m, s))]
    if name == 'FoldNormal':
        for m, s in ((-1e3, 1.), (1e3, 1.), (5e4, 10.)):
            e += [(dict(mean=m, std=s), near(abs(m), s, 0.)), (dict(mean=m, logstd=math.log(s)), near(abs(m), s, 0.))]
    if name == 'Laplace':
        e += [(dict(loc=m, scale=s), near(m, s * math.sqrt(2))) for m, s in ((0., 1e-6), (0., 1e12), (-1e4, 1.))]
    if name == 'Uniform':
        e += [(dict(minval=a, maxval=b), near((a + b) / 2, (b - a) / math.sqrt(12), a, b))
              for a, b in ((-1e20, 1e20), (0., 1e-10), (1e4, 1e4 + 8), (-3e4, -1e4))]
    if name in ('Gamma', 'InverseGamma'):
        for a, b in ((1e3, 1e-3), (400., 1e4), (60., 1.)):
            if name == 'Gamma':
                e.append((dict(alpha=a, beta=b), near(a / b, math.sqrt(a) / b, 0.)))
            else:
                m = b / (a - 1)
                e.append((dict(alpha=a, beta=b), near(m, m / math.sqrt(a - 2), 0.)))
    if name == 'Beta':
        for a, b in ((500., 500.), (2000., 1.), (3., 900.)):
            m = a / (a + b)
            e.append((dict(alpha=a, beta=b), near(m, math.sqrt(m * (1 - m) / (a + b + 1)), 0., 1.)))
    if name == 'Poisson':
        e += [(dict(rate=r), near(r, math.sqrt(r), 0.)) for r in (900., 5e4)] + [(dict(rate=1e-9), always(0))]
    if name == 'Bernoulli':
        e += [(dict(logits=l), always(float(l > 0))) for l in (-1e4, -500., -100., 100., 500., 1e4)]
    if name == 'Binomial':
        e += [(dict(logits=l, n_experiments=k), always(k * float(l > 0))) for l in (-1e4, -500., -100., 100., 1e4)
              for k in (1, 7)]
        e += [(dict(logits=0., n_experiments=400), near(200., 10., 0., 400.))]
    if name == 'Categorical':
        e += [(dict(logits=l), always(float(np.argmax(l)))) for l in
              ([0., 1000.], [1000., 0., -1000.], [-5e3, 5e3], [90., -90., 0.], [-900., -600., -700.])]
    if name == 'OnehotCategorical':
        e += [(dict(logits=l), freq(soft(l))) for l in LOGITS]
    if name == 'Multinomial':
        e += [(dict(logits=l, n_experiments=k), lambda x, n, eps, k=k, l=l: freq(soft(l))(x / k, n * k, eps))
              for l in LOGITS for k in (1, 7)]
    if name == 'Dirichlet':
        for a in ([500., 300.], [60., 2., 900.]):
            e.append((dict(alpha=a), simplex()))
    if name in ('Concrete', 'ExpConcrete'):
        for l in CL:
            for t in (.5, 4., 50.):
                e.append((dict(temperature=t, logits=l), simplex(name == 'ExpConcrete', soft(l))))
        if name == 'Concrete':
            e += [(dict(temperature=.01, logits=l), simplex(False, soft(l))) for l in CL]
    if name == 'BinConcrete':
        for l in (-300., -50., 0., 50., 300.):
            for t in (.01, 1., 50.):
                p = 1 / (1 + math.exp(-l)) if l > -700 else 0.
                e.append((dict(temperature=t, logits=l), lambda x, n, eps, p=p: (
                    'a sample outside [0, 1]' if np.any(x < 0) or np.any(x > 1) else
                    'fraction above 1/2 is %s, the law has %s' % (np.mean(x > .5), p)
                    if abs(np.mean(x > .5) - p) > 9 * math.sqrt(p * (1 - p) / n) + 1e-6 else None)))
    if name == 'MultivariateNormalCholesky':
        for n_, s in ((1, 1e-5), (3, 1e10)):
            e.append((dict(mean=[.0] * n_, cov_tril=eyes(n_, s).tolist()), near(0., s * 1.2)))
    if name == 'MatrixVariateNormalCholesky':
        e.append((dict(mean=[[0.]], u_tril=[[1e-5]], v_tril=[[1e8]]), near(0., 1e3)))
        e.append((dict(mean=[[0., 0.]], u_tril=[[1e-4]], v_tril=[[2., 0.], [1., 2.]]), near(0., 3e-4)))
    return e


def samples(label, seed, tier, name):
    """samples of the real class at extreme valid parameters stay finite and follow the law's concentration."""
    from .env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    N = 2000
    with c.graph.as_default():
        tf.set_random_seed(seed)
    for dtype in ('float32', 'float64'):
        dt = np.dtype(dtype)
        ob = c.obl('samples at extreme valid parameters (%s)' % dtype)
        ob.kind = 'runtime'
        for a, test in sample_points(name):
            with c.graph.as_default():
                ph = {k: v if k == 'n_experiments' else tf.constant(np.asarray(v, dt)) for k, v in a.items()}
                kw = dict(dtype=getattr(tf, dtype)) if name in dists.DISCRETE and name != 'Categorical' else {}
                x = cls(**dict(ph, **kw)).sample(N)
            g = np.asarray(c.session().run(x), float)
            why = 'a non-finite sample' if not np.all(np.isfinite(g)) else test(g, N, float(np.finfo(dt).eps))
            ob.numeric += 1
            if why:
                ob.status = 'refuted'
                ob.detail = '%s(%s), %s: %s' % (name, a, dtype, why)
                ob.cex = dict(kind='samples', args=a, dtype=dtype, why=why, first=np.ravel(g)[:5].tolist())
                break
        else:
            ob.status = 'bounded'
    c.close()
    return c.obls


# --------------------------------------------------------------- objectives
def objective(label, seed, tier, which, axis):
    """Importance-weighted estimators with log joints of magnitude 1e3 to 1e4 (ordinary for images): value and
    gradients with respect to log p and log q, against weights normalised in extended precision."""
    from .env import tf
    import zhusuan as zs
    c = Case(label, seed, 'static')
    ob = c.obl('value and gradients with log weights of magnitude up to 1e4')
    ob.kind = 'runtime'
    for dtype in ('float32', 'float64'):
        dt = np.dtype(dtype)
        with c.graph.as_default():
            lp = tf.placeholder(getattr(tf, dtype), [None, None])
            lq = tf.placeholder(getattr(tf, dtype), [None, None])
            z = tf.zeros([1], getattr(tf, dtype))
            V = zs.variational
            if which == 'is':
                val, cost = zs.is_loglikelihood(lambda d: lp, {}, {'z': [z, lq]}, axis=axis), None
            elif which == 'importance':
                val, cost = None, V.klpq(lambda d: lp, {}, {'z': [z, lq]}, axis=axis).importance()
            else:
                o = V.importance_weighted_objective(lambda d: lp, {}, latent={'z': [z, lq]}, axis=axis)
                val, cost = o.tensor, getattr(o, which)()
            ts = [val] if val is not None else []
            if cost is not None:
                gs = tf.gradients(cost, [lp, lq])
                ts += [g for g in gs if g is not None]
        for off in (0., -1e3, 1e3, -1e4, 1e4, 88., -104., -300.):
            for spread in (0., 3., 40.):
                r = np.random.RandomState(3)
                P = (off + spread * r.randn(4, 3)).astype(dt)
                Q = (spread * r.randn(4, 3)).astype(dt)
                got = c.session().run(ts, {lp: P, lq: Q})
                w = np.moveaxis(P.astype(L) - Q.astype(L), axis, -1)
                S = w.shape[-1]
                wt = np.exp(w - lse(w))
                lme = (lse(w) - np.log(L(S)))
                want = []
                if val is not None:
                    want.append(lme[..., 0])
                back = lambda a: np.moveaxis(a, -1, axis)
                if which == 'sgvb':
                    want += [back(-wt), back(wt)]
                elif which == 'importance':
                    want += [back(-wt)]
                elif which == 'vimco':
                    loo = np.zeros_like(w)
                    for j in range(S):
                        y = w.copy()
                        y[..., j] = (np.sum(w, -1) - w[..., j]) / (S - 1)
                        loo[..., j] = (lse(y) - np.log(L(S)))[..., 0]
                    want += [back(-wt), back(wt - (lme - loo))]
                tol = 256 * float(np.finfo(dt).eps) * max(1., float(np.max(np.abs(w))))
                ob.numeric += 1
                bad = len(got) != len(want) and 'the cost has %d of the expected gradients' % len(got)
                for k, (g, x) in enumerate(zip(got, want)):
                    if np.shape(g) != np.shape(x) or not np.all(np.abs(np.asarray(g, float) - x.astype(float)) <= tol):
                        bad = bad or 'result %d is %s, exact value %s' % (k, np.asarray(g).tolist(),
                                                                         x.astype(float).tolist())
                if bad:
                    ob.status, ob.detail = 'refuted', bad[:600]
                    ob.cex = dict(kind='value', which=which, dtype=dtype, axis=axis, log_p=P.tolist(), log_q=Q.tolist(),
                                  why=bad)
                    c.close()
                    return c.obls
    ob.status = 'bounded'
    c.close()
    return c.obls

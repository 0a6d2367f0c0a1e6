"""C04: samples follow the law whose density is reported."""
import time
import traceback
import numpy as np
from ..case import Case
from .. import dists, extreme, frange, laws, stats
from ..tensor import Unsupported, ShapeError
from . import c01, c02, c03

FUNCTIONS = ['zhusuan.distributions.%s.%s._sample' % ('univariate' if c in dists.UNI else 'multivariate', c)
             for c in list(dists.UNI) + dists.MULTI] + [
    'zhusuan.distributions.base.Distribution.sample', 'zhusuan.distributions.utils.open_interval_standard_uniform',
    'zhusuan.distributions.utils.maybe_explicit_broadcast']
ASSUMPTIONS = [
    'Contracts of the random operators: RandomStandardNormal / RandomUniform / RandomGamma / RandomPoissonV2 / Multinomial '
    'return arrays of independent elements with the stated law; distinct random ops are independent.',
    'Measure-theoretic lemmas used as schemas: change of variables in one dimension, gamma ratio = beta, normalised '
    'gammas = Dirichlet, Gumbel-softmax = Concrete (Maddison et al. 2016), affine image of a standard Gaussian, sums of '
    'categorical draws = binomial/multinomial.',
    'Where the transformation does not match a law contract the obligation falls back to a statistical test against '
    'the object\'s own log_prob (bounded, false-alarm probability below 1e-7 per test, fixed seeds).']
MODES = ['static', 'dynamic', 'unknown', 'partial']


def one(label, seed, tier, name, pat, mode, n, ne=None, dims=None, **kw):
    from ..env import tf
    c = Case(label, seed, mode, trials=0, dims=dims)
    c.dims.setdefault('NS', 3)
    c03.setup(c, name, ne, kw)
    b = dists.make(c, name, pat[0], None, **kw)
    na, lead = c03.nsamples(c, n)
    with c.graph.as_default():
        s = b.dist.sample(na)
        s2 = b.dist.sample(na)
    ob = c.obl('law of sample() = reported density, independent across positions')
    t0 = time.time()
    P = laws.Prover(c, ob)
    try:
        laws.law(c, P, b, c.ev().ten(s), len(lead))
        ob.status, ob.backend, ob.gv = 'proved', 'law contract + normal form + z3', P.regions
    except laws.NoMatch as e:
        ob.status, ob.detail = 'unsupported', 'no law contract matches: %s' % e
    except Unsupported as e:
        ob.status, ob.detail = 'unsupported', 'Unsupported: %s' % e
    except ShapeError as e:
        ob.status, ob.detail = 'unsupported', 'ill-shaped: %s' % e
    except Exception:
        ob.status, ob.detail = 'unsupported', 'engine: ' + traceback.format_exc(limit=-3)
    ob.used = P.used
    if ob.status != 'proved':
        stats.statistical(c, b, s, lead, ob, seed)
    ob.time_s = time.time() - t0
    fresh_noise(c, s, s2)
    endpoints(c, b, s)
    c.close()
    return c.obls


RANDOM = {'RandomStandardNormal', 'RandomUniform', 'RandomGamma', 'RandomPoissonV2', 'Multinomial', 'TruncatedNormal',
          'RandomUniformInt', 'RandomPoisson', 'RandomShuffle', 'ParameterizedTruncatedNormal'}


def random_ops(t):
    from .c17 import ancestors
    return {o for o in ancestors(t) if o.type in RANDOM or o.type.startswith('StatelessRandom')}


def fresh_noise(c, s, s2):
    a, b = random_ops(s), random_ops(s2)
    seeds = lambda os: [(o.get_attr('seed'), o.get_attr('seed2')) for o in os if 'seed' in o.node_def.attr]
    bad = ''
    if not a or not b:
        bad = 'sample() uses no random operator'
    elif a & b:
        bad = 'two sample() calls share the random op %s' % sorted(o.name for o in a & b)
    else:
        sa = [x for x in seeds(a) + seeds(b) if x != (0, 0)]
        if len(sa) != len(set(sa)):
            bad = 'two random ops carry the same fixed seed %s' % sa
    c.fact('every sample() call draws fresh randomness', not bad, bad)


def endpoints(c, b, s):
    """Extreme outputs of the uniform generator still give a value of the support."""
    ops = [o for o in random_ops(s) if o.type == 'RandomUniform']
    if not ops or b.name == 'Bernoulli':
        return
    ob = c.obl('extreme uniform draws stay inside the support')
    ob.kind = 'runtime'
    for trial in range(3):
        dims, vals = c.gen(trial)
        dims['NS'] = max(1, dims.get('NS', 2))
        fd = c.feed(vals, dims)
        for which in ('lo', 'hi'):
            f2 = dict(fd)
            for o in ops:
                shp = c.session().run(o.inputs[0], fd)
                dt = o.outputs[0].dtype.as_numpy_dtype
                eps = {np.float16: 2. ** -10, np.float32: 2. ** -23, np.float64: 2. ** -52}[dt]
                f2[o.outputs[0]] = np.full(shp, 0. if which == 'lo' else 1. - eps, dt)
            out = np.asarray(c.session().run(s, f2), float)
            ok = np.all(np.isfinite(out))
            if b.name in ('ExpConcrete',):
                ok = ok and np.all(out <= 1e-5)
            if b.name == 'Uniform' and 'minval' in vals:
                ok = ok and np.all(out >= np.min(vals['minval'])) and np.all(out <= np.max(vals['maxval']))
            ob.numeric += 1
            if not ok:
                ob.status = 'refuted'
                ob.detail = 'uniform draw %s gives sample %s' % (which, np.ravel(out)[:4])
                from ..case import js
                ob.cex = dict(kind='value', inputs=js(vals), noise=which, got=np.ravel(out)[:8].tolist())
                return
    try:
        rs = frange.noise_ranges(s)
        if not rs:
            raise frange.NoRange('no noise found')
        ob.status, ob.backend, ob.kind = 'proved', 'float interval analysis of the noise: ' + '; '.join(
            '%s in [%.9g, %.9g]' % (k, a, z) for _, k, a, z in rs[:4]), 'float range'
    except frange.NoRange as e:
        ob.status, ob.detail = 'bounded', str(e)


def cases(tier, seed):
    out = []
    for name in list(dists.UNI) + dists.MULTI:
        if name == 'UnnormalizedMultinomial':
            continue
        pats = c01.PATTERNS if name in dists.UNI else c03.MULTIPAT
        npar = 1 if name in dists.MULTI or name == 'BinConcrete' else len(dists.UNI[name][0])
        seen, ps = set(), []
        for p in pats + [([['C', 'B', 'A'], ['C', 'B', 'A']], [])]:
            key = repr((p[0][:npar]))
            if key not in seen:
                seen.add(key)
                ps.append(p)
        k = 0
        opts = []
        if name in dists.REPARAM:
            opts += [dict(is_reparameterized=r) for r in (True, False)]
        else:
            opts += [{}]
        if name in ('Normal', 'FoldNormal'):
            opts = [dict(o, alias=al) for o in opts for al in ('std', 'logstd')]
        if name in ('Binomial', 'Multinomial'):
            opts = [dict(o, ne=x) for o in opts for x in ('int', 'ph', 'one')]
        if name in dists.DISCRETE:
            opts = [dict(o, vdtype=v) for o in opts for v in (None, 'float64', 'int64', 'float32')]
        if name == 'Multinomial':
            opts += [dict(ne=x, normalize=False) for x in ('int', 'ph')]
        for pat in ps:
            for mode in MODES:
                for n in (None, 1, 3, 'ph'):
                    k += 1
                    out.append(dict(name=name, pat=pat, mode=mode, n=n, **opts[k % len(opts)]))
        for o in opts:
            for dt in ('float32', 'float64'):
                for n in (None, 3):
                    out.append(dict(name=name, pat=ps[0], mode='dynamic', n=n, dtype=dt, **o))
        for dims in (dict(A=1), dict(B=1, K=1), dict(A=5, B=4, D=1, R=1), dict(K=4, D=4, L=3)):
            if name == 'Dirichlet' and dims.get('K') == 1:
                dims = dict(B=1, K=2)
            for n in (None, 4):
                out.append(dict(name=name, pat=ps[0], mode='static', n=n, dims=dims, **opts[0]))
        for pat in ps:
            for n in (None, 2):
                out.append(dict(name=name, pat=pat, mode='static', n=n, dims=c01.EQUAL, **opts[0]))
        if name in dists.CHECKNUM:
            out.append(dict(name=name, pat=ps[0], mode='dynamic', n=3, check_numerics=True))
        if name in dists.PATHDERIV:
            out.append(dict(name=name, pat=ps[0], mode='dynamic', n=3, use_path_derivative=True))
        out.append(dict(name=name, pat=ps[0], mode='dynamic', n=3, group_ndims=1))
    for name in list(dists.UNI) + dists.MULTI:
        if name != 'UnnormalizedMultinomial':
            yield 'extreme[%s]' % name, extreme.samples, dict(name=name)
    for kw in out:
        yield '%s[%s]' % (kw['name'], ','.join('%s=%s' % i for i in kw.items() if i[0] != 'name')), one, kw

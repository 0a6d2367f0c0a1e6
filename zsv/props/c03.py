"""C03: batch, value and group shapes."""
from ..case import Case
from .. import dists, terms as tm, tensor as tn
from ..dists import grouped
from ..tensor import elementwise, vector, Ten
from ..terms import ival
from . import c01, c02

MULTIPAT = [([p[0]], p[1]) for p in c02.PATTERNS]
FUNCTIONS = ['zhusuan.distributions.%s.%s.%s' % ('univariate' if c in dists.UNI else 'multivariate', c, m)
             for c in list(dists.UNI) + dists.MULTI
             for m in ('_value_shape', '_get_value_shape', '_batch_shape', '_get_batch_shape', '_sample', '_log_prob')] + [
    'zhusuan.distributions.base.Distribution.%s' % m for m in (
        '__init__', 'value_shape', 'get_value_shape', 'batch_shape', 'get_batch_shape', 'sample', 'log_prob', 'prob')]
ASSUMPTIONS = ['log_prob values at group_ndims=0 are the contracts of C01/C02; here grouping is proved relative to them.']
MODES = ['static', 'dynamic', 'unknown', 'partial']


def setup(c, name, ne, kw):
    if name in ('Binomial', 'Multinomial'):
        kw['n_exp'] = {'int': 3, 'one': 1}.get(ne, 3)
        if ne == 'ph':
            kw['n_exp'] = c.intph('ne', 'NE')


def nsamples(c, n):
    """(argument passed to sample, leading dims of the spec)"""
    from ..env import tf
    if n is None:
        return None, []
    if isinstance(n, int):
        return n, [n]
    if n == 'ph':
        return c.intph('n', 'NS'), ['NS']
    with c.graph.as_default():
        k = int(n[1:])
        return tf.constant(k), [k]


def dimterm(c, s):
    if s == 'NS':
        return tm.dim('NS')
    return c.cdim(s)


def shapes(label, seed, tier, name, pat, mode, n, ne=None, dims=None, **kw):
    from ..env import tf
    c = Case(label, seed, mode, trials=2 if tier == 'quick' else 5, dims=dims)
    c.dims.setdefault('NS', 3)
    setup(c, name, ne, kw)
    b = dists.make(c, name, pat[0], None, **kw)
    na, lead = nsamples(c, n)
    d = b.dist
    with c.graph.as_default():
        s = d.sample(na) if n != 'default' else d.sample()
        ss = tf.shape(s)
        bs, vs = d.batch_shape, d.value_shape
    vec = lambda l: vector([dimterm(c, x) for x in l])
    c.prove('sample shape = [n] + batch_shape + value_shape', ss, vec(lead + b.batch + b.valshape))
    c.prove('batch_shape = broadcast of the parameter batch axes', bs, vec(b.batch))
    c.prove('value_shape = value axes', vs, vec(b.valshape))
    # symbolic sizes are never statically known in the non-static modes
    st = lambda l: [x if isinstance(x, int) or c.concrete else x for x in l]
    lead2 = lead
    c.static_ok('static sample shape is not contradicted', s.get_shape(), [x if x != 'NS' else 'NS?' for x in lead2] +
                b.batch + b.valshape) if 'NS' not in lead else static_skip(c, s, b)
    c.static_ok('get_batch_shape() is not contradicted', d.get_batch_shape(), b.batch)
    c.static_ok('get_value_shape() is not contradicted', d.get_value_shape(), b.valshape)
    if mode == 'static':
        c.fact('static shapes of static parameters are fully defined', d.get_batch_shape().is_fully_defined() and
               d.get_value_shape().is_fully_defined(), '%s %s' % (d.get_batch_shape(), d.get_value_shape()))
    c.close()
    return c.obls


def static_skip(c, s, b):
    sh = s.get_shape()
    ok = sh.ndims is None or (sh.ndims == 1 + len(b.batch + b.valshape) and sh.as_list()[0] is None)
    c.fact('static leading axis of a dynamic n is unknown', ok, str(sh))
    if sh.ndims is not None and ok:
        c.static_ok('static sample shape is not contradicted', sh[1:], b.batch + b.valshape)


def groups(label, seed, tier, name, pat, mode, g, ne=None, gkind='int', dims=None, **kw):
    """log_prob/prob with group_ndims=g = sum/product over the last g axes of those with 0."""
    from ..env import tf
    c = Case(label, seed, mode, trials=2 if tier == 'quick' else 5, dims=dims)
    setup(c, name, ne, kw)
    if g:
        if gkind == 'const':
            with c.graph.as_default():
                gg = tf.constant(g, tf.int32)
        elif gkind == 'np':
            import numpy as np
            gg = np.int32(g)
        else:
            gg = g
        kw['group_ndims'] = gg
    b = dists.make(c, name, pat[0], pat[1], **kw)
    k2 = dict(b.kwargs)
    k2.pop('group_ndims', None)
    with c.graph.as_default():
        d0 = dists.dist_class(name)(**k2)
        lp, p = b.dist.log_prob(b.given), b.dist.prob(b.given)
        lp0, p0 = d0.log_prob(b.given), d0.prob(b.given)
    full = dists.sbcast(b.batch, list(pat[1]))
    e0, ep0 = c.ev().ten(lp0), c.ev().ten(p0)
    ok = e0.rank == len(full) and all(tn.same(x, c.cdim(y)) for x, y in zip(e0.shape, full))
    c.fact('log_prob axes = broadcast batch axes', ok, '%s vs %s' % (e0.shape, full))
    c.prove('log_prob sums exactly the last group_ndims axes', lp, grouped(e0, g))
    c.prove('prob multiplies exactly the last group_ndims axes', p, grouped(ep0, g, 'prod'))
    fin = full[:len(full) - g] if g else full
    c.static_ok('static log_prob shape is not contradicted', lp.get_shape(), fin)
    c.static_ok('static prob shape is not contradicted', p.get_shape(), fin)
    c.close()
    return c.obls


def cases(tier, seed):
    out = []
    for name in list(dists.UNI) + dists.MULTI:
        pats = c01.PATTERNS if name in dists.UNI else MULTIPAT
        npar = 1 if name in dists.MULTI or name == 'BinConcrete' else len(dists.UNI[name][0])
        seen, ps = set(), []
        for p in pats:
            key = repr((p[0][:npar]))
            if key not in seen:
                seen.add(key)
                ps.append(p)
        k = 0
        for pat in ps:
            for mode in MODES:
                for n in (None, 1, 3, 'ph', 'c2'):
                    kw = dict(name=name, pat=pat, mode=mode, n=n)
                    k += 1
                    if name in ('Normal', 'FoldNormal'):
                        kw['alias'] = ['std', 'logstd'][k % 2]
                    if name in ('Binomial', 'Multinomial'):
                        kw['ne'] = ['int', 'ph', 'one'][k % 3]
                    if name in dists.DISCRETE:
                        kw['vdtype'] = [None, 'float64', 'int64', 'float32'][k % 4]
                    if name in dists.REPARAM:
                        kw['is_reparameterized'] = k % 2 == 0
                    if name == 'UnnormalizedMultinomial':
                        continue
                    out.append((shapes, kw))
        if name != 'UnnormalizedMultinomial':
            for dims in (dict(A=1), dict(B=1, K=1), dict(A=5, B=4, D=1, R=1), dict(K=4, D=4, L=3)):
                if name == 'Dirichlet' and dims.get('K') == 1:
                    dims = dict(B=1, K=2)
                for n in (None, 1, 4, 'ph'):
                    kw = dict(name=name, pat=ps[0], mode='static', n=n, dims=dims)
                    if name in ('Binomial', 'Multinomial'):
                        kw['ne'] = 'int'
                    out.append((shapes, kw))
            for pat in ps:
                for n in (None, 2):
                    kw = dict(name=name, pat=pat, mode='static', n=n, dims=c01.EQUAL)
                    if name in ('Binomial', 'Multinomial'):
                        kw['ne'] = 'int'
                    out.append((shapes, kw))
        for pat in pats:
            out.append((groups, dict(name=name, pat=pat, mode='static', g=0, gkind='int', dims=c01.EQUAL, **(
                {'ne': 'int'} if name in ('Binomial', 'Multinomial') else {}))))
        k = 0
        for pat in pats:
            r = len(dists.sbcast(*(pat[0][:npar] + [pat[1]])))
            for g in range(0, r + 1):
                for mode in MODES[:3]:
                    k += 1
                    kw = dict(name=name, pat=pat, mode=mode, g=g, gkind=['int', 'const', 'np'][k % 3])
                    if name in ('Binomial', 'Multinomial'):
                        kw['ne'] = ['int', 'ph', 'one'][k % 3]
                    if name in dists.DISCRETE:
                        kw['vdtype'] = [None, 'float64', 'int64', 'float32'][k % 4]
                    out.append((groups, kw))
    for f, kw in out:
        yield '%s %s[%s]' % (f.__name__, kw['name'], ','.join('%s=%s' % i for i in kw.items() if i[0] != 'name')), f, kw

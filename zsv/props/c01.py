"""C01: univariate log densities."""
from ..case import Case
from .. import dists, extreme, terms as tm, tensor as tn
from ..dists import grouped
from ..tensor import elementwise

FUNCTIONS = ['zhusuan.distributions.univariate.%s.%s' % (c, m) for c in dists.UNI
             for m in ('__init__', '_log_prob', '_prob')] + [
    'zhusuan.distributions.base.Distribution.log_prob', 'zhusuan.distributions.base.Distribution.prob',
    'zhusuan.distributions.base.Distribution._check_input_shape',
    'zhusuan.distributions.utils.maybe_explicit_broadcast', 'zhusuan.distributions.utils.explicit_broadcast']
ASSUMPTIONS = ['Points of the support are quantified as: positive reals for Gamma/InverseGamma, (0,1) for Beta and '
               'BinConcrete, non-negative integers for counts, category indices in [0,K).']

PATTERNS = [
    # (shapes of the parameters, shape of x)
    ([['B', 'A'], ['B', 'A']], ['B', 'A']),
    ([['B', 'A'], [1, 'A']], ['S', 'B', 'A']),
    ([['A'], ['B', 'A']], ['A']),
    ([[], ['A']], ['S', 'A']),
    ([['A'], []], ['A']),
    ([[], []], []),
    ([[], []], ['B', 'A']),
    ([['B', 1], [1, 'A']], ['S', 1, 'A']),
    ([['S', 'B', 'A'], ['B', 'A']], ['S', 'B', 'A']),
]
MODES = ['static', 'dynamic', 'unknown']
EQUAL = dict(A=2, B=2, S=2, K=2, D=2, R=2, L=2)     # static sizes that coincide


def brank(pat, npar):
    return len(dists.sbcast(*(pat[0][:npar] + [pat[1]])))


def one(label, seed, tier, name, pat, mode, g, gmode=None, given_mode=None, dtype='float64', vdtype=None,
        ne=None, support=False, tensor_g=False, dims=None, **kw):
    c = Case(label, seed, mode, trials=3 if tier == 'quick' else 8,
             concrete='static' in (mode, given_mode), dims=dims)
    from ..env import tf
    if name in ('Binomial', 'Multinomial'):
        kw['n_exp'] = {'int': 3, 'ph': None, 'one': 1}.get(ne, 3)
        if ne == 'ph':
            kw['n_exp'] = c.intph('ne', 'NE')
        if ne == 'none':
            kw['n_exp'] = None
    if support and name == 'FoldNormal':
        kw['given_dom'] = 'nonneg'
    gg = g
    if tensor_g:
        with c.graph.as_default():
            gg = tf.constant(g, tf.int32)
    b = dists.make(c, name, pat[0], pat[1], dtype=dtype, vdtype=vdtype, given_mode=given_mode,
                   group_ndims=gg, **kw)
    if support and name == 'Uniform':
        uniform_support(c, b)
    with c.graph.as_default():
        lp = b.dist.log_prob(b.given)
        p = b.dist.prob(b.given)
    spec = grouped(b.logp, g)
    if g == 0:
        accessors(c, b)
    c.prove('log_prob = textbook log density', lp, spec, numeric=dtype != 'float16')
    c.prove('prob = exp(log_prob)', p, elementwise(tm.exp, spec), numeric=dtype != 'float16',
            alts=[('exp_sum_prod', grouped(elementwise(tm.exp, b.logp), g, 'prod'))] if g else ())
    c.close()
    return c.obls


def accessors(c, b):
    """The parameter properties denote the parameters the law was built with."""
    for a in b.args:
        if hasattr(b.dist, a):
            c.prove('.%s is the parameter given' % a, getattr(b.dist, a), c.ten(a))
    if 'std' in b.args:
        c.prove('.logstd = log(std)', b.dist.logstd, elementwise(tm.log, c.ten('std')))
    if 'logstd' in b.args:
        c.prove('.std = exp(logstd)', b.dist.std, elementwise(tm.exp, c.ten('logstd')))
    if b.name in ('Binomial', 'Multinomial') and isinstance(b.n_exp, int):
        c.fact('.n_experiments is the number given', not c.graph_int(b.dist.n_experiments) != b.n_exp,
               repr(b.dist.n_experiments))


def uniform_support(c, b):
    """restrict x to [minval, maxval): facts used under the group sum."""
    lo, hi = c.ten('minval'), c.ten('maxval')
    X = c.ten('x')

    def rule(N, p):
        for m, k in p.items:
            for a, e in m:
                at = N.atoms[a]
                if at.kind == 'rd' and at.data[0] == 'x':
                    idx = []
                    for q in at.data[1]:
                        if len(q.items) == 1 and len(q.items[0][0]) == 1 and q.items[0][1] == 1 and \
                                N.atoms[q.items[0][0][0][0]].kind == 'v':
                            idx.append(tm.mk('v', (N.atoms[q.items[0][0][0][0]].data[0],), 'I'))
                        else:
                            kk = N.isconst(q)
                            if kk is None:
                                return None
                            idx.append(tm.ival(kk))
                    # x has at least the rank of the batch here
                    x = tm.rd('x', idx)
                    saved, N.facts = N.facts, N.facts.copy()
                    N.facts.posrule = None
                    try:
                        u = N.nf(tm.sub(hi.at(*tn.bidx(hi.shape, idx)), x))
                        l = N.nf(tm.sub(x, lo.at(*tn.bidx(lo.shape, idx))))
                    finally:
                        N.facts = saved
                    if p is u:
                        return '+'
                    if p is l:
                        return '0'
                    return None
        return None
    c.facts.posrule = rule

    def gen(v, d, t):
        import numpy as np
        mn, mx = v['c0'] - v['offset'], v['c0'] + v['width']
        sh = v['x'].shape
        u = np.random.RandomState(t).uniform(0, 1, size=np.broadcast(v['x'], mn, mx).shape)
        x = mn + u * (mx - mn)
        v['x'] = np.array(np.broadcast_to(x, sh), dtype=v['x'].dtype)
    c.post_gen.append(gen)


def uni_cases(tier):
    out = []
    for name in dists.UNI:
        npar = len(dists.UNI[name][0])
        pats = PATTERNS
        if npar == 1 or name == 'BinConcrete':
            seen, pats = set(), []
            for p in PATTERNS:
                key = (tuple(p[0][0]), tuple(p[1]))
                if key not in seen:
                    seen.add(key)
                    pats.append(p)
            pats.append(([['B', 'A']], ['A']))
            pats.append(([['A']], ['S', 'B', 'A']))
        for pi, pat in enumerate(pats):
            r = brank(pat, 1 if name == 'BinConcrete' else npar)
            for mi, mode in enumerate(MODES):
                for g in range(0, min(r, 2 if tier == 'quick' else 3) + 1):
                    sup = name in ('Uniform', 'FoldNormal') and g > 0
                    if sup and name == 'Uniform' and len(pat[1]) < len(dists.sbcast(*pat[0])):
                        continue
                    if sup and name == 'Uniform' and 1 in pat[1]:
                        continue
                    kw = dict(name=name, pat=pat, mode=mode, g=g, support=sup)
                    k = pi + mi + g
                    if name in ('Normal', 'FoldNormal'):
                        kw['alias'] = ['std', 'logstd'][k % 2]
                    if name in ('Binomial',):
                        kw['ne'] = ['int', 'ph', 'one'][k % 3]
                    if name in dists.DISCRETE:
                        kw['vdtype'] = [None, 'float64', 'int64', 'float32'][k % 4]
                    if name in dists.CHECKNUM and not (name == 'Uniform' and not sup):
                        kw['check_numerics'] = k % 2 == 1
                    out.append(kw)
        # options that must not change values
        base = dict(name=name, pat=pats[1], mode='dynamic', g=1, support=name in ('Uniform', 'FoldNormal'))
        extra = [dict(dtype='float32')] + ([] if name == 'Categorical' else [dict(dtype='float16')]) + [dict(tensor_g=True), dict(given_mode='static', mode='unknown'),
                 dict(given_mode='unknown', mode='static'), dict(given_mode='unknown', mode='dynamic'),
                 dict(given_mode='dynamic', mode='unknown'), dict(mode='partial'),
                 dict(mode='static', dims=dict(A=1)), dict(mode='static', dims=dict(B=1, A=4)),
                 dict(mode='static', dims=dict(S=1, B=5, K=5)), dict(mode='static', dims=dict(K=1))]
        if name in ('Normal', 'FoldNormal'):
            for al in ('std', 'logstd'):
                for cn in (False, True):
                    extra.append(dict(alias=al, check_numerics=cn))
                    extra.append(dict(alias=al, check_numerics=cn, use_path_derivative=True))
        elif name in dists.CHECKNUM:
            extra += [dict(check_numerics=True), dict(check_numerics=False)]
        if name in dists.PATHDERIV:
            extra.append(dict(use_path_derivative=True))
        if name in dists.REPARAM:
            extra.append(dict(is_reparameterized=False))
        if name in dists.DISCRETE:
            extra += [dict(vdtype=v) for v in ('int32', 'int64', 'float32', 'float64') +
                      (('int16',) if name != 'Categorical' else ())]
            if name != 'Categorical':
                extra.append(dict(vdtype='int64', dtype='float32'))
        if name == 'Binomial':
            extra += [dict(ne=n) for n in ('int', 'ph', 'one')]
        for pat in pats:
            extra.append(dict(pat=pat, mode='static', g=0, dims=EQUAL, support=False))
        for e in extra:
            d = dict(base)
            d.update(e)
            out.append(d)
    return out


def cases(tier, seed):
    for name in dists.UNI:
        yield 'extreme[%s]' % name, extreme.logprob, dict(name=name)
    for kw in uni_cases(tier):
        lab = '%s[%s]' % (kw['name'], ','.join('%s=%s' % (k, v) for k, v in kw.items() if k != 'name'))
        yield lab, one, kw

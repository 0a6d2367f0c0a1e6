"""C02: multivariate log densities."""
from .. import dists, extreme
from .c01 import one, EQUAL

FUNCTIONS = ['zhusuan.distributions.multivariate.%s.%s' % (c, m) for c in dists.MULTI
             for m in ('__init__', '_log_prob', '_prob')] + [
    'zhusuan.distributions.base.Distribution.log_prob', 'zhusuan.distributions.base.Distribution.prob',
    'zhusuan.distributions.base.Distribution._check_input_shape',
    'zhusuan.distributions.utils.maybe_explicit_broadcast', 'zhusuan.distributions.utils.explicit_broadcast']
ASSUMPTIONS = ['Points of the support are quantified as: one-hot vectors, non-negative integer count vectors (with '
               'the total equal to n_experiments where one is given), positive vectors for Dirichlet/Concrete, real '
               'vectors for ExpConcrete and the normals (the densities are extended off the simplex by the same '
               'formula, so equality there implies equality on it).',
               'Cholesky factors have positive diagonal; matrix_triangular_solve is the unique solution of the '
               'triangular system of the lower triangle.']

PATTERNS = [
    (['B', 'A'], ['B', 'A']),
    (['B', 'A'], ['S', 'B', 'A']),
    (['A'], ['A']),
    ([], []),
    ([], ['A']),
    ([], ['B', 'A']),
    (['A'], ['B', 'A']),
    (['A'], []),
    (['B', 'A'], ['A']),
    (['B', 1], ['S', 1, 'A']),
    (['B', 'A'], [1, 'A']),
    (['B', 1], [1, 'A']),
    ([1], ['A']),
]
MODES = ['static', 'dynamic', 'unknown']


def cases(tier, seed):
    for name in dists.MULTI:
        yield 'extreme[%s]' % name, extreme.logprob, dict(name=name)
    n = 0
    for name in dists.MULTI:
        for pi, pat in enumerate(PATTERNS):
            r = len(dists.sbcast(pat[0], pat[1]))
            for mi, mode in enumerate(MODES):
                for g in range(0, min(r, 2 if tier == 'quick' else 3) + 1):
                    kw = dict(name=name, pat=([pat[0]], pat[1]), mode=mode, g=g)
                    k = pi + mi + g
                    if name == 'Multinomial':
                        kw['ne'] = ['int', 'ph', 'none', 'one'][k % 4]
                    if name in ('Multinomial', 'UnnormalizedMultinomial'):
                        kw['normalize'] = (k // 2) % 2 == 0
                    if name in dists.DISCRETE:
                        kw['vdtype'] = [None, 'float64', 'int64', 'float32'][(pi + 2 * mi + g) % 4]
                    if name in dists.CHECKNUM:
                        kw['check_numerics'] = k % 2 == 1
                    yield lab(kw), one, kw
        base = dict(name=name, pat=([['B', 'A']], ['S', 'B', 'A']), mode='dynamic', g=1)
        extra = [dict(dtype='float32'), dict(dtype='float16'), dict(tensor_g=True), dict(given_mode='static', mode='unknown'),
                 dict(given_mode='unknown', mode='static'), dict(given_mode='unknown', mode='dynamic'),
                 dict(given_mode='dynamic', mode='unknown'), dict(mode='partial')]
        if name in dists.CHECKNUM:
            extra += [dict(check_numerics=True), dict(check_numerics=False)]
        if name in dists.PATHDERIV:
            extra.append(dict(use_path_derivative=True))
        if name in dists.REPARAM:
            extra.append(dict(is_reparameterized=False))
        if name in dists.DISCRETE:
            extra += [dict(vdtype=v) for v in ('int16', 'int32', 'int64', 'float32', 'float64')]
            extra.append(dict(vdtype='int64', dtype='float32'))
        if name == 'Multinomial':
            extra += [dict(ne=x, normalize=y, g=z) for x in ('int', 'ph', 'one', 'none') for y in (True, False)
                      for z in (0, 1)]
        if name == 'UnnormalizedMultinomial':
            extra += [dict(normalize=y, mode=m) for y in (True, False) for m in MODES]
        # particular static sizes
        for dims in (dict(K=1, R=1, L=1, D=1), dict(K=5, D=5, R=1, L=3), dict(A=1), dict(B=1, A=4), dict(R=4, L=1)):
            if name == 'Dirichlet' and dims.get('K') == 1:
                continue
            extra.append(dict(mode='static', dims=dims))
        for pat in PATTERNS:
            extra.append(dict(pat=([pat[0]], pat[1]), mode='static', g=0, dims=EQUAL))
        for e in extra:
            d = dict(base)
            d.update(e)
            yield lab(d), one, d


def lab(kw):
    return '%s[%s]' % (kw['name'], ','.join('%s=%s' % (k, v) for k, v in kw.items() if k != 'name'))

"""C06: invalid parameters are rejected, valid ones keep their dtype."""
import numpy as np
import time
import traceback
from ..case import Case, js
from .. import dists, terms as tm, tensor as tn, smt
from ..graph import GraphEval
from ..prove import prove_eq
from ..symint import regions
from ..tensor import Ten, Unsupported
from ..terms import ival
from . import c01, c03

FUNCTIONS = ['zhusuan.distributions.%s.%s.__init__' % ('univariate' if c in dists.UNI else 'multivariate', c)
             for c in list(dists.UNI) + dists.MULTI] + [
    'zhusuan.distributions.base.Distribution.__init__', 'zhusuan.distributions.base.Distribution._check_input_shape'] + [
    'zhusuan.distributions.utils.' + f for f in (
        'assert_same_dtype_in', 'assert_same_float_dtype', 'assert_dtype_in_dtypes', 'assert_dtype_is_int_or_float',
        'assert_rank_at_least', 'assert_rank_at_least_one', 'assert_scalar', 'assert_positive_int32_scalar',
        'ensure_logstd_std_order_change', 'floating_dtypes', 'integer_dtypes', 'get_shape_at', 'get_shape_list')]
ASSUMPTIONS = ['dtypes are decided by enumerating every TensorFlow dtype (finite domain); ranks are enumerated up to 3.',
               'For Python integers the real constructor is executed on a representative of every region of the integers '
               'that its own comparisons distinguish (zsv/symint.py).',
               'The runtime raises InvalidArgumentError when an Assert / CheckNumerics op that the output depends on '
               'fails (the conditions themselves are discharged symbolically), and its own shape errors for '
               'incompatible dynamic shapes (runtime-rejection runs, counted as bounded).']
ALLD = ['float16', 'float32', 'float64', 'bfloat16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'bool',
        'complex64', 'complex128', 'string']
FL = ['float16', 'float32', 'float64']
INT = ['int16', 'int32', 'int64']
CATD = ['float32', 'float64', 'int32', 'int64']


def errs():
    from ..env import tf
    return (TypeError, ValueError, tf.errors.InvalidArgumentError, NotImplementedError)


def value_dtypes(name):
    return CATD if name == 'Categorical' else INT + FL


def param_dtypes(name):
    return ['float32', 'float64'] if name == 'Categorical' else FL


def base_args(name, tf, dt=None, shapes=None):
    """valid parameters by argument; dt: {arg: dtype}"""
    dt = dt or {}
    z = lambda a, s: tf.zeros(s, getattr(tf, dt.get(a, 'float32'))) if dt.get(a) != 'string' else tf.constant(
        np.full(s, 'x', object), tf.string)
    o = lambda a, s: (tf.cast(tf.ones(s, tf.float32), getattr(tf, dt.get(a, 'float32')))
                      if dt.get(a) != 'string' else z(a, s))
    if name in ('Normal', 'FoldNormal'):
        return dict(mean=z('mean', [2, 3]), std=o('std', [2, 3]))
    if name == 'Uniform':
        return dict(minval=z('minval', [2, 3]), maxval=o('maxval', [2, 3]))
    if name in ('Gamma', 'Beta', 'InverseGamma'):
        return dict(alpha=o('alpha', [2, 3]), beta=o('beta', [2, 3]))
    if name == 'Laplace':
        return dict(loc=z('loc', [2, 3]), scale=o('scale', [2, 3]))
    if name == 'Poisson':
        return dict(rate=o('rate', [2, 3]))
    if name == 'Bernoulli':
        return dict(logits=z('logits', [2, 3]))
    if name == 'Binomial':
        return dict(logits=z('logits', [2, 3]), n_experiments=4)
    if name in ('BinConcrete', 'ExpConcrete', 'Concrete'):
        return dict(temperature=o('temperature', []), logits=z('logits', [2, 3]))
    if name in ('Categorical', 'OnehotCategorical', 'UnnormalizedMultinomial'):
        return dict(logits=z('logits', [2, 3]))
    if name == 'Multinomial':
        return dict(logits=z('logits', [2, 3]), n_experiments=4)
    if name == 'Dirichlet':
        return dict(alpha=o('alpha', [2, 3]))
    if name == 'MultivariateNormalCholesky':
        return dict(mean=z('mean', [2, 3]), cov_tril=o('cov_tril', [2, 3, 3]))
    if name == 'MatrixVariateNormalCholesky':
        return dict(mean=z('mean', [2, 3, 4]), u_tril=o('u_tril', [2, 3, 3]), v_tril=o('v_tril', [2, 4, 4]))
    raise KeyError(name)


def tensor_args(name):
    import tensorflow as tf
    with tf.Graph().as_default():
        return [a for a in base_args(name, tf) if a != 'n_experiments']


def sample_given(name, dist, tf):
    vs = {'MatrixVariateNormalCholesky': [2, 3, 4]}.get(name, [2, 3] if name != 'Categorical' else [2])
    d = dist.dtype
    if name in ('Concrete', 'Dirichlet'):
        return tf.fill(vs, tf.cast(1. / 3, d))
    if name in ('BinConcrete', 'Beta'):
        return tf.fill(vs, tf.cast(.5, d))
    if name in ('Gamma', 'InverseGamma'):
        return tf.cast(tf.ones(vs), d)
    return tf.zeros(vs, d)


def must_reject(c, what, build, outputs=None, feeds=None, prove=False):
    """Obligation: `build` raises, or every listed output raises when evaluated."""
    from ..env import tf
    ob = c.obl('rejected: ' + what)
    ob.kind = 'rejection'
    with c.graph.as_default():
        try:
            d = build()
        except errs() as e:
            ob.status, ob.backend = 'proved', 'raised %s at construction' % type(e).__name__
            return ob
        if outputs is None:
            ob.status, ob.detail = 'refuted', 'accepted: %s' % what
            ob.cex = dict(kind='accepted', configuration=what)
            return ob
        outs = []
        for nm, f in outputs:
            try:
                outs.append((nm, f(d)))
            except errs() as e:
                outs.append((nm, None))
    for nm, t in outs:
        if t is None:
            ob.numeric += 1
            continue
        for k, fd in enumerate(feeds or [{}]):
            try:
                r = c.session().run(t, fd)
            except Exception as e:
                ob.numeric += 1
                continue
            ob.status = 'refuted'
            ob.detail = '%s accepted by %s: evaluates to %s' % (what, nm, np.ravel(r)[:4])
            ob.cex = dict(kind='accepted', configuration=what, output=nm, feed={
                getattr(x, 'name', str(x)): np.asarray(y).tolist() for x, y in fd.items()})
            return ob
    ob.status = 'bounded'
    if all(t is None for _, t in outs):
        ob.status, ob.backend = 'proved', 'raised at construction of every output'
        return ob
    if prove and (len(feeds or []) <= 1 or prove == 'rank'):
        # an operation that every output needs fails at these shapes whatever the values are
        from ..norm import Facts
        bind = {}
        for x, y in (feeds or [{}])[0].items():
            bind[x.name] = Ten([tm.dim('N%d_' % k) if prove == 'rank' else ival(n) for k, n in enumerate(np.shape(y))], (lambda nm, srt: lambda *i: tm.rd(nm, i, srt))(
                'arg_' + x.op.name, 'I' if x.dtype.is_integer else 'R'), x.dtype.name)
        why = []
        try:
            for nm, t in outs:
                w = None if t is None else definite(t, bind, Facts())
                if w is None and t is not None:
                    break
                why.append(w or 'raised at construction')
        except Exception:
            pass
        if len(why) == len(outs):
            ob.status, ob.backend, ob.detail = 'proved', 'operator shape contracts + z3', why[0]
    return ob


def ok_dtypes(c, name, dist, vdt, pdt):
    from ..env import tf
    with c.graph.as_default():
        outs = []
        if name != 'UnnormalizedMultinomial':
            outs.append(('sample()', dist.sample(), vdt))
            outs.append(('sample(2)', dist.sample(2), vdt))
        g = sample_given(name, dist, tf)
        outs += [('log_prob', dist.log_prob(g), pdt), ('prob', dist.prob(g), pdt)]
    bad = ['%s has dtype %s, declared %s' % (n, t.dtype.name, w) for n, t, w in outs if t.dtype.base_dtype.name != w]
    if dist.dtype.name != vdt or dist.param_dtype.name != pdt:
        bad.append('dtype %s param_dtype %s, declared %s %s' % (dist.dtype.name, dist.param_dtype.name, vdt, pdt))
    c.fact('samples have the declared value dtype and densities the parameter dtype (%s, %s)' % (vdt, pdt),
           not bad, '; '.join(bad), kind='finite')


def dtypes(label, seed, tier, name):
    from ..env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    args = tensor_args(name)
    pd, vd = param_dtypes(name), value_dtypes(name)
    # every dtype for every parameter alone, the others at float32
    for a in args:
        for d in ALLD:
            good = d in pd and (len(args) == 1 or d == 'float32')
            if not good:
                must_reject(c, '%s of dtype %s' % (a, d), lambda: cls(**base_args(name, tf, {a: d})))
    if len(args) > 1:
        import itertools
        for combo in itertools.product(FL, repeat=len(args)):
            if len(set(combo)) > 1:
                must_reject(c, 'dtypes %s' % (combo,), lambda: cls(**base_args(name, tf, dict(zip(args, combo)))))
        for d in ALLD:
            if d not in pd:
                must_reject(c, 'all parameters of dtype %s' % d,
                            lambda: cls(**base_args(name, tf, {a: d for a in args})))
    opts = [{}] if name not in dists.DISCRETE else [dict(dtype=getattr(tf, v)) for v in vd] + [{}]
    for d in pd:
        for o in opts:
            with c.graph.as_default():
                dist = cls(**dict(base_args(name, tf, {a: d for a in args}), **o))
            ok_dtypes(c, name, dist, o['dtype'].name if 'dtype' in o else ('int32' if name in dists.DISCRETE else d), d)
    if name in dists.DISCRETE:
        for v in ALLD:
            if v not in vd:
                must_reject(c, 'value dtype %s' % v,
                            lambda: cls(**dict(base_args(name, tf), dtype=getattr(tf, v))))
        with c.graph.as_default():
            dist = cls(**base_args(name, tf))
        c.fact('default value dtype is int32', dist.dtype == tf.int32, str(dist.dtype))
    c.close()
    return c.obls


def lp(dist_given):
    return [('log_prob', lambda d: d.log_prob(dist_given)), ('prob', lambda d: d.prob(dist_given))]


def both(given, n=None):
    return lp(given) + [('sample', lambda d: d.sample(n))]


def accept(c, what, build):
    with c.graph.as_default():
        try:
            build()
            bad = ''
        except Exception as e:
            bad = '%s: %s' % (type(e).__name__, str(e)[:200])
    c.fact('accepted: ' + what, not bad, bad, kind='rejection')


def shapes(label, seed, tier, name):
    """Incompatible or too small shapes, static and dynamic."""
    from ..env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    with c.graph.as_default():
        base = base_args(name, tf)
    args = tensor_args(name)
    vnd = dists.VALUE_NDIMS.get(name, 0)

    def variant(a, shape):
        """(static constructor, dynamic constructor) with argument a of the given shape"""
        def stat():
            return cls(**dict(base, **{a: tf.cast(tf.ones(shape), tf.float32)}))

        def dyn(sh):
            p = tf.placeholder(tf.float32, sh)
            return cls(**dict(base, **{a: p})), p
        return stat, dyn
    bad = []
    if name in ('Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta', 'InverseGamma', 'Laplace'):
        for a in args:
            bad += [(a, s) for s in ([4], [2, 4], [4, 3], [3, 3], [2], [5, 4, 3])]
    if name in ('BinConcrete', 'ExpConcrete', 'Concrete'):
        bad += [('temperature', s) for s in ([1], [2, 3], [3])]
    if vnd or name == 'Categorical':
        if name not in ('MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
            bad += [('alpha' if name == 'Dirichlet' else 'logits', [])]
    if name == 'Dirichlet':
        bad += [('alpha', [1]), ('alpha', [2, 1])]
    if name == 'MultivariateNormalCholesky':
        bad += [('mean', []), ('cov_tril', []), ('cov_tril', [3]), ('cov_tril', [3, 3]), ('cov_tril', [2, 3, 4]),
                ('cov_tril', [2, 4, 4]), ('cov_tril', [2, 3]), ('cov_tril', [4, 3, 3]), ('mean', [3]), ('mean', [2, 4])]
    if name == 'MatrixVariateNormalCholesky':
        bad += [('mean', []), ('mean', [3]), ('u_tril', [3]), ('v_tril', [4]), ('u_tril', [2, 4, 4]),
                ('v_tril', [2, 3, 3]), ('u_tril', [3, 3]), ('v_tril', [5, 4, 4]), ('u_tril', [2, 3, 4]), ('mean', [2, 4, 3])]
    with c.graph.as_default():
        gv = sample_given(name, cls(**base), tf)
    for a, s in bad:
        stat, dyn = variant(a, s)
        must_reject(c, 'static shape %s of %s' % (s, a), stat)
        for mode, sh in (('unknown rank', None), ('unknown sizes', [None] * len(s))):
            ph = []

            def build():
                d, p = dyn(sh)
                ph.append(p)
                return d
            with c.graph.as_default():
                try:
                    d = build()
                except errs():
                    d = None
            if d is None:
                must_reject(c, '%s of %s, %s' % (s, a, mode), build)
                continue
            outs = both(gv) if name != 'UnnormalizedMultinomial' else lp(gv)
            must_reject(c, '%s of %s, %s' % (s, a, mode), lambda: d, outs,
                        [{ph[-1]: np.ones(s, np.float32)}], prove=True)
    # the evaluated point
    with c.graph.as_default():
        d0 = cls(**base)
    vs = list(gv.get_shape().as_list())
    for s in ([7] * len(vs), vs[:-1] + [vs[-1] + 2], [vs[0] + 2] + vs[1:]):
        p0 = tf.zeros if False else None
        for mode in ('static', 'dynamic'):
            with c.graph.as_default():
                g = tf.cast(tf.ones(s), d0.dtype) if mode == 'static' else tf.placeholder(d0.dtype, [None] * len(s))
            feeds = [{}] if mode == 'static' else [{g: np.ones(s, d0.dtype.as_numpy_dtype)}]
            must_reject(c, 'log_prob at a point of shape %s (%s)' % (s, mode), lambda: d0,
                        [('log_prob', lambda d: d.log_prob(g)), ('prob', lambda d: d.prob(g))], feeds, prove=True)
    with c.graph.as_default():
        g = tf.cast(tf.ones(vs), tf.float64 if d0.dtype != tf.float64 else tf.float32)
    must_reject(c, 'a point of another dtype', lambda: d0, lp(g))
    c.close()
    return c.obls


def ones_at(name, a):
    return 1. / 3 if name in ('Concrete',) and a == 'given' else .5 if a == 'given' and name in ('Beta', 'BinConcrete') else 1.


# sizes of a family: letters are arbitrary (at least 1), P and Q differ and are at least 2, R and S differ, digits are fixed
def families(name, tier):
    """(what, {argument: shape}, shape of the point): every member must be rejected."""
    L = 'ABCDEFGHIJKL'
    out = []
    two = {'Normal': ('mean', 'std'), 'FoldNormal': ('mean', 'std'), 'Uniform': ('minval', 'maxval'),
           'Gamma': ('alpha', 'beta'), 'Beta': ('alpha', 'beta'), 'InverseGamma': ('alpha', 'beta'),
           'Laplace': ('loc', 'scale')}.get(name)

    def clash(r1, r2, i):
        s1, s2 = list(L[:r1]), list(L[4:4 + r2])
        s1[-i], s2[-i] = 'P', 'Q'
        return s1, s2
    if two:
        for r1 in (1, 2, 3):
            for r2 in (1, 2, 3):
                for i in range(1, min(r1, r2) + 1):
                    s1, s2 = clash(r1, r2, i)
                    out.append(('%s of shape %s against %s of shape %s' % (two[0], s1, two[1], s2),
                                {two[0]: s1, two[1]: s2}, list('HIJ')[:max(r1, r2)]))
    one = [a for a in tensor_args(name)]
    vnd = {'MatrixVariateNormalCholesky': 2}.get(name, 0 if name in dists.UNI or name == 'Categorical' else 1)
    if name in ('BinConcrete', 'ExpConcrete', 'Concrete'):
        for r in (1, 2, 3):
            out.append(('temperature of rank %d' % r, {'temperature': list(L[:r]), 'logits': ['H', 'I']}, ['H', 'I']))
    if (vnd or name == 'Categorical') and 'Normal' not in name:
        a = 'alpha' if name == 'Dirichlet' else 'logits'
        out.append(('%s of rank 0' % a, dict({a: []}, **({'temperature': []} if 'temperature' in one else {})), ['H']))
    if name == 'Dirichlet':
        for r in (1, 2, 3):
            out.append(('alpha with one category, rank %d' % r, {'alpha': list(L[:r - 1]) + ['1']}, list('HIJ')[:r]))
    if name == 'MultivariateNormalCholesky':
        out.append(('mean of rank 0', {'mean': [], 'cov_tril': ['A', 'A']}, ['H']))
        for r in (0, 1):
            out.append(('cov_tril of rank %d' % r, {'mean': ['A'], 'cov_tril': list(L[:r])}, ['H']))
        for b in ([], ['A'], ['A', 'B']):
            e = [x + x for x in b]
            out.append(('cov_tril not square, batch %s' % b, {'mean': b + ['P'], 'cov_tril': b + ['P', 'Q']}, ['H']))
            out.append(('cov_tril of transposed shape, batch %s' % b, {'mean': b + ['P'], 'cov_tril': b + ['Q', 'P']}, ['H']))
            out.append(('cov_tril of another size, batch %s' % b, {'mean': b + ['P'], 'cov_tril': b + ['Q', 'Q']}, ['H']))
            if b:
                out.append(('cov_tril without the batch %s' % b, {'mean': b + ['P'], 'cov_tril': ['P', 'P']}, ['H']))
                out.append(('mean without the batch %s' % b, {'mean': ['P'], 'cov_tril': b + ['P', 'P']}, ['H']))
                for k in range(len(b)):
                    b1, b2 = list(b), list(b)
                    b1[k], b2[k] = 'P', 'Q'
                    out.append(('batch %s of mean, %s of cov_tril' % (b1, b2),
                                {'mean': b1 + ['C'], 'cov_tril': b2 + ['C', 'C']}, ['H']))
    if name == 'MatrixVariateNormalCholesky':
        ok = lambda b, r, c: {'mean': b + [r, c], 'u_tril': b + [r, r], 'v_tril': b + [c, c]}
        for r in (0, 1):
            for a in ('mean', 'u_tril', 'v_tril'):
                out.append(('%s of rank %d' % (a, r), dict(ok([], 'A', 'B'), **{a: list(L[:r])}), ['H', 'I']))
        for b in ([], ['A'], ['A', 'B']):
            out.append(('u_tril of another size, batch %s' % b, dict(ok(b, 'P', 'C'), u_tril=b + ['Q', 'Q']), ['H', 'I']))
            out.append(('v_tril of another size, batch %s' % b, dict(ok(b, 'C', 'P'), v_tril=b + ['Q', 'Q']), ['H', 'I']))
            out.append(('u_tril not square, batch %s' % b, dict(ok(b, 'P', 'C'), u_tril=b + ['P', 'Q']), ['H', 'I']))
            out.append(('v_tril not square, batch %s' % b, dict(ok(b, 'C', 'P'), v_tril=b + ['P', 'Q']), ['H', 'I']))
            for k in range(len(b)):
                b2 = list(b)
                b1 = list(b)
                b1[k], b2[k] = 'P', 'Q'
                for a in ('u_tril', 'v_tril'):
                    out.append(('batch %s of mean, %s of %s' % (b1, b2, a),
                                dict(ok(b1, 'C', 'D'), **{a: b2 + (['C', 'C'] if a == 'u_tril' else ['D', 'D'])}), ['H', 'I']))
            for a in ('mean', 'u_tril', 'v_tril') if b else ():
                w = {'mean': ['C', 'D'], 'u_tril': ['C', 'C'], 'v_tril': ['D', 'D']}[a]
                out.append(('%s without the batch %s' % (a, b), dict(ok(b, 'C', 'D'), **{a: w}), ['H', 'I']))
                out.append(('%s with one more batch axis than %s' % (a, b), dict(ok(b, 'C', 'D'), **{a: ['G'] + b + w}),
                            ['H', 'I']))
    # these shapes have to agree exactly: the differing sizes R and S may be 1
    if 'NormalCholesky' in name:
        out = [(w, {a: [{'P': 'R', 'Q': 'S'}.get(x, x) for x in s_] for a, s_ in sh.items()}, pt) for w, sh, pt in out]
    # the evaluated point against valid parameters
    for r1 in range(max(1, vnd), 4):
        for r2 in range(max(1, vnd), 4):
            for i in range(1, min(r1, r2) + 1):
                pb, s = clash(r1, r2, i)
                if name == 'Categorical':
                    args = {'logits': pb + ['K']}
                elif name == 'MultivariateNormalCholesky':
                    args = {'mean': pb, 'cov_tril': pb + pb[-1:]}
                elif name == 'MatrixVariateNormalCholesky':
                    args = {'mean': pb, 'u_tril': pb[:-1] + pb[-2:-1], 'v_tril': pb[:-2] + pb[-1:] * 2}
                else:
                    args = {a: ([] if a == 'temperature' else pb) for a in one}
                out.append(('a point of shape %s for parameters of shape %s' % (s, pb), dict(args), (s,)))
    return out


def ancestors(t):
    seen, st = set(), [t.op]
    while st:
        o = st.pop()
        if o in seen:
            continue
        seen.add(o)
        st.extend(i.op for i in o.inputs)
        st.extend(o.control_inputs)
    return sorted(seen, key=lambda o: o._id)


def definite(t, bind, facts):
    """An op the output needs fails for all sizes: returns what fails, or None."""
    from ..norm import Norm
    ge = GraphEval(bind)
    failed = set()
    N = Norm(facts, [])

    assumed = [0]

    def ge2(a):
        try:
            return N.is_pos(N.nf(tm.sub(a, ival(1))))
        except Exception:
            return False

    def distinct(a, b):
        """Broadcasting sizes a and b: fails for all sizes, or the size of the result when it does not fail
        (a size of at least 2 prevails; else a fresh one, and the values are not used)."""
        d = N.nf(tm.sub(a, b))
        if ge2(a) and ge2(b) and (N.is_pos(d) or N.is_pos(N.pscale(d, -1))):
            raise tn.DefiniteShape('cannot broadcast %s with %s' % (a, b))
        assumed[0] += 1
        if ge2(a) or ge2(b):
            return a if ge2(a) else b
        return tm.dim('BC%d_' % assumed[0])
    old, tn.DISTINCT[0] = tn.DISTINCT[0], distinct
    try:
        for op in ancestors(t):
            if op.outputs and all(x.name in ge.inputs for x in op.outputs):
                continue
            if op.type == 'Assert':
                if op.inputs[0].op in failed:
                    continue
                n0 = assumed[0]
                try:
                    cond = ge.ten(op.inputs[0])
                    if cond.rank != 0:
                        continue
                    if assumed[0] != n0:
                        continue
                    r = prove_eq(tm.ite(cond.at(), tm.const(1), tm.const(0)), tm.const(0), facts)
                except Exception:
                    continue
                if r.ok:
                    ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
                    if all(ans.get(i) == ['unsat'] for i in range(len(r.goals))):
                        smt.STATS['goals'] += len(r.goals)
                        smt.STATS['discharged'] += len(r.goals)
                        return 'assertion %s is false' % op.name
                continue
            if op._get_control_flow_context() is not None or any(i.op in failed for i in op.inputs):
                failed.add(op) if any(i.op in failed for i in op.inputs) else None
                continue
            n0 = assumed[0]
            try:
                outs = ge._eval_op(op)
                if assumed[0] != n0 and op.type != 'BroadcastArgs':
                    for x, r in zip(op.outputs, outs):
                        ge.memo[x.name] = Ten(r.shape, (lambda nm, srt: lambda *i: tm.rd(nm, i, srt))(
                            'any:' + x.name, r.sort), r.dtype)
            except tn.DefiniteShape as e:
                return '%s: %s' % (op.name, e)
            except Exception:
                failed.add(op)
    finally:
        tn.DISTINCT[0] = old
    return None


def all_sizes(t, shp, phs):
    """What fails when P > Q and when Q > P (or once, if neither occurs); a shorter list if nothing does."""
    from ..norm import Facts
    why = []
    exact = any(x in 'RS' for s in shp.values() for x in s)
    for big in 'RS' if exact else 'PQ':
        facts = Facts()
        dim = lambda s: ival(int(s)) if s.isdigit() else tm.dim(s)
        small = {'P': 'Q', 'Q': 'P', 'R': 'S', 'S': 'R'}[big]
        facts.dimlo.update({small: 1 if exact else 2, 'E_': 1})
        D = lambda s: tm.add(tm.dim(small), tm.dim('E_')) if s == big else dim(s)
        bind = {}
        for a, s in shp.items():
            srt = 'I' if phs[a].dtype.is_integer else 'R'
            bind[phs[a].name] = Ten([D(x) for x in s], (lambda a, srt: lambda *i: tm.rd(a, i, srt))(a, srt),
                                    phs[a].dtype.name)
        w = definite(t, bind, facts)
        if w is None:
            break
        why.append(w)
        if not exact and not any(x in 'PQ' for s in shp.values() for x in s):
            why = why * 2
            break
    return why


def family(label, seed, tier, name, what, args, point, mode):
    """All members of a family of ill-shaped arguments are rejected, whatever the sizes."""
    from ..env import tf
    c = Case(label, seed, 'dynamic')
    cls = dists.dist_class(name)
    static = isinstance(point, tuple)
    point = list(point[0]) if static else point
    phs = {}
    shp = dict(args, given=point)
    with c.graph.as_default():
        try:
            vd = 'int32' if name in dists.DISCRETE else 'float32'
            for a, s in shp.items():
                k = list(shp).index(a)
                st = None if mode == 'unknown' or (mode == 'first' and k == 0) or (mode == 'rest' and k > 0) else \
                    [None] * len(s)
                phs[a] = tf.placeholder(getattr(tf, vd if a == 'given' else 'float32'), st, name='arg_' + a)
            kw = {a: phs[a] for a in args}
            if name in ('Binomial', 'Multinomial'):
                kw['n_experiments'] = 4
            d = cls(**kw)
            outs = [('log_prob', d.log_prob(phs['given'])), ('prob', d.prob(phs['given']))]
            if not static and name != 'UnnormalizedMultinomial':
                outs += [('sample', d.sample()), ('sample(2)', d.sample(2))]
        except errs() as e:
            c.fact('rejected at construction', True)
            c.obls[-1].kind = 'rejection'
            c.obls[-1].backend = 'raised %s' % type(e).__name__
            c.close()
            return c.obls
    for nm, t in outs:
        ob = c.obl('%s fails for all sizes' % nm)
        ob.kind = 'rejection'
        t0 = time.time()
        why = []
        try:
            why = all_sizes(t, shp, phs)
        except Exception:
            ob.detail = 'engine: ' + traceback.format_exc(limit=-3)
        if len(why) == 2:
            ob.status, ob.backend, ob.detail = 'proved', 'operator shape contracts + z3', why[0]
        else:
            ob.status = 'unsupported'
        for trial in range(3 if tier == 'quick' else 8):
            r = c.rng
            dims = {x: int(r.randint(1, 4)) for s in shp.values() for x in s}
            dims.update({'P': int(r.randint(2, 5))})
            dims['Q'] = dims['P'] + int(r.randint(1, 3))
            dims['R'], dims['S'] = dims['P'] - 1, dims['Q'] - 1
            if trial % 2:
                for x, y in ('PQ', 'RS'):
                    dims[x], dims[y] = dims[y], dims[x]
            sz = {a: [int(x) if x.isdigit() else dims[x] for x in s] for a, s in shp.items()}
            fd = {phs[a]: np.full(sz[a], ones_at(name, a)).astype(phs[a].dtype.as_numpy_dtype) for a in shp}
            try:
                v = c.session().run(t, fd)
            except Exception:
                ob.numeric += 1
                continue
            ob.status = 'refuted'
            ob.detail = '%s: accepted with shapes %s, %s = %s' % (what, sz, nm, np.ravel(v)[:4])
            ob.cex = dict(kind='accepted', configuration=what, shapes=sz, output=nm)
            break
        ob.time_s = time.time() - t0
    c.close()
    return c.obls


def integers(label, seed, tier, name, arg):
    """n_experiments / group_ndims: all Python integers by region, all tensors by Assert."""
    from ..env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    lo = 1 if arg == 'n_experiments' else 0
    with c.graph.as_default():
        base = base_args(name, tf)
    base.pop(arg, None)

    def run(v):
        with c.graph.as_default():
            try:
                d = cls(**dict(base, **{arg: v}))
                return 'accept' if getattr(d, arg) is v or getattr(d, arg) == int(v) else 'changed'
            except errs():
                return 'reject'
    regs, esc = regions(run)
    bad = [r for r in regs if (r[3] == 'accept') != (r[2] >= lo) or r[3] == 'changed' or
           (r[0] is None or r[0] < lo) and (r[1] is None or r[1] >= lo)]
    o = c.fact('every Python integer: accepted unchanged iff >= %d' % lo, not bad,
               'integers %s' % [(r[0], r[1], r[3]) for r in bad], kind='all-integers')
    if esc and not bad:
        o.status, o.detail, o.numeric = 'bounded', 'value used before the outcome: %s' % esc, len(regs)
    o.backend = 'execution on %d regions of the integers' % len(regs)
    with c.graph.as_default():
        gv = sample_given(name, cls(**dict(base, **({arg: 4} if arg == 'n_experiments' else {}))), tf)
    # tensors: an Assert with condition n >= lo guards every output that uses the value
    c2 = Case(label + ':tensor', seed, 'static')
    with c2.graph.as_default():
        base2 = base_args(name, tf)
        base2.pop(arg, None)
        p = tf.placeholder(tf.int32, [], name='n')
        d = cls(**dict(base2, **{arg: p}))
        gv2 = sample_given(name, d, tf)
        outs = [('log_prob', d.log_prob(gv2)), ('prob', d.prob(gv2))]
        uses = arg == 'n_experiments' and name != 'Multinomial' or arg == 'group_ndims'
        if arg == 'n_experiments':
            outs.append(('sample', d.sample()))
            outs.append(('sample(2)', d.sample(2)))
        if name == 'Multinomial' and arg == 'n_experiments':
            outs = outs[2:] + outs[:2]
    n = tm.rd('n', (), 'I')
    want = tm.le(ival(lo), n)
    for nm, t in outs:
        ob = c2.obl('%s is guarded by an assertion equivalent to %s >= %d' % (nm, arg, lo))
        ob.kind = 'guard'
        try:
            ge = GraphEval({p.name: Ten([], lambda: n, 'int32')})
            for a in sorted(guards(t), key=lambda o: o.name):
                try:
                    cond = ge.ten(a.inputs[0])
                except Exception:
                    continue
                if cond.rank != 0:
                    continue
                r = prove_eq(tm.ite(cond.at(), tm.const(1), tm.const(0)), tm.ite(want, tm.const(1), tm.const(0)), c2.facts)
                if r.ok:
                    ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
                    if all(ans.get(i) == ['unsat'] for i in range(len(r.goals))):
                        smt.STATS['goals'] += len(r.goals)
                        smt.STATS['discharged'] += len(r.goals)
                        ob.status, ob.backend, ob.gv = 'proved', 'Assert condition + z3', len(r.goals)
                        break
        except Exception:
            ob.detail = traceback.format_exc(limit=-2)
        if ob.status != 'proved':
            ob.status = 'unsupported'
            ob.detail = ob.detail or 'no single assertion is equivalent to the bound'
        for v in (lo - 1, lo - 4, lo - 1000):
            try:
                r = c2.session().run(t, {p: v})
                ob.status, ob.detail = 'refuted', '%s=%d accepted, %s = %s' % (arg, v, nm, np.ravel(r)[:3])
                ob.cex = dict(kind='accepted', arg=arg, value=v, output=nm)
                break
            except Exception:
                ob.numeric += 1
        if ob.status != 'refuted':
            try:
                c2.session().run(t, {p: lo})
                ob.numeric += 1
            except Exception as e:
                ob.status, ob.detail = 'refuted', '%s=%d rejected: %s' % (arg, lo, str(e)[:200])
                ob.cex = dict(kind='rejected', arg=arg, value=lo, output=nm)
    # non-scalar, non-integer
    must_reject(c, '%s of rank 1 (static)' % arg, lambda: cls(**dict(base, **{arg: tf.constant([4])})),
                lp(gv))
    with c.graph.as_default():
        q = tf.placeholder(tf.int32, None)
    must_reject(c, '%s of rank 1 (dynamic)' % arg, lambda: cls(**dict(base, **{arg: q})),
                lp(gv) if name != 'Multinomial' or arg != 'n_experiments' else [('sample', lambda d: d.sample())],
                [{q: np.array([1])}, {q: np.array([1, 1])}], prove='rank')
    if arg == 'n_experiments':
        must_reject(c, 'non-integer %s' % arg, lambda: cls(**dict(base, **{arg: 2.5})))
        must_reject(c, 'float tensor %s' % arg, lambda: cls(**dict(base, **{arg: tf.constant(2.)})))
    c2.close()
    c.close()
    return c.obls + c2.obls


def guards(t):
    seen, st, out = set(), [t.op], set()
    while st:
        o = st.pop()
        if o in seen:
            continue
        seen.add(o)
        if o.type == 'Assert':
            out.add(o)
        st.extend(i.op for i in o.inputs)
        st.extend(o.control_inputs)
    return out


def misc(label, seed, tier):
    from ..env import tf
    import zhusuan.distributions as zd
    c = Case(label, seed, 'static')
    for cls in (zd.Normal, zd.FoldNormal):
        nm = cls.__name__
        must_reject(c, nm + ' with neither std nor logstd', lambda: cls(mean=0.))
        must_reject(c, nm + ' with both std and logstd', lambda: cls(mean=0., std=1., logstd=0.))
        must_reject(c, nm + ' with both, one of them zero', lambda: cls(mean=0., std=1., logstd=tf.zeros([])))
        must_reject(c, nm + ' with a positional std', lambda: cls(0., 1.))
        must_reject(c, nm + ' with a positional std and logstd', lambda: cls(0., 1., logstd=1.))
        must_reject(c, nm + ' with a positional std and std', lambda: cls(0., 1., std=1.))
        accept(c, nm + ' with std', lambda: cls(mean=0., std=1.))
        accept(c, nm + ' with logstd', lambda: cls(mean=0., logstd=0.))
    must_reject(c, 'group_event_ndims', lambda: zd.Normal(mean=0., std=1., group_event_ndims=1))
    must_reject(c, 'sampling Multinomial without n_experiments',
                lambda: zd.Multinomial(tf.zeros([3]), None).sample())
    must_reject(c, 'sampling UnnormalizedMultinomial', lambda: zd.UnnormalizedMultinomial(tf.zeros([3])).sample())
    accept(c, 'Multinomial without n_experiments', lambda: zd.Multinomial(tf.zeros([3]), None).log_prob([1, 0, 1]))
    with c.graph.as_default():
        q = tf.placeholder(tf.int32, None)
    for name in list(dists.UNI) + dists.MULTI:
        if name == 'UnnormalizedMultinomial':
            continue
        with c.graph.as_default():
            d = dists.dist_class(name)(**base_args(name, tf))
        must_reject(c, '%s.sample with a rank-1 n_samples' % name, lambda: d, [('sample', lambda d: d.sample(q))],
                    [{q: np.array([2])}, {q: np.array([2, 2])}], prove='rank')
        must_reject(c, '%s.sample with a static rank-1 n_samples' % name, lambda: d,
                    [('sample', lambda d: d.sample(tf.constant([2])))], prove='rank')
    c.close()
    return c.obls


# check_numerics: (arguments that make a documented intermediate value non-finite)
NUMERICS = {
    'Normal': [dict(mean=0., std=0.), dict(mean=0., std=-1.), dict(mean=0., logstd=-1e5)],
    'FoldNormal': [dict(mean=0., std=0.), dict(mean=0., std=-1.), dict(mean=0., logstd=-1e5)],
    'Uniform': [dict(minval=1., maxval=1.)],
    'Gamma': [dict(alpha=1., beta=0.), dict(alpha=1., beta=-1.), dict(alpha=0., beta=1.)],
    'Beta': [dict(alpha=0., beta=1.), dict(alpha=1., beta=0.)],
    'Poisson': [dict(rate=0.), dict(rate=-1.)],
    'InverseGamma': [dict(alpha=1., beta=0.), dict(alpha=1., beta=-1.), dict(alpha=0., beta=1.)],
    'Laplace': [dict(loc=0., scale=0.), dict(loc=0., scale=-1.)],
    'BinConcrete': [dict(temperature=0., logits=0.), dict(temperature=-1., logits=0.)],
    'ExpConcrete': [dict(temperature=0., logits=[0., 0.]), dict(temperature=-1., logits=[0., 0.])],
    'Concrete': [dict(temperature=0., logits=[0., 0.]), dict(temperature=-1., logits=[0., 0.])],
    'Dirichlet': [dict(alpha=[0., 1.]), dict(alpha=[0., 0.])],
    'MultivariateNormalCholesky': [dict(mean=[0., 0.], cov_tril=[[0., 0.], [0., 1.]])],
    'MatrixVariateNormalCholesky': [dict(mean=[[0., 0.], [0., 0.]], u_tril=[[0., 0.], [0., 1.]], v_tril=[[1., 0.], [0., 1.]]),
                                    dict(mean=[[0., 0.], [0., 0.]], u_tril=[[1., 0.], [0., 1.]], v_tril=[[1., 0.], [0., 0.]])],
    'Binomial': [],
}
POINTS = {'Gamma': [0., -1.], 'Beta': [0., 1.], 'InverseGamma': [0., -1.], 'Poisson': [-1], 'Binomial': [-1, 5],
          'BinConcrete': [0., 1.], 'Concrete': [[0., 1.]], 'Dirichlet': [[0., 1.]], 'Uniform': [2.]}
GOODP = {'Normal': .3, 'FoldNormal': .3, 'Uniform': .5, 'Gamma': .5, 'Beta': .5, 'Poisson': 2, 'InverseGamma': .5,
         'Laplace': .3, 'BinConcrete': .5, 'ExpConcrete': [-.7, -.7], 'Concrete': [.5, .5], 'Dirichlet': [.5, .5],
         'MultivariateNormalCholesky': [.1, .2], 'MatrixVariateNormalCholesky': [[.1, .2], [.3, .4]], 'Binomial': 2}
GOODA = {'Gamma': dict(alpha=1.3, beta=2.), 'Beta': dict(alpha=1.3, beta=2.), 'InverseGamma': dict(alpha=1.3, beta=2.),
         'Poisson': dict(rate=2.), 'Binomial': dict(logits=.2, n_experiments=4),
         'BinConcrete': dict(temperature=.5, logits=.1), 'Concrete': dict(temperature=.5, logits=[.1, .2]),
         'Dirichlet': dict(alpha=[1., 2.]), 'Uniform': dict(minval=0., maxval=1.)}


def numerics(label, seed, tier, name):
    """check_numerics: every CheckNumerics of the checked graph guards log_prob, and the graph with
    checking covers the non-finite parameter values; without checking nothing raises."""
    from ..env import tf
    c = Case(label, seed, 'static')
    cls = dists.dist_class(name)
    jobs = [(a, GOODP[name]) for a in NUMERICS[name]] + [(GOODA[name], x) for x in POINTS.get(name, [])]
    for a, x in jobs:
        with c.graph.as_default():
            args = {k: tf.placeholder(tf.float32, np.shape(v)) if k != 'n_experiments' else v for k, v in a.items()}
            fd = {args[k]: v for k, v in a.items() if k != 'n_experiments'}
            d1 = cls(check_numerics=True, **args)
            d0 = cls(**args)
            xp = tf.placeholder(d1.dtype, np.shape(x))
            fd[xp] = x
            l1, p1, l0 = d1.log_prob(xp), d1.prob(xp), d0.log_prob(xp)
        for nm, t in (('log_prob', l1), ('prob', p1)):
            if nm == 'prob' and name == 'Uniform' and x == 2.:
                continue
            ob = c.obl('check_numerics: %s at x=%s of %s raises' % (nm, x, a))
            ob.kind = 'rejection'
            try:
                r = c.session().run(t, fd)
                ob.status, ob.detail = 'refuted', 'non-finite intermediate accepted: %s = %s' % (nm, r)
                ob.cex = dict(kind='accepted', args=a, x=x)
            except tf.errors.InvalidArgumentError:
                ob.status, ob.numeric = 'bounded', 1
        o2 = c.obl('without check_numerics log_prob at x=%s of %s does not raise' % (x, a))
        o2.kind = 'rejection'
        try:
            c.session().run(l0, fd)
            o2.status, o2.numeric = 'bounded', 1
            if not any(o.type == 'CheckNumerics' for o in ancestors(l0)):
                o2.status, o2.backend = 'proved', 'no CheckNumerics among the operations log_prob needs'
                o2.kind = 'structural'
        except Exception as e:
            o2.status, o2.detail = 'refuted', str(e)[:200]
            o2.cex = dict(kind='rejected', args=a, x=x)
    if name in ('Normal', 'FoldNormal'):
        for a in (dict(mean=0., logstd=1e5), dict(mean=0., std=0.)):
            with c.graph.as_default():
                d1 = cls(check_numerics=True, **a)
            if 'logstd' in a:
                must_reject(c, 'check_numerics: samples of %s' % a, lambda: d1, [('sample', lambda d: d.sample())])
    checked(c, name)
    c.close()
    return c.obls


def CHECKED(b):
    """documented intermediate values per distribution, as Tens over the inputs"""
    R = b.ctx.ten
    ew = tn.elementwise
    n, X = b.name, (lambda: R('x'))
    toR = lambda t: Ten(t.shape, lambda *i: tm.toR(t.at(*i)), 'float64') if t.sort != 'R' else t
    if n in ('Normal', 'FoldNormal'):
        if 'std' in b.args:
            return [('log(std)', ew(tm.log, R('std'))),
                    ('precision', ew(lambda s: tm.div(tm.const(1), tm.square(s)), R('std')))]
        return [('precision', ew(lambda s: tm.exp(tm.mul(tm.const(-2), s)), R('logstd')))]
    if n == 'Uniform':
        return [('p', ew(lambda a, b_: tm.div(tm.const(1), tm.sub(b_, a)), R('minval'), R('maxval')))]
    if n in ('Gamma', 'InverseGamma'):
        return [('log(given)', ew(tm.log, X())), ('log(beta)', ew(tm.log, R('beta'))),
                ('lgamma(alpha)', ew(tm.lgamma, R('alpha')))]
    if n == 'Beta':
        return [('log(given)', ew(tm.log, X())),
                ('log(1 - given)', ew(lambda x: tm.log(tm.sub(tm.const(1), x)), X())),
                ('lgamma(alpha)', ew(tm.lgamma, R('alpha'))), ('lgamma(beta)', ew(tm.lgamma, R('beta'))),
                ('lgamma(alpha + beta)', ew(lambda a, b_: tm.lgamma(tm.add(a, b_)), R('alpha'), R('beta')))]
    if n == 'Poisson':
        return [('log(rate)', ew(tm.log, R('rate'))),
                ('lgamma(given + 1)', ew(lambda x: tm.lgamma(tm.add(x, tm.const(1))), toR(X())))]
    if n == 'Binomial':
        nn = dists.nexp_term(b)
        return [('lgamma(given + 1)', ew(lambda x: tm.lgamma(tm.add(x, tm.const(1))), toR(X()))),
                ('lgamma(n - given + 1)', ew(lambda x: tm.lgamma(tm.add(tm.sub(nn, x), tm.const(1))), toR(X())))]
    if n == 'Laplace':
        return [('log(scale)', ew(tm.log, R('scale')))]
    if n == 'BinConcrete':
        return [('log(given)', ew(tm.log, X())), ('log(1 - given)', ew(lambda x: tm.log(tm.sub(tm.const(1), x)), X())),
                ('log(temperature)', ew(tm.log, R('temperature')))]
    if n == 'ExpConcrete':
        return [('log(temperature)', ew(tm.log, R('temperature')))]
    if n == 'Concrete':
        return [('log(given)', ew(tm.log, X())), ('log(temperature)', ew(tm.log, R('temperature')))]
    if n == 'Dirichlet':
        return [('log(given)', ew(tm.log, X()))]
    return []


def checked(c0, name):
    """For all inputs: each documented intermediate value is the operand of a CheckNumerics op that
    log_prob and prob depend on (so it being non-finite is an error)."""
    for alias in (['std', 'logstd'] if name in ('Normal', 'FoldNormal') else [None]):
        c = Case(c0.label + ':%s' % alias, 1, 'dynamic', trials=0)
        kw = {}
        c03.setup(c, name, 'int', kw)
        pat = c01.PATTERNS[0] if name in dists.UNI else c03.MULTIPAT[0]
        b = dists.make(c, name, pat[0], pat[1], alias=alias, check_numerics=True, **kw)
        with c.graph.as_default():
            outs = [('log_prob', b.dist.log_prob(b.given)), ('prob', b.dist.prob(b.given))]
        for nm, t in outs:
            seen, st, ops = set(), [t.op], []
            while st:
                o = st.pop()
                if o in seen:
                    continue
                seen.add(o)
                if o.type == 'CheckNumerics':
                    ops.append(o)
                st.extend(i.op for i in o.inputs)
                st.extend(o.control_inputs)
            for what, spec in CHECKED(b):
                ob = c0.obl('%s(%s): %s being finite is checked before %s' % (name, alias, what, nm))
                ob.kind = 'guard'
                ob.status, ob.detail = 'unsupported', 'no CheckNumerics operand equals %s' % what
                # a value computed to the same finiteness is enough: replay with bad values decides otherwise
                ob.numeric = 1
                for o in sorted(ops, key=lambda o: o.name):
                    try:
                        got = c.ev().ten(o.inputs[0])
                    except Exception:
                        continue
                    if got.rank != spec.rank:
                        continue
                    from ..case import Obl
                    o2 = Obl('x')
                    try:
                        c._prove_ten(o2, got, spec, c.facts)
                    except Exception:
                        continue
                    if o2.status == 'proved':
                        ob.status, ob.detail, ob.backend, ob.gv = 'proved', '', o2.backend, o2.gv
                        break
        c.close()


def cases(tier, seed):
    for name in list(dists.UNI) + dists.MULTI:
        yield 'dtypes[%s]' % name, dtypes, dict(name=name)
        yield 'shapes[%s]' % name, shapes, dict(name=name)
        yield 'group_ndims[%s]' % name, integers, dict(name=name, arg='group_ndims')
        for what, args, point in families(name, tier):
            for mode in ('unknown', 'dynamic', 'first', 'rest'):
                yield 'reject[%s: %s, %s]' % (name, what, mode), family, dict(name=name, what=what, args=args,
                                                                             point=point, mode=mode)
    for name in ('Binomial', 'Multinomial'):
        yield 'n_experiments[%s]' % name, integers, dict(name=name, arg='n_experiments')
    yield 'misc', misc, {}
    for name in NUMERICS:
        yield 'check_numerics[%s]' % name, numerics, dict(name=name)

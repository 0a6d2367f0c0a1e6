"""C09: node constructors build exactly the distribution they name."""
from __future__ import annotations
import itertools
import traceback
import warnings
import numpy as np
from ..env import tf
from .. import hist
from ..case import Obl
warnings.filterwarnings('ignore')
import zhusuan as zs  # noqa: E402
from zhusuan import distributions as D  # noqa: E402
from zhusuan.legacy.framework import stochastic as LS  # noqa: E402
from zhusuan.legacy.distributions import special as SP  # noqa: E402
from zhusuan.framework.bn import BayesianNet, StochasticTensor  # noqa: E402

REP = ['n_samples', 'group_ndims', 'is_reparameterized', 'check_numerics']
CHK = ['n_samples', 'group_ndims', 'check_numerics']
DT = ['n_samples', 'group_ndims', 'dtype']
# method -> (distribution, required arguments with shapes, options in positional order)
TABLE = {
    'normal': ('Normal', [('mean', 1)], ['_', 'std', 'logstd', 'group_ndims', 'n_samples', 'is_reparameterized',
                                       'check_numerics']),
    'fold_normal': ('FoldNormal', [('mean', 1)], ['_', 'std', 'logstd', 'n_samples', 'group_ndims', 'is_reparameterized',
                                                'check_numerics']),
    'bernoulli': ('Bernoulli', [('logits', 2)], DT),
    'categorical': ('Categorical', [('logits', 2)], DT),
    'uniform': ('Uniform', [('minval', 1), ('maxval', 1)], REP),
    'gamma': ('Gamma', [('alpha', 1), ('beta', 1)], CHK),
    'beta': ('Beta', [('alpha', 1), ('beta', 1)], CHK),
    'poisson': ('Poisson', [('rate', 1)], ['n_samples', 'group_ndims', 'dtype', 'check_numerics']),
    'binomial': ('Binomial', [('logits', 1), ('n_experiments', 'n')], ['n_samples', 'group_ndims', 'dtype',
                                                                      'check_numerics']),
    'multivariate_normal_cholesky': ('MultivariateNormalCholesky', [('mean', 2), ('cov_tril', 'tril')], REP),
    'matrix_variate_normal_cholesky': ('MatrixVariateNormalCholesky', [('mean', 'mat'), ('u_tril', 'tril'),
                                                                     ('v_tril', 'tril')], REP),
    'multinomial': ('Multinomial', [('logits', 2), ('n_experiments', 'n')], ['normalize_logits'] + DT),
    'unnormalized_multinomial': ('UnnormalizedMultinomial', [('logits', 2)], ['normalize_logits', 'group_ndims',
                                                                             'dtype']),
    'onehot_categorical': ('OnehotCategorical', [('logits', 2)], DT),
    'dirichlet': ('Dirichlet', [('alpha', 2)], CHK),
    'inverse_gamma': ('InverseGamma', [('alpha', 1), ('beta', 1)], CHK),
    'laplace': ('Laplace', [('loc', 1), ('scale', 1)], REP),
    'bin_concrete': ('BinConcrete', [('temperature', 0), ('logits', 1)], REP),
    'exp_concrete': ('ExpConcrete', [('temperature', 0), ('logits', 2)], REP),
    'concrete': ('Concrete', [('temperature', 0), ('logits', 2)], REP),
}
ALIAS = {'discrete': 'categorical', 'bag_of_categoricals': 'unnormalized_multinomial',
         'onehot_discrete': 'onehot_categorical', 'bin_gumbel_softmax': 'bin_concrete',
         'exp_gumbel_softmax': 'exp_concrete', 'gumbel_softmax': 'concrete'}
LALIAS = {'Discrete': 'Categorical', 'OnehotDiscrete': 'OnehotCategorical', 'BagofCategoricals':
          'UnnormalizedMultinomial', 'BinGumbelSoftmax': 'BinConcrete', 'ExpGumbelSoftmax': 'ExpConcrete',
          'GumbelSoftmax': 'Concrete'}
DEFAULTS = dict(n_samples=None, group_ndims=0, is_reparameterized=True, check_numerics=False, normalize_logits=True)
ALT = dict(n_samples=[3, 'ph'], group_ndims=[1, 'ph'], is_reparameterized=[False], check_numerics=[True],
           dtype=['int64', 'float32'], normalize_logits=[False], use_path_derivative=[True])
PATH = {'Normal', 'FoldNormal', 'Laplace', 'BinConcrete', 'MultivariateNormalCholesky', 'MatrixVariateNormalCholesky',
        'ExpConcrete', 'Concrete'}
FUNCTIONS = ['zhusuan.framework.bn:BayesianNet.' + m for m in TABLE] + [
    'zhusuan.legacy.framework.stochastic:%s.__init__' % v[0] for v in TABLE.values()] + [
    'zhusuan.legacy.framework.stochastic:Empirical.__init__', 'zhusuan.legacy.framework.stochastic:Implicit.__init__',
    'zhusuan.framework.bn:_BayesianNet.stochastic', 'zhusuan.framework.bn:StochasticTensor.__init__',
    'zhusuan.framework.bn:StochasticTensor.tensor', 'zhusuan.framework.bn:StochasticTensor.cond_log_p']
ASSUMPTIONS = ['a distribution is determined by its class and constructor arguments; two distributions with the same '
               'class and the same attribute graph (tensors compared as expressions over the inputs) are the same']


class Keys(object):
    """structural key of a tensor: its defining expression over placeholders"""

    def __init__(self):
        self.memo = {}
        self.stack = set()

    def t(self, x):
        return (self.op(x.op), x.value_index)

    def op(self, op):
        if op in self.memo:
            return self.memo[op]
        if op in self.stack:
            return ('cycle',)
        self.stack.add(op)
        if op.type == 'Placeholder':
            k = ('ph', op.name)
        elif op.type in ('Identity', 'Snapshot') and not op.control_inputs:
            k = self.op(op.inputs[0].op) if op.inputs[0].value_index == 0 else ('id', self.t(op.inputs[0]))
        else:
            at = tuple(sorted((n, str(op.node_def.attr[n])) for n in op.node_def.attr
                              if not n.startswith('_') and n not in ('seed', 'seed2')))
            if op.type == 'Assert':
                at = ()
            ins = tuple(self.t(i) for i in (op.inputs[:1] if op.type == 'Assert' else op.inputs))
            k = (op.type, at, ins, tuple(sorted((repr(self.op(c)) for c in op.control_inputs))))
            import hashlib
            k = (op.type, hashlib.md5(repr(k).encode()).hexdigest())
        self.stack.discard(op)
        self.memo[op] = k
        return k


def atom_of(keys):
    def atom(o):
        if isinstance(o, tf.Tensor):
            return ('tensor', o.dtype.name, str(o.shape), keys.t(o))
        if isinstance(o, tf.Operation):
            return ('op', keys.op(o))
        if isinstance(o, tf.DType):
            return ('dtype', o.name)
        if isinstance(o, tf.TensorShape):
            return ('shape', str(o))
        return None
    return atom


def mkarg(name, kind, rng):
    """placeholder and a generator of valid values"""
    t = tf.float32
    if kind == 'n':
        ph = tf.placeholder(tf.int32, [], name='in_' + name)
        return ph, lambda: np.int32(rng.randint(1, 5))
    if kind == 'tril':
        ph = tf.placeholder(t, [None, None, None], name='in_' + name)

        def g():
            a = np.tril(rng.normal(size=[2, 3, 3]))
            for i in range(3):
                a[:, i, i] = np.exp(rng.normal(size=2))
            return a
        return ph, g
    if kind == 'mat':
        return tf.placeholder(t, [None, None, None], name='in_' + name), lambda: rng.normal(size=[2, 3, 3])
    ph = tf.placeholder(t, [None] * kind, name='in_' + name)
    shape = [2, 3][:kind] if kind != 1 else [3]
    pos = name in ('alpha', 'beta', 'rate', 'scale', 'std', 'temperature')
    if name == 'maxval':
        return ph, lambda: 2 + rng.uniform(size=shape)
    if name == 'minval':
        return ph, lambda: -rng.uniform(size=shape)
    return ph, (lambda: np.exp(rng.normal(size=shape))) if pos else (lambda: rng.normal(size=shape))


def combos(opts, tier):
    alt = {k: ALT[k] for k in opts if k in ALT}
    ks = sorted(alt)
    out = [{}]
    for k in ks:
        out += [{k: v} for v in alt[k]]
    for a, b in itertools.combinations(ks, 2):
        out.append({a: alt[a][-1], b: alt[b][0]})
    out.append({k: alt[k][0] for k in ks})
    out.append({k: alt[k][-1] for k in ks})
    if tier == 'thorough':
        for c in itertools.product(*[[None] + list(alt[k]) for k in ks]):
            out.append({k: v for k, v in zip(ks, c) if v is not None})
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res


class Cmp(object):
    def __init__(self, label, seed):
        self.label = label
        self.obls = []
        self.rng = np.random.RandomState(seed)

    def ob(self, name, bad, status='refuted', cex=None):
        o = Obl('%s :: %s' % (self.label, name))
        o.kind = 'structural'
        o.status = status if bad else 'proved'
        o.numeric = 1 if bad and status == 'bounded' else 0
        o.backend = 'symbolic execution with opaque arguments; state compared as expressions'
        o.detail = str(bad or '')
        o.cex = cex or (dict(kind='configuration', configuration=self.label, call=name, problem=str(bad)) if bad and
                        status == 'refuted' else None)
        self.obls.append(o)
        return o


def val(x, name):
    if x == 'ph':
        return tf.placeholder(tf.int32, [], name='in_' + name)
    if name == 'dtype':
        return getattr(tf, x)
    return x


def same_semantics(node, ref, n_samples, feeds, given):
    """numeric comparison of every public aspect; returns a problem or None"""
    for a in ('dtype', 'param_dtype', 'is_continuous', 'is_reparameterized', 'use_path_derivative'):
        if getattr(node.dist, a) != getattr(ref, a):
            return '%s is %r, passed %r' % (a, getattr(node.dist, a), getattr(ref, a))
    with tf.Session() as s:
        for fd in feeds:
            def ev(x):
                return s.run(x, fd) if isinstance(x, (tf.Tensor,)) else x
            if not np.array_equal(ev(node.dist.group_ndims), ev(ref.group_ndims)):
                return 'group_ndims is %r, passed %r' % (ev(node.dist.group_ndims), ev(ref.group_ndims))
            for k, v in ref.__dict__.items():
                w = node.dist.__dict__.get(k, None)
                if isinstance(v, (bool, int, float, str)) and w != v:
                    return 'attribute %s is %r, expected %r' % (k, w, v)
                if isinstance(v, tf.Tensor) and isinstance(w, tf.Tensor):
                    if not np.array_equal(ev(v), ev(w)):
                        return 'attribute %s is %r, expected %r' % (k, ev(w), ev(v))
            if given is not None:
                a, b = ev(node.dist.log_prob(given)), ev(ref.log_prob(given))
                if a.shape != b.shape or not np.allclose(a, b, equal_nan=True):
                    return 'log_prob %r, expected %r' % (a, b)
            try:
                b = ev(ref.sample(n_samples))
            except Exception:
                b = None
            if b is not None:
                a = ev(node.tensor)
                if a.shape != b.shape or a.dtype != b.dtype:
                    return 'value of shape %s, a sample has shape %s' % (a.shape, b.shape)
    return None


def one(c, what, mkref, mknode, legacy, ns, gens, opts, obs_dtype_from, shape):
    """builds the reference distribution and the node (unobserved and observed) and compares"""
    keys = Keys()
    canon = hist.Canon(atom_of(keys))
    ref = mkref()
    bad = None
    net = BayesianNet()
    node = mknode(net, 'x')
    if not isinstance(node, StochasticTensor):
        c.ob(what, 'returns %s' % type(node).__name__)
        return
    if net.nodes.get('x') is not node or net['x'] is not node or node.name != 'x' or node.bn is not net:
        bad = 'the node is not registered in its net under its name'
    elif type(node.dist) is not type(ref):
        bad = 'the distribution is a %s, not a %s' % (type(node.dist).__name__, type(ref).__name__)
    elif node.dtype != ref.dtype or node.is_observed():
        bad = 'wrong dtype, or observed without an observation'
    if bad:
        c.ob(what, bad)
        return
    ok = canon.of(node.dist.__dict__) == canon.of(ref.__dict__)
    why = ''
    if ok:
        try:
            smp = ref.sample(ns)
        except (ValueError, NotImplementedError) as e:
            smp = None
        if smp is not None:
            t = node.tensor
            ok = t.dtype == smp.dtype and keys.t(t) == keys.t(smp) and str(t.shape) == str(smp.shape)
            why = 'value is not dist.sample(n_samples)'
            if ok and tf.convert_to_tensor(node) is not t:
                ok, why = False, 'the node does not convert to its own value'
    else:
        why = 'distribution state differs'
    # observed
    given = tf.placeholder(ref.dtype, None, name='given')
    m = zs.MetaBayesianNet(lambda: (lambda n: (mknode(n, 'x'), n)[1])(BayesianNet(observed={'x': given} if legacy
                                                                                    else None)))
    on = m.observe(x=given)['x']
    bad = None
    if not on.is_observed() or keys.t(on.tensor) != keys.t(given):
        bad = 'the observed node does not hold the observation'
    elif ok:
        a = canon.of(on.dist.__dict__) == canon.of(ref.__dict__)
        ok = a
        if a:
            try:
                lp = ref.log_prob(given)
            except (ValueError, NotImplementedError):
                lp = None
            if lp is not None:
                q = on.cond_log_p
                ok = keys.t(q) == keys.t(lp) and str(q.shape) == str(lp.shape)
            why = why or 'cond_log_p is not dist.log_prob(observation)'
    if bad:
        c.ob(what, bad)
    elif ok:
        c.ob(what, None)
    else:
        feeds = []
        for _ in range(3):
            fd = {ph: g() for ph, g in gens.items()}
            for k, v in opts.items():
                if isinstance(v, tf.Tensor):
                    fd[v] = 2 if k == 'n_samples' else 1
            fd[given] = None
            feeds.append(fd)
        gv = None
        try:
            with tf.Session() as s:
                for fd in feeds:
                    fd.pop(given)
                    fd[given] = s.run(ref.sample(ns), fd)
            gv = given
        except Exception:
            for fd in feeds:
                fd.pop(given, None)
        p = same_semantics(node, ref, ns, feeds, gv)
        if p:
            c.ob(what, p, cex=dict(kind='value', call=what, problem=p))
        else:
            c.ob(what, why + ' as an expression, equal on the runs tried', status='bounded')


def run_method(label, seed, tier, method, target, legacy):
    c = Cmp(label, seed)
    dname, req, order = TABLE[method]
    cls = getattr(D, dname)
    opts = [o for o in order if o in ALT] + (['use_path_derivative'] if dname in PATH else [])
    fn_of = (lambda net: getattr(net, target)) if not legacy else None
    scales = ['std', 'logstd'] if 'std' in order else [None]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for scale in scales:
            for combo in combos(opts, tier):
                for style in ('keyword', 'positional'):
                    for skip in ([False, True] if method in ('normal', 'fold_normal', 'uniform') and not combo else
                                 [False]):
                        what = '%s(%s%s) [%s]' % (target, ', '.join('%s=%s' % kv for kv in sorted(combo.items())),
                                                  (', ' + scale) if scale else '', style + (', parameters left out' if skip
                                                                                         else ''))
                        with tf.Graph().as_default():
                            gens, req_v = {}, []
                            for n, kd in req:
                                ph, g = mkarg(n, kd, c.rng)
                                gens[ph] = g
                                req_v.append((n, ph))
                            if skip:
                                req_v = []
                            opt = {k: val(v, k) for k, v in combo.items()}
                            if scale:
                                ph, g = mkarg(scale, 1, c.rng)
                                gens[ph] = g
                                opt[scale] = ph
                            ns = opt.get('n_samples')
                            ref_kw = dict(DEFAULTS)
                            ref_kw.update(opt)
                            import inspect
                            sig = inspect.signature(cls.__init__).parameters
                            ref_kw = {k: v for k, v in ref_kw.items() if k in sig}

                            def mkref():
                                return cls(**dict(req_v, **ref_kw))

                            def call(net, name):
                                f = fn_of(net) if fn_of else getattr(LS, target)
                                if style == 'keyword' or skip:
                                    a, k = [name], dict(req_v, **opt)
                                else:
                                    # positional in the documented order; trailing omitted ones keep defaults
                                    a = [name] + [v for _, v in req_v]
                                    k = dict(opt)
                                    for o in order:
                                        if o == '_' or not any(q in k for q in order):
                                            if o == '_':
                                                a.append(None)
                                                continue
                                            break
                                        if o in k:
                                            a.append(k.pop(o))
                                        elif o in DEFAULTS:
                                            a.append(DEFAULTS[o])
                                        elif o == 'dtype':
                                            a.append(tf.int32)
                                        else:
                                            a.append(None)
                                if legacy:
                                    with net:
                                        return f(*a, **k)
                                return f(*a, **k)
                            if style == 'positional' and legacy and method in ('normal', 'fold_normal'):
                                continue
                            try:
                                one(c, what, mkref, call, legacy, ns, gens, opt, None, None)
                            except Exception as e:
                                c.ob(what, 'raises %s: %s' % (type(e).__name__, traceback.format_exc(limit=-3)[-400:]))
        # the deprecated spelling of group_ndims is rejected rather than ignored
        with tf.Graph().as_default():
            net = BayesianNet()
            args = [mkarg(n, kd, c.rng)[0] for n, kd in req]
            kw = {scales[0]: mkarg(scales[0], 1, c.rng)[0]} if scales[0] else {}
            try:
                if legacy:
                    with net:
                        getattr(LS, target)('x', *args, group_event_ndims=1, **kw)
                else:
                    getattr(net, target)('x', *args, group_event_ndims=1, **kw)
                c.ob('%s(group_event_ndims=1) is rejected' % target, 'accepted')
            except ValueError:
                c.ob('%s(group_event_ndims=1) is rejected' % target, None)
        # a wrapper outside any net is a free-standing stochastic tensor
        if legacy:
            with tf.Graph().as_default():
                args = [mkarg(n, kd, c.rng)[0] for n, kd in req]
                kw = {scales[0]: mkarg(scales[0], 1, c.rng)[0]} if scales[0] else {}
                node = getattr(LS, target)('x', *args, **kw)
                c.ob('%s outside a net' % target, None if isinstance(node, StochasticTensor) and node.bn is None and
                     isinstance(node.dist, cls) and getattr(zs, target) is getattr(LS, target) else 'wrong node')
    return c.obls


def run_special(label, seed, tier):
    c = Cmp(label, seed)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for dtype in (tf.float32, tf.int32, tf.float64, None):
            for cont in (None, True, False):
                for vs in (None, [], [3]):
                    for bs in (None, [], [2], [2, 4]):
                        for gn in (0, 1):
                            what = 'Empirical(dtype=%s, batch_shape=%s, value_shape=%s, is_continuous=%s, group_ndims=%d)' % (
                                dtype and dtype.name, bs, vs, cont, gn)
                            with tf.Graph().as_default():
                                given = tf.placeholder(dtype or tf.float32, None if bs is None or vs is None else bs + vs)
                                net = BayesianNet(observed={'x': given})
                                with net:
                                    n = LS.Empirical('x', dtype, bs, group_ndims=gn, value_shape=vs, is_continuous=cont)
                                d = n.dist
                                wc = cont if cont is not None else (dtype is None or dtype.is_floating)
                                bad = None
                                if type(d) is not SP.Empirical:
                                    bad = type(d).__name__
                                elif d.dtype != (dtype or tf.float32) or d.is_continuous != wc or d.group_ndims != gn:
                                    bad = 'dtype %s is_continuous %s group_ndims %s' % (d.dtype, d.is_continuous,
                                                                                       d.group_ndims)
                                elif str(d.get_batch_shape()) != str(tf.TensorShape(bs)) or \
                                        str(d.get_value_shape()) != str(tf.TensorShape(vs)):
                                    bad = 'shapes %s %s' % (d.get_batch_shape(), d.get_value_shape())
                                elif n.tensor is not given or net['x'] is not n or not n.is_observed():
                                    bad = 'observation not held'
                                elif d.is_reparameterized:
                                    bad = 'declared reparameterized'
                                else:
                                    for f in (lambda: d.sample(), lambda: d.sample(2), lambda: d.log_prob(given),
                                              lambda: d.prob(given)):
                                        try:
                                            f()
                                            bad = 'an empirical distribution can be sampled or evaluated'
                                        except ValueError:
                                            pass
                                c.ob(what, bad)
        for dtype in (tf.float32, tf.int32):
            for shp, vs in (([2, 3], None), ([2, 3], []), ([2, 3], [3]), ([None, 3], [3]), (None, None)):
                for gn in (0, 1):
                    for ns in (None, 1):
                        what = 'Implicit(samples %s %s, value_shape=%s, group_ndims=%d, n_samples=%s)' % (
                            dtype.name, shp, vs, gn, ns)
                        with tf.Graph().as_default():
                            s = tf.placeholder(dtype, shp)
                            net = BayesianNet()
                            with net:
                                n = LS.Implicit('x', s, value_shape=vs, group_ndims=gn, n_samples=ns)
                            d = n.dist
                            bad = None
                            if type(d) is not SP.Implicit or d.samples is not s or d.dtype != dtype or \
                                    d.group_ndims != gn or net['x'] is not n:
                                bad = 'wrong distribution'
                            elif str(d.get_value_shape()) != str(tf.TensorShape(vs)):
                                bad = 'value shape %s' % d.get_value_shape()
                            elif str(d.get_batch_shape()) != str(tf.TensorShape(
                                    None if shp is None or vs is None else shp[:len(shp) - len(vs)])):
                                bad = 'batch shape %s' % d.get_batch_shape()
                            elif d.is_reparameterized or d.is_continuous != dtype.is_floating:
                                bad = 'is_reparameterized %s, is_continuous %s' % (d.is_reparameterized, d.is_continuous)
                            else:
                                v = np.arange(6).reshape(2, 3)
                                with tf.Session() as ss:
                                    got = ss.run(n.tensor, {s: v})
                                w = v if ns is None else v[None]
                                if got.shape != w.shape or not np.array_equal(got, w):
                                    bad = 'value %r' % (got,)
                            c.ob(what, bad)
    return c.obls


def cases(tier, seed):
    out = []
    for m in TABLE:
        out.append(('BayesianNet.%s' % m, run_method, dict(method=m, target=m, legacy=False)))
        out.append(('old-style %s' % TABLE[m][0], run_method, dict(method=m, target=TABLE[m][0], legacy=True)))
    for a, m in ALIAS.items():
        out.append(('BayesianNet.%s' % a, run_method, dict(method=m, target=a, legacy=False)))
    inv = {v[0]: k for k, v in TABLE.items()}
    for a, m in LALIAS.items():
        out.append(('old-style %s' % a, run_method, dict(method=inv[m], target=a, legacy=True)))
    out.append(('old-style Empirical and Implicit', run_special, {}))
    return out

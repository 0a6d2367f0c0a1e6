"""C19: stochastic tensors and objectives behave as their tensors."""
from __future__ import annotations
import operator
import traceback
import warnings
import numpy as np
from ..env import tf
from ..case import Case, Obl
from .c09 import Keys
warnings.filterwarnings('ignore')
import zhusuan as zs  # noqa: E402
from zhusuan.framework.bn import BayesianNet, StochasticTensor  # noqa: E402

BIN = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv),
       ('//', operator.floordiv), ('%', operator.mod), ('**', operator.pow)]
CMP = [('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)]
LOG = [('&', operator.and_), ('|', operator.or_), ('^', operator.xor)]
UNA = [('abs', abs), ('-', operator.neg)]
FUNCTIONS = ['zhusuan.utils:TensorArithmeticMixin.' + n for n in (
    '__abs__ __neg__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ '
    '__rfloordiv__ __mod__ __rmod__ __pow__ __rpow__ __invert__ __and__ __rand__ __or__ __ror__ __xor__ __rxor__ __lt__ '
    '__le__ __gt__ __ge__ __getitem__ __hash__ __eq__ __iter__ __bool__').split()] + [
    'zhusuan.framework.bn:StochasticTensor._to_tensor', 'zhusuan.framework.bn:StochasticTensor.shape',
    'zhusuan.framework.bn:StochasticTensor.get_shape', 'zhusuan.variational.base:VariationalObjective._to_tensor',
    'zhusuan.variational.base:VariationalObjective.tensor',
    'session fetch/feed conversion of StochasticTensor and VariationalObjective']
ASSUMPTIONS = ['the operators of tf.Tensor (of the installed TensorFlow) are the reference',
               'logical operators (&, |, ^, ~) are claimed for boolean tensors only']


class CmpCase(object):
    def __init__(self, label, seed, dtype):
        self.c = Case(label, seed=seed)
        self.label = label
        self.dtype = dtype

    def ob(self, name, bad, cex=None):
        o = self.c.obl(name)
        o.kind = 'structural'
        o.backend = 'the two expressions built by the real code are identical'
        o.status = 'refuted' if bad else 'proved'
        o.detail = str(bad or '')
        o.cex = cex or (dict(kind='configuration', call=name, problem=str(bad)) if bad else None)
        return o

    def same(self, name, f, obj, ten):
        """f(obj) and f(ten) are the same tensor expression"""
        keys = Keys()
        try:
            want = f(ten)
        except Exception as e:
            want = e
        try:
            got = f(obj)
        except Exception as e:
            got = e
        if isinstance(want, Exception):
            # outside the domain of the operator: must not be silently accepted as a tensor
            return self.ob(name + ' (rejected by the tensor too)', None if isinstance(got, Exception) else
                           'accepted, the tensor rejects it: %s' % type(want).__name__)
        if isinstance(got, Exception):
            return self.ob(name, 'raises %s: %s' % (type(got).__name__, str(got)[:200]))
        if not isinstance(got, tf.Tensor):
            return self.ob(name, 'gives a %s, not a tensor' % type(got).__name__)
        if keys.t(got) == keys.t(want):
            return self.ob(name, None)
        if got.dtype != want.dtype:
            return self.ob(name, 'dtype %s, the tensor gives %s' % (got.dtype, want.dtype))
        try:
            spec = self.c.ev().ten(want)
        except Exception:
            return self.numeric_only(name, got, want)
        return self.c.prove(name, got, spec)

    def numeric_only(self, name, got, want):
        o = self.c.obl(name)
        for trial in range(4):
            dims, vals = self.c.gen(trial)
            try:
                a, b = self.c.session().run([got, want], self.c.feed(vals, dims))
            except Exception:
                continue
            o.numeric += 1
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
                o.status, o.detail = 'refuted', '%r, the tensor gives %r' % (a, b)
                o.cex = dict(kind='value', call=name, inputs={k: np.asarray(v).tolist() for k, v in vals.items()},
                             got=repr(a), want=repr(b))
                return o
        o.status = 'unsupported'
        o.detail = 'expressions differ, equal on the runs tried'
        return o


class AbsObs(object):
    pass


def make(kind, x, q, dt):
    """an object of the given kind whose tensor is x (or a function of x)"""
    if kind == 'observed node':
        from ..bnspec import ADist, Reg

        class R(object):
            def val(self, t):
                return ('x',)

        class Dd(ADist):
            def _get_batch_shape(self):
                return tf.TensorShape(None)
        bn = BayesianNet(observed={'x': x})
        return bn.stochastic('x', Dd(R(), 'x', dt))
    if kind == 'sampled node':
        from ..bnspec import ADist

        class D2(ADist):
            def sample(self, n_samples=None):
                return x
        bn = BayesianNet()
        return bn.stochastic('x', D2(None, 'x', dt))
    if kind == 'old-style node':
        from ..bnspec import ADist

        class D3(ADist):
            def sample(self, n_samples=None):
                return x
        return StochasticTensor(None, 'x', D3(None, 'x', dt))
    if kind == 'elbo':
        return zs.variational.elbo(lambda o: x, {}, latent={'z': [q, q * 0.]})
    if kind == 'klpq':
        return zs.variational.klpq(lambda o: x, {}, latent={'z': [q, q * 0.]})
    if kind == 'iw_objective':
        return zs.variational.iw_objective(lambda o: x, {}, latent={'z': [q, q * 0.]}, axis=0)
    raise ValueError(kind)


def run(label, seed, tier, kind, dtype):
    c = CmpCase(label, seed, dtype)
    dt = getattr(tf, dtype)
    dom = {'float32': 'real', 'float64': 'real', 'int32': 'real', 'bool': 'bool'}[dtype]
    with c.c.graph.as_default(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = c.c.ph('x', ['A', 'B'], dtype, dom=dom)
        y = c.c.ph('y', ['A', 'B'], dtype, dom=dom)
        z = c.c.ph('z', ['B'], dtype, dom=dom)
        s = c.c.ph('s', [], dtype, dom=dom)
        obj = make(kind, x, y, dt)
        ten = obj.tensor
        scal = {'float32': [2.5, 0, -1], 'float64': [2.5], 'int32': [2, -3], 'bool': [True, False]}[dtype]
        npd = dt.as_numpy_dtype
        others = [('tensor', y), ('row tensor', z), ('scalar tensor', s)] + [('Python %r' % v, v) for v in scal]
        if dtype != 'bool':
            others += [('numpy array', np.array([2, 3, 1], npd)), ('list', [1., 2., 4.] if 'float' in dtype else [1, 2, 4]),
                       ('numpy scalar', npd(2))]
            others += [('variable', tf.get_variable('v', [3], dt, initializer=tf.zeros_initializer()))]
        else:
            others += [('numpy array', np.array([True, False, True]))]
        others += [('another node', make('sampled node', y, y, dt))]
        if 'float' in dtype:
            others += [('an objective', make('elbo', y, y, dt))]
        others += [('itself', None), ('another dtype', tf.placeholder(tf.int64, [None], name='w'))]
        ops = (BIN if dtype != 'bool' else []) + (CMP if dtype != 'bool' else []) + (LOG if dtype == 'bool' else [])
        for on, f in ops:
            for nm, o in others:
                if nm == 'itself':
                    c.same('x %s x' % on, lambda t, f=f: f(t, t), obj, ten)
                    continue
                ot = o.tensor if hasattr(o, 'tensor') else o
                # two wrapped operands: the reference has both unwrapped
                c.same('x %s %s' % (on, nm), lambda t, f=f, o=o, ot=ot: f(t, o if t is obj else ot), obj, ten)
                c.same('%s %s x' % (nm, on), lambda t, f=f, o=o, ot=ot: f(o if t is obj else ot, t), obj, ten)
        for on, f in (UNA if dtype != 'bool' else [('~', operator.invert)]):
            c.same('%s x' % on, f, obj, ten)
        if len(ten.shape) == 2 if ten.shape.ndims is not None else False:
            idx = [('0', 0), ('-1', -1), ('1:', slice(1, None)), ('::-1', slice(None, None, -1)), ('..., 0', (Ellipsis, 0)),
                   (':, None', (slice(None), None)), ('1:2, ::2', (slice(1, 2), slice(None, None, 2))), ('0, 0', (0, 0)),
                   ('None', None), ('...', Ellipsis)]
            k = tf.placeholder(tf.int32, [], name='k')
            c.c.inputs['k'] = dict(tensor=k, ten=None, shape=[], dtype='int32', dom='category', mode='dynamic', bound=1)
            idx += [('tensor', k), ('tensor:', slice(k, None))]
            for nm, i in idx:
                keys = Keys()
                c.same('x[%s]' % nm, lambda t, i=i: t[i], obj, ten)
        identity(c, obj, ten, dt, kind, x, y)
    c.c.close()
    return c.c.obls


def identity(c, obj, ten, dt, kind, x, y):
    ob = c.ob
    ob('tf.convert_to_tensor(x) is the tensor', None if tf.convert_to_tensor(obj) is ten else 'another tensor')
    ob('the tensor is fixed', None if obj.tensor is ten and tf.convert_to_tensor(obj) is ten else 'changes')
    ob('tf.convert_to_tensor(x, dtype) is the tensor', None if tf.convert_to_tensor(obj, dtype=ten.dtype) is ten else
       'another tensor')
    other = tf.float64 if ten.dtype != tf.float64 else tf.float32
    for d in (other, tf.int64, tf.string):
        try:
            tf.convert_to_tensor(obj, dtype=d)
            bad = 'accepted'
        except (ValueError, TypeError):
            bad = None
        ob('tf.convert_to_tensor(x, %s) is rejected' % d.name, bad)
    for cls in (type(obj),):
        try:
            r = cls._to_tensor(obj, as_ref=True)
            bad = 'accepted' if isinstance(r, tf.Tensor) else None
        except ValueError:
            bad = None
        except Exception as e:
            bad = repr(e)
        ob('conversion as a reference is rejected', bad)
    if kind.endswith('node'):
        ob('shape and dtype are those of the tensor', None if str(obj.shape) == str(ten.shape) and str(
            obj.get_shape()) == str(ten.shape) and obj.dtype == ten.dtype else '%s %s' % (obj.shape, obj.dtype))
    twin = make(kind, x, y, dt)
    bad = None
    if not (obj == obj) or (obj != obj):
        bad = 'x == x is not True'
    elif (obj == twin) is not False or (obj != twin) is not True or (obj == ten) is not False or \
            (ten == obj) not in (False,):
        bad = 'compares equal to another object'
    elif hash(obj) != hash(obj) or obj not in {obj: 1} or twin in {obj: 1} or obj not in [twin, obj] or \
            [twin, obj].index(obj) != 1:
        bad = 'cannot be used as a collection member'
    elif len({obj, twin, obj}) != 2:
        bad = 'two different objects collapse in a set'
    elif (obj == None) is not False or (obj == 3) is not False:  # noqa
        bad = 'compares equal to a value'
    ob('hashes and compares by identity', bad)
    for nm, f in (('bool(x)', lambda: bool(obj)), ('if x', lambda: 1 if obj else 2), ('not x', lambda: not obj),
                  ('iter(x)', lambda: iter(obj)), ('for in x', lambda: [i for i in obj]), ('list(x)', lambda: list(obj)),
                  ('3 in x', lambda: 3 in obj), ('a, b = x', lambda: (lambda a, b: 0)(*obj))):
        try:
            f()
            bad = 'accepted'
        except TypeError:
            bad = None
        except Exception as e:
            bad = 'raises %s' % type(e).__name__
        ob('%s raises TypeError' % nm, bad)
    # fetching and feeding
    bad = None
    keys = Keys()
    dims, vals = c.c.gen(0)
    fd = c.c.feed({k: v for k, v in vals.items() if k != 'k'}, dims)
    s = c.c.session()
    der = tf.identity(ten)
    if ten.dtype == tf.bool:
        der2 = tf.logical_not(ten)
    else:
        der2 = ten * 2 + 1
    try:
        s.run(tf.global_variables_initializer())
        a, b, (e,), d = s.run([obj, ten, [obj], {'k': obj}], fd)
        if not (np.array_equal(a, b) and np.array_equal(e, b) and np.array_equal(d['k'], b)):
            bad = 'fetching gives %r, the tensor is %r' % (a, b)
        if not np.array_equal(s.run(obj, fd), b):
            bad = 'fetching gives another value'
        new = np.zeros_like(b) if ten.dtype == tf.bool else np.asarray(b * 0 + 7, b.dtype)
        g = s.run([der, der2, obj], merge(fd, obj, ten, new))
        w2 = np.logical_not(new) if ten.dtype == tf.bool else new * 2 + 1
        if not (np.array_equal(g[0], new) and np.array_equal(g[1], w2) and np.array_equal(g[2], new)):
            bad = 'feeding x=%r gives %r' % (new, g)
    except Exception as ex:
        bad = '%s: %s' % (type(ex).__name__, str(ex)[:300])
    ob('fetching x and feeding x act on the tensor', bad)
    def partial(t):
        with tf.Session() as ps:
            h = ps.partial_run_setup([der2, der], [t])
            return ps.partial_run(h, [der2, der], {t: new})
    try:
        partial(ten)
    except Exception:
        return      # this runtime has no partial runs
    try:
        bad = None
        r = partial(obj)
        if not (np.array_equal(r[0], w2) and np.array_equal(r[1], new)):
            bad = 'partial_run gives %r' % (r,)
    except Exception as ex:
        bad = '%s: %s' % (type(ex).__name__, str(ex)[:300])
    ob('feeding x in a partial run acts on the tensor', bad)


def merge(fd, obj, ten, v):
    out = {k: w for k, w in fd.items() if k is not ten}
    out[obj] = v
    return out


def cases(tier, seed):
    out = []
    for kind in ('observed node', 'sampled node', 'old-style node', 'elbo', 'iw_objective'):
        for dt in ('float32', 'float64', 'int32', 'bool'):
            if kind in ('elbo', 'klpq', 'iw_objective') and 'float' not in dt:
                continue
            out.append(('%s %s' % (kind, dt), run, dict(kind=kind, dtype=dt)))
    return out

"""Abstract distributions and tensors for the Bayesian-net contracts (C07-C09):
the net is verified against the contract of Distribution (sample returns a new
value, log_prob is a function of its argument), not against any body."""
from __future__ import annotations
import warnings
import numpy as np
from .env import tf
from . import tensor as tn
from .case import Case

warnings.filterwarnings('ignore')
import zhusuan as zs  # noqa: E402
from zhusuan.distributions.base import Distribution  # noqa: E402
from zhusuan.framework.bn import StochasticTensor  # noqa: E402


class Reg(object):
    """Registry of symbolic tensor values of one world."""

    def __init__(self, label, seed=1):
        self.case = Case(label, seed=seed)
        self.role = {}          # tensor -> symbolic value
        self.n = 0

    def fresh(self, role, dtype='float32', shape=('A',)):
        self.n += 1
        t = self.case.ph('t%d' % self.n, list(shape), dtype)
        self.role[t] = role
        return t

    def val(self, t, depth=0):
        """symbolic value of a tensor (hashable)"""
        if isinstance(t, StochasticTensor):
            t = t.tensor
        if isinstance(t, tf.Variable):
            return ('variable', t.name)
        if not isinstance(t, tf.Tensor):
            if isinstance(t, (int, float, np.number)):
                return ('num', float(t))
            return ('py', repr(t))
        if t in self.role:
            return self.role[t]
        ty = t.op.type
        if ty in ('Identity', 'StopGradient', 'Snapshot'):
            return self.val(t.op.inputs[0], depth + 1)
        if ty == 'Cast' and t.op.inputs[0].dtype == t.dtype:
            return self.val(t.op.inputs[0], depth + 1)
        if ty == 'Const':
            v = tf.get_static_value(t) if hasattr(tf, 'get_static_value') else None
            if v is None:
                from tensorflow.python.framework import tensor_util
                v = tensor_util.constant_value(t)
            if np.ndim(v) == 0:
                return ('num', float(v))
            return ('const', repr(np.asarray(v).tolist()))
        if ty in ('Add', 'AddV2', 'AddN'):
            return add([self.val(i, depth + 1) for i in t.op.inputs])
        return ('op', ty, t.value_index) + tuple(self.val(i, depth + 1) for i in t.op.inputs)

    def close(self):
        self.case.close()


def add(vs):
    out, num = [], 0.0
    for v in vs:
        if v[0] == 'sum':
            out += list(v[1])
            num += v[2]
        elif v[0] == 'num':
            num += v[1]
        else:
            out.append(v)
    if not out:
        return ('num', num)
    if len(out) == 1 and num == 0.0:
        return out[0]
    return ('sum', tuple(sorted(out, key=repr)), num)


class ADist(Distribution):
    """A distribution known only by its contract."""

    def __init__(self, reg, tag, dtype=tf.float32):
        self.reg, self.tag, self.k = reg, tag, 0
        super(ADist, self).__init__(dtype=dtype, param_dtype=tf.float32, is_continuous=True,
                                    is_reparameterized=True)

    def _value_shape(self):
        return tf.constant([], tf.int32)

    def _get_value_shape(self):
        return tf.TensorShape([])

    def _batch_shape(self):
        return tf.constant([3], tf.int32)

    def _get_batch_shape(self):
        return tf.TensorShape([None])

    def sample(self, n_samples=None):
        self.k += 1
        return self.reg.fresh(('sample', self.tag, self.k, repr(n_samples)), self.dtype.name)

    def log_prob(self, given):
        return self.reg.fresh(('lp', self.tag, self.reg.val(given)))

    def prob(self, given):
        return self.reg.fresh(('p', self.tag, self.reg.val(given)))

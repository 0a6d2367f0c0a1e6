"""Floating-point ranges of the noise in a sample graph.

IEEE addition, subtraction, multiplication, division, comparison and conversion are correctly rounded, hence monotone in each
argument on a fixed sign region, so the image of a box of floats is bounded by the images of its corners, evaluated in
the same format.  exp / log / log1p / sqrt / sigmoid kernels are assumed monotone (operator contract).  The leaves are the
floats the generator can return: multiples of 2^-p in [0, 1 - 2^-p]."""
from __future__ import annotations
import numpy as np

P = {'float16': 10, 'float32': 23, 'float64': 52}
MOVE = {'Identity', 'StopGradient', 'Reshape', 'ExpandDims', 'Squeeze', 'Transpose', 'Tile', 'BroadcastTo', 'StridedSlice',
        'CheckNumerics', 'Slice', 'Snapshot', 'GatherV2', 'Gather', 'PreventGradient', 'Reverse', 'ReverseV2', 'Split'}
UP = {'Log': np.log, 'Log1p': np.log1p, 'Exp': np.exp, 'Expm1': np.expm1, 'Sqrt': np.sqrt,
      'Sign': np.sign, 'Tanh': np.tanh, 'Floor': np.floor, 'Ceil': np.ceil,
      'Sigmoid': lambda x: (1 / (1 + np.exp(-x))).astype(x.dtype),
      'Softplus': lambda x: np.logaddexp(x, x.dtype.type(0))}
DOM = {'Log': 0., 'Log1p': -1., 'Sqrt': None}


class NoRange(Exception):
    pass


def value_inputs(o):
    """inputs that carry element values (not shapes, axes or sizes)"""
    if o.type in MOVE:
        return o.inputs[1:2] if o.type == 'Split' else o.inputs[:1]
    return list(o.inputs)


def depends(t, memo):
    """does the value of t depend on noise / on parameters"""
    k = t.name
    if k in memo:
        return memo[k]
    o = t.op
    if o.type == 'RandomUniform':
        r = (True, False)
    elif o.type == 'Const' or o.type in ('Shape', 'Size', 'Rank', 'ZerosLike', 'OnesLike'):
        r = (False, False)
    elif o.type.startswith('Random') or o.type.startswith('Placeholder') or o.type in ('VariableV2', 'Merge', 'Switch'):
        r = (False, True)
    elif not o.inputs:
        r = (False, True)
    else:
        rs = [depends(i, memo) for i in value_inputs(o)]
        r = (any(a for a, _ in rs), any(b for _, b in rs))
    memo[k] = r
    return r


def rng(t, memo):
    k = t.name
    if k not in memo:
        memo[k] = _rng(t, memo)
    return memo[k]


def _rng(t, memo):
    o = t.op
    ty = o.type
    dt = t.dtype.as_numpy_dtype
    if ty == 'RandomUniform':
        return dt(0), dt(1 - 2. ** -P[np.dtype(dt).name])
    if ty == 'Const':
        import tensorflow as tf
        v = tf.make_ndarray(o.get_attr('value')) if hasattr(tf, 'make_ndarray') else None
        if v is None or not v.size:
            raise NoRange('constant')
        return dt(v.min()), dt(v.max())
    if ty in ('ZerosLike', 'OnesLike'):
        z = dt(ty == 'OnesLike')
        return z, z
    if ty in MOVE:
        return rng(value_inputs(o)[0], memo)
    if ty == 'Cast':
        a, b = rng(o.inputs[0], memo)
        return dt(a), dt(b)
    if ty == 'Fill':
        return rng(o.inputs[1], memo)
    if ty in ('Pack', 'ConcatV2'):
        ins = o.inputs[:-1] if ty == 'ConcatV2' else o.inputs
        rs = [rng(i, memo) for i in ins]
        return min(a for a, _ in rs), max(b for _, b in rs)
    if ty in UP:
        a, b = rng(o.inputs[0], memo)
        d = DOM.get(ty)
        if d is not None and not a > d or ty == 'Sqrt' and a < 0:
            raise NoRange('%s of a value as small as %s (%s)' % (ty, a, o.name))
        return UP[ty](a), UP[ty](b)
    if ty == 'Neg':
        a, b = rng(o.inputs[0], memo)
        return -b, -a
    if ty == 'Abs':
        a, b = rng(o.inputs[0], memo)
        return (dt(0) if a <= 0 <= b else min(abs(a), abs(b))), max(abs(a), abs(b))
    if ty == 'Square':
        a, b = rng(o.inputs[0], memo)
        return (dt(0) if a <= 0 <= b else min(a * a, b * b)), max(a * a, b * b)
    if ty in ('Maximum', 'Minimum', 'Add', 'AddV2', 'Sub', 'Mul', 'RealDiv', 'Div'):
        (a, b), (c, d) = rng(o.inputs[0], memo), rng(o.inputs[1], memo)
        if ty in ('RealDiv', 'Div') and c <= 0 <= d:
            raise NoRange('division by a value that can be 0 (%s)' % o.name)
        f = {'Maximum': np.maximum, 'Minimum': np.minimum, 'Sub': np.subtract, 'Mul': np.multiply}.get(
            ty, np.divide if 'Div' in ty else np.add)
        v = [f(x, y) for x in (a, b) for y in (c, d)]
        return min(v), max(v)
    raise NoRange('operator %s' % ty)


SAFE = MOVE | {'Add', 'AddV2', 'Sub', 'Mul', 'Neg', 'Abs', 'Maximum', 'Minimum', 'Square', 'Sigmoid', 'Tanh', 'Softmax',
               'Cast', 'Less', 'LessEqual', 'Greater', 'GreaterEqual', 'Sum', 'Mean', 'Max', 'Min', 'Softplus', 'ConcatV2',
               'Pack', 'MatMul', 'BatchMatMul', 'BatchMatMulV2', 'Sign', 'LogicalAnd', 'LogicalOr', 'LogicalNot', 'SelectV2',
               'Select', 'ArgMax', 'Floor', 'AddN', 'IsFinite', 'Equal', 'NotEqual', 'LogSoftmax', 'BiasAdd', 'Pad'}


def noise_ranges(t):
    """Ranges of all maximal noise-only values below t.  Raises NoRange unless every other operator on the way from the
    noise to t maps finite values to finite values (up to overflow of the parameters themselves)."""
    dep, memo, out, seen = {}, {}, [], set()
    todo = [t]
    with np.errstate(all='ignore'):
        while todo:
            x = todo.pop()
            if x.name in seen:
                continue
            seen.add(x.name)
            n, p = depends(x, dep)
            if not n:
                continue
            if not p:
                a, b = rng(x, memo)
                if not (np.isfinite(a) and np.isfinite(b)):
                    raise NoRange('%s ranges over [%s, %s]' % (x.op.name, a, b))
                out.append((x.op.name, x.op.type, float(a), float(b)))
                continue
            o = x.op
            if o.type in ('Exp', 'Log', 'Log1p'):
                # log of a sum of exponentials of shifted values: handled by the operators of C17
                if not lse(x, dep):
                    raise NoRange('%s of noise and parameters (%s)' % (o.type, o.name))
                todo += lse(x, dep)
                continue
            if o.type in ('RealDiv', 'Div'):
                if depends(o.inputs[1], dep)[0]:
                    raise NoRange('division by noise and parameters (%s)' % o.name)
                todo.append(o.inputs[0])
                continue
            if o.type not in SAFE:
                raise NoRange('operator %s applied to noise and parameters' % o.type)
            todo += value_inputs(o)
    return out


def strip(t):
    while t.op.type in MOVE:
        t = value_inputs(t.op)[0]
    return t


def lse(x, dep):
    """x = log(sum(exp(y - max y))) or exp(y - max y): the argument of exp is <= 0 and attained 0, so the logarithm is of
    a number between 1 and the number of terms.  Returns [y] or []."""
    o = x.op
    if o.type == 'Log':
        s = strip(o.inputs[0])
        if s.op.type not in ('Sum', 'Mean'):
            return []
        e = strip(s.op.inputs[0])
        return lse(e, dep) if e.op.type == 'Exp' else []
    if o.type == 'Exp':
        d = strip(o.inputs[0])
        if d.op.type == 'Sub':
            y, m = strip(d.op.inputs[0]), strip(d.op.inputs[1])
            if m.op.type in ('SelectV2', 'Select'):        # where(is_finite(max), max, 0)
                m = strip(m.op.inputs[1])
            if m.op.type == 'Max' and strip(m.op.inputs[0]) is y or m.op.type == 'Max' and \
                    strip(m.op.inputs[0]).name == y.name:
                return [y]
            if m.op.type == 'Log':                          # y - log sum exp(y)
                return [y] if [q.name for q in lse(m, dep)] == [y.name] else []
            if m.op.type in ('Add', 'AddV2'):               # y - (log(sum(exp(y - max))) + max)
                for a, b in ((0, 1), (1, 0)):
                    p, q = strip(m.op.inputs[a]), strip(m.op.inputs[b])
                    if p.op.type == 'Log' and [z.name for z in lse(p, dep)] == [y.name]:
                        return [y]
        return []
    return []

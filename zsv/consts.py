"""Recognition of floating-point literals in the graph.

A float literal of dtype d denotes the real number the programmer wrote: the
shortest decimal or one of the named constants whose rounding to d it is.
"""
import math
from fractions import Fraction
import numpy as np
from . import terms as tm

_L2 = tm.log(tm.const(2))
_LP = tm.log(tm.PI)


def _named():
    half = tm.const(Fraction(1, 2))
    base = [
        (math.log(2), _L2), (math.log(math.pi), _LP),
        (math.log(2 * math.pi), tm.add(_L2, _LP)),
        (math.pi, tm.PI), (2 * math.pi, tm.mul(tm.const(2), tm.PI)),
        (0.5 * math.log(2 * math.pi), tm.mul(half, tm.add(_L2, _LP))),
        (0.5 * math.log(math.pi), tm.mul(half, _LP)),
        (0.5 * math.log(2), tm.mul(half, _L2)),
        (0.5 * math.log(2 / math.pi), tm.mul(half, tm.sub(_L2, _LP))),
        (0.5 * math.log(math.pi / 2), tm.mul(half, tm.sub(_LP, _L2))),
        (math.sqrt(2), tm.sqrt(tm.const(2))), (math.sqrt(0.5), tm.sqrt(half)),
        (math.sqrt(2 * math.pi), tm.sqrt(tm.mul(tm.const(2), tm.PI))),
        (math.sqrt(math.pi), tm.sqrt(tm.PI)),
        (1 / math.sqrt(2 * math.pi), tm.powt(tm.mul(tm.const(2), tm.PI), tm.const(Fraction(-1, 2)))),
        (math.e, tm.exp(tm.const(1))),
    ]
    out = []
    for v, t in base:
        out.append((v, t))
        out.append((-v, tm.neg(t)))
    return out


NAMED = _named()
_cache = {}


def recognise(v, dtype):
    """v: numpy float scalar of numpy dtype; returns a term."""
    key = (dtype, float(v))
    r = _cache.get(key)
    if r is None:
        r = _recognise(float(v), dtype)
        _cache[key] = r
    return r


def _recognise(x, dtype):
    if x != x:
        return tm.mk('nan', (), 'R')
    if math.isinf(x):
        return tm.mk('inf', (1 if x > 0 else -1,), 'R')
    npd = np.dtype(dtype if dtype != 'bfloat16' else 'float16')
    fi = np.finfo(npd)
    if abs(x) == float(fi.tiny):
        return tm.const(0)          # idealisation: smallest positive normal ~ 0
    if x == float(np.nextafter(npd.type(-1), npd.type(0))):
        return tm.const(-1)         # idealisation: open interval bound
    if x == float(np.nextafter(npd.type(1), npd.type(0))):
        return tm.const(1)
    # exact short dyadic
    q = Fraction(x)
    if q.denominator <= 64 and abs(q.numerator) < 10 ** 7 and (
            npd != np.float16 or q.denominator == 1 or abs(q.numerator) < 128):
        return tm.const(q)
    eps = float(fi.eps)
    for v, t in NAMED:
        if abs(v - x) <= 1.01 * eps * abs(v):
            return t
    # shortest decimal that rounds to x in this dtype
    for digits in range(1, 8):
        s = '%.*g' % (digits, x)
        if float(npd.type(float(s))) == x:
            return tm.const(Fraction(s))
    # simple fraction (only when the dtype is precise enough to identify it)
    if eps < 1e-5:
        q = Fraction(x).limit_denominator(200)
        if q != 0 and float(npd.type(float(q))) == x:
            return tm.const(q)
    return tm.const(Fraction(x))

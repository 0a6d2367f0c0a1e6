"""Abstract interpretation of the graph over kinds of floating-point values:
n z p (finite negative, zero, positive), + - (infinities), N (NaN), T F, and
tagged values that are only copied.  Used where the real-number reading of the
graph says nothing: what happens when an energy is not finite."""
from __future__ import annotations
from .tensor import Unsupported

FIN = frozenset('nzp')
ALL = frozenset('nzp+-N')
BOOL = frozenset('TF')


def un(s):
    """tags are finite values"""
    out = set()
    for k in s:
        if isinstance(k, tuple):
            out |= FIN
        else:
            out.add(k)
    return out


def lift2(f):
    def g(a, b):
        r = set()
        for x in un(a):
            for y in un(b):
                r |= set(f(x, y))
        return frozenset(r)
    return g


NEGK = {'n': 'p', 'p': 'n', 'z': 'z', '+': '-', '-': '+', 'N': 'N'}


def neg(a):
    return frozenset(NEGK[x] for x in un(a))


def _add(x, y):
    if 'N' in (x, y):
        return 'N'
    if x in '+-' or y in '+-':
        i = {x, y} & {'+', '-'}
        return 'N' if len(i) == 2 else i.pop()
    if x == 'z':
        return y
    if y == 'z' or x == y:
        return x if y == 'z' else (x, '+' if x == 'p' else '-')      # overflow
    return 'nzp'


def _mul(x, y):
    if 'N' in (x, y):
        return 'N'
    s = {'n': -1, '-': -1, 'z': 0, 'p': 1, '+': 1}
    sg = s[x] * s[y]
    if x in '+-' or y in '+-':
        return 'N' if 'z' in (x, y) else ('+' if sg > 0 else '-')
    if sg == 0:
        return 'z'
    return ('p', 'z', '+') if sg > 0 else ('n', 'z', '-')            # underflow, overflow


def _div(x, y):
    if 'N' in (x, y):
        return 'N'
    s = {'n': -1, '-': -1, 'z': 0, 'p': 1, '+': 1}
    if y == 'z':
        return 'N' if x == 'z' else '+-'
    if y in '+-':
        return 'N' if x in '+-' else 'z'
    if x in '+-':
        return '+' if s[x] * s[y] > 0 else '-'
    if x == 'z':
        return 'z'
    return ('p', 'z', '+') if s[x] * s[y] > 0 else ('n', 'z', '-')


ORD = {'-': 0, 'n': 1, 'z': 2, 'p': 3, '+': 4}


def _min(x, y):
    if 'N' in (x, y):
        return 'N'
    return x if ORD[x] <= ORD[y] else y


def _max(x, y):
    if 'N' in (x, y):
        return 'N'
    return x if ORD[x] >= ORD[y] else y


def _less(x, y):
    if 'N' in (x, y):
        return 'F'
    if x == y and x in 'np':
        return 'TF'
    return 'T' if ORD[x] < ORD[y] else 'F'


def _leq(x, y):
    if 'N' in (x, y):
        return 'F'
    if x == y and x in 'np':
        return 'TF'
    return 'T' if ORD[x] <= ORD[y] else 'F'


ADD, MUL, DIV, MIN, MAX, LESS, LEQ = [lift2(f) for f in (_add, _mul, _div, _min, _max, _less, _leq)]


def exp(a):
    t = {'n': 'pz', 'z': 'p', 'p': 'p+', '+': '+', '-': 'z', 'N': 'N'}
    return frozenset(k for x in un(a) for k in t[x])


def sqr(a):
    t = {'n': 'pz+', 'z': 'z', 'p': 'pz+', '+': '+', '-': '+', 'N': 'N'}
    return frozenset(k for x in un(a) for k in t[x])


def fsum(a):
    """sum of one or more elements of these kinds"""
    r = frozenset(un(a))
    while True:
        q = r | ADD(r, a)
        if q == r:
            return r
        r = q


def noover(r, *ins):
    """overflow of finite operands is left out: finite in, finite out"""
    if all(x <= FIN for x in map(lambda s: frozenset(un(s)), ins)):
        return frozenset(r & FIN) or r
    return r


class Kinds(object):
    """bind: tensor name -> kinds.  Anything not depending on a bound value is
    finite; finite operands give finite results (overflow is left out)."""

    COPY = {'Identity', 'StopGradient', 'ExpandDims', 'Reshape', 'Squeeze', 'BroadcastTo', 'Tile', 'Transpose', 'PreventGradient',
            'Snapshot', 'EnsureShape', 'PlaceholderWithDefault'}

    BINARY = {'AddV2', 'Add', 'Sub', 'Mul', 'RealDiv', 'Minimum', 'Maximum', 'Pow', 'SquaredDifference', 'Less', 'Greater',
              'LessEqual', 'GreaterEqual', 'LogicalAnd', 'LogicalOr', 'MulNoNan', 'DivNoNan'}
    ELEM = BINARY | {'Neg', 'Square', 'Exp', 'Abs', 'IsFinite', 'IsNan', 'IsInf', 'LogicalNot', 'Identity', 'StopGradient',
                     'CheckNumerics', 'Cast', 'Sqrt', 'Select', 'SelectV2'}

    def shared(self, o):
        """bound tensors of several kinds whose elements both operands of o read at the same index"""
        def reach(t, seen):
            if t.name in self.bind:
                if len(self.bind[t.name]) > 1 and not all(isinstance(k, tuple) for k in self.bind[t.name]):
                    seen[t.name] = t
                return seen
            if t.op.type in self.ELEM:
                for i in t.op.inputs:
                    if i.shape.is_fully_defined() and i.shape == t.shape:
                        reach(i, seen)
            return seen
        if not o.outputs[0].shape.is_fully_defined():
            return []
        sets = [reach(i, {}) for i in o.inputs if i.shape == o.outputs[0].shape]
        if len(sets) < 2:
            return []
        return [sets[0][n] for n in sorted(set(sets[0]) & set(sets[1]))][:1]

    def __init__(self, bind):
        self.bind = dict(bind)
        self.memo = {}
        self.dep = {}

    def depends(self, t):
        if t.name in self.bind:
            return not all(isinstance(k, tuple) for k in self.bind[t.name])
        r = self.dep.get(t.op.name)
        if r is None:
            self.dep[t.op.name] = False
            if t.op.type in ('Exit', 'RefExit', 'NextIteration'):
                r = False
            else:
                r = any(self.depends(i) for i in t.op.inputs)
            self.dep[t.op.name] = r
        return r

    def power(self, o, x):
        from .env import tf
        e = o.inputs[1].op
        while e.type in ('Identity', 'Cast'):
            e = e.inputs[0].op
        import numpy as np
        if e.type == 'Const' and np.all(tf.make_ndarray(e.get_attr('value')) == 2):
            return sqr(x[0])
        return ALL

    def of(self, t):
        if t.name in self.bind:
            return self.bind[t.name]
        r = self.memo.get(t.name)
        if r is None:
            r = self.memo[t.name] = self._of(t)
        return r

    def _of(self, t):
        o = t.op
        isb = t.dtype.base_dtype.name == 'bool'
        if o.type == 'Const':
            from .env import tf
            import numpy as np
            v = tf.make_ndarray(o.get_attr('value'))
            if isb:
                return frozenset('T' if x else 'F' for x in np.atleast_1d(v).ravel()) or BOOL
            if v.dtype.kind in 'fi':
                return frozenset('N' if x != x else '+' if x == np.inf else '-' if x == -np.inf else 'z' if x == 0 else
                                 'p' if x > 0 else 'n' for x in np.atleast_1d(v).ravel()[:64]) or FIN
            return FIN
        if o.type in ('RandomUniform',):
            return frozenset('zp')
        if o.type == 'ZerosLike':
            return frozenset('F') if isb else frozenset('z')
        if o.type == 'OnesLike':
            return frozenset('T') if isb else frozenset('p')
        if o.type == 'Fill':
            return self.of(o.inputs[1])
        if not self.depends(t):
            if o.type in self.COPY:
                return self.of(o.inputs[0])
            if o.type in ('Exp',):
                return frozenset('p')
            return BOOL if isb else FIN
        if o.type in self.BINARY:
            for src in self.shared(o):
                # both operands are computed from the same elements of src
                r = frozenset()
                for kd in self.bind[src.name]:
                    r |= Kinds(dict(self.bind, **{src.name: frozenset([kd])})).of(t)
                return r
        x = [self.of(i) for i in o.inputs]
        if o.type == 'RealDiv' and not self.depends(o.inputs[1]) and x[1] == FIN:
            x[1] = frozenset('p')       # precondition: the masses are positive
        h = {
            'Neg': lambda: neg(x[0]), 'AddV2': lambda: ADD(x[0], x[1]), 'Add': lambda: ADD(x[0], x[1]),
            'Sub': lambda: ADD(x[0], neg(x[1])), 'Mul': lambda: MUL(x[0], x[1]), 'RealDiv': lambda: DIV(x[0], x[1]),
            'Square': lambda: sqr(x[0]), 'SquaredDifference': lambda: sqr(ADD(x[0], neg(x[1]))),
            'Abs': lambda: frozenset({'n': 'p', '-': '+'}.get(k, k) for k in un(x[0])),
            'Sqrt': lambda: frozenset({'n': 'N', '-': 'N'}.get(k, k) for k in un(x[0])),
            'Pow': lambda: self.power(o, x), 'Minimum': lambda: MIN(x[0], x[1]), 'Maximum': lambda: MAX(x[0], x[1]),
            'Exp': lambda: exp(x[0]), 'Sum': lambda: fsum(x[0]), 'AddN': lambda: _fold(x),
            'IsFinite': lambda: frozenset('T' if k in 'nzp' else 'F' for k in un(x[0])),
            'IsNan': lambda: frozenset('T' if k == 'N' else 'F' for k in un(x[0])),
            'IsInf': lambda: frozenset('T' if k in '+-' else 'F' for k in un(x[0])),
            'LogicalAnd': lambda: frozenset('T' if (a, b) == ('T', 'T') else 'F' for a in x[0] for b in x[1]),
            'LogicalOr': lambda: frozenset('F' if (a, b) == ('F', 'F') else 'T' for a in x[0] for b in x[1]),
            'LogicalNot': lambda: frozenset('F' if a == 'T' else 'T' for a in x[0]),
            'Less': lambda: LESS(x[0], x[1]), 'Greater': lambda: LESS(x[1], x[0]),
            'LessEqual': lambda: LEQ(x[0], x[1]), 'GreaterEqual': lambda: LEQ(x[1], x[0]),
            'CheckNumerics': lambda: frozenset(k for k in x[0] if isinstance(k, tuple) or k in 'nzp'),
            'Cast': lambda: frozenset('p' if k == 'T' else 'z' for k in x[0]) if x[0] <= BOOL else x[0],
        }
        if o.type in self.COPY:
            return x[0]
        if o.type in ('Select', 'SelectV2'):
            r = frozenset()
            for pos, key in ((1, 'T'), (2, 'F')):
                src = o.inputs[pos]
                for kd in x[pos]:
                    # relational in the selected operand
                    sub = Kinds(dict(self.bind, **{src.name: frozenset([kd])}))
                    if key in (sub.of(o.inputs[0]) if src.name not in self.bind else x[0]):
                        r |= {kd}
            return r
        if o.type in h:
            r = h[o.type]()
            if not isb:
                r = noover(r, *x)
            return r
        return BOOL if isb else ALL


def _fold(x):
    r = x[0]
    for y in x[1:]:
        r = ADD(r, y)
    return r

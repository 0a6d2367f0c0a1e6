"""Term language of the verification-condition generator.

A term (class T) denotes the value of one element of one tensor of the program
under verification, as a function of the universally quantified inputs.  Terms
are hash-consed and carry no normalisation: they mirror the operations that the
extracted graph performs.  `evaluate` gives them their meaning numerically
(used for counterexample search and to validate the operator contracts against
the real runtime); `norm.py` and `smt.py` decide equalities between them.
"""
from __future__ import annotations
from fractions import Fraction
import itertools
import math

_table = {}
_ids = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'free')

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        if op == 'v':
            t.free = frozenset((t,))
        elif op in BINDERS:
            fv = t_free(args[2]) - {args[0]}
            t.free = fv | t_free(args[1])
        elif op == 'lam':
            t.free = t_free(args[1]) - frozenset(args[0])
        else:
            f = frozenset()
            for a in args:
                if isinstance(a, T):
                    f = f | a.free
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            f = f | b.free
            t.free = f
        _table[key] = t
    return t


def t_free(t):
    return t.free


BINDERS = ('sum', 'prod', 'rmax', 'rmin', 'all', 'any')
_vc = itertools.count()


def const(q, sort='R'):
    if isinstance(q, bool):
        return TRUE if q else FALSE
    return mk('c', (Fraction(q),), sort)


def ival(n):
    return mk('c', (Fraction(int(n)),), 'I')


TRUE = mk('b', (True,), 'B')
FALSE = mk('b', (False,), 'B')
PI = mk('pi', (), 'R')


def var(hint='k'):
    return mk('v', ('%s%d' % (hint, next(_vc)),), 'I')


def dim(name):
    return mk('dim', (name,), 'I')


def rd(name, idx, sort='R'):
    return mk('rd', (name,) + tuple(idx), sort)


def isc(t, v=None):
    if t.op != 'c':
        return False
    return True if v is None else t.args[0] == v


def cval(t):
    return t.args[0]


def add(*ts):
    out = []
    acc = Fraction(0)
    sort = 'I'
    for t in ts:
        if t.sort != 'I':
            sort = 'R'
        if t.op == 'c':
            acc += t.args[0]
        elif t.op == 'add':
            for u in t.args:
                if u.op == 'c':
                    acc += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if acc != 0 or not out:
        out.append(const(acc, sort))
    if len(out) == 1:
        return out[0]
    return mk('add', tuple(out), sort)


def mul(*ts):
    out = []
    acc = Fraction(1)
    sort = 'I'
    for t in ts:
        if t.sort != 'I':
            sort = 'R'
        if t.op == 'c':
            acc *= t.args[0]
        else:
            out.append(t)
    if acc == 0:
        return const(0, sort)
    if acc != 1 or not out:
        out.append(const(acc, sort))
    if len(out) == 1:
        return out[0]
    return mk('mul', tuple(out), sort)


def neg(t):
    return mul(const(-1, t.sort), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c' and b.args[0] != 0:
        return mul(a, const(1 / b.args[0]))
    return mk('div', (a, b), 'R')


def powt(a, b):
    if b.op == 'c' and b.args[0] == 1:
        return a
    return mk('pow', (a, b), 'R')


def sqrt(a):
    return powt(a, const(Fraction(1, 2)))


def square(a):
    return mul(a, a)


def f1(name, a):
    return mk(name, (a,), 'R')


def exp(a):
    return f1('exp', a)


def log(a):
    return f1('log', a)


def tabs(a):
    return mk('abs', (a,), a.sort)


def sign(a):
    return mk('sign', (a,), a.sort)


def tmax(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return a if cval(a) >= cval(b) else b
    return mk('max', (a, b), 'I' if a.sort == b.sort == 'I' else 'R')


def tmin(a, b):
    return neg(tmax(neg(a), neg(b)))


def lgamma(a):
    return f1('lgamma', a)


def softplus(a):
    return f1('softplus', a)


def sigmoid(a):
    return f1('sigmoid', a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    s = a.sort if a.sort == b.sort else 'R'
    return mk('ite', (c, a, b), s)


def lt(a, b):
    if isc(a) and isc(b):
        return TRUE if cval(a) < cval(b) else FALSE
    return mk('lt', (a, b), 'B')


def le(a, b):
    if isc(a) and isc(b):
        return TRUE if cval(a) <= cval(b) else FALSE
    if a is b:
        return TRUE
    return mk('le', (a, b), 'B')


def eq(a, b):
    if a.sort == 'B':
        return tnot(txor(a, b))
    if isc(a) and isc(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if a is b:
        return TRUE
    return mk('eq', (a, b), 'B')


def tnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def tand(*ts):
    ts = [t for t in ts if t is not TRUE]
    if any(t is FALSE for t in ts):
        return FALSE
    if not ts:
        return TRUE
    if len(ts) == 1:
        return ts[0]
    return mk('and', tuple(ts), 'B')


def tor(*ts):
    return tnot(tand(*[tnot(t) for t in ts]))


def txor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return tnot(b)
    if b is TRUE:
        return tnot(a)
    return mk('xor', (a, b), 'B')


def big(op, n, body_fn, hint='k'):
    """Reduction over k in [0, n): body_fn(k)."""
    if isc(n):
        N = int(cval(n))
        if N == 1:
            return body_fn(ival(0))
        if N == 0:
            return {'sum': const(0), 'prod': const(1), 'all': TRUE,
                    'any': FALSE}[op]
    k = var(hint)
    b = body_fn(k)
    return mk(op, (k, n, b), b.sort)


def idiv(a, b):
    if isc(b, 1):
        return a
    if isc(a) and isc(b) and cval(b) != 0:
        return ival(cval(a) // cval(b))
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if isc(b, 1):
        return ival(0)
    if isc(a) and isc(b) and cval(b) != 0:
        return ival(cval(a) - cval(b) * (cval(a) // cval(b)))
    return mk('imod', (a, b), 'I')


def toR(a):
    """Cast to real."""
    if a.sort == 'B':
        return ite(a, const(1), const(0))
    if a.sort == 'I':
        if a.op == 'c':
            return const(a.args[0])
        return mk('toR', (a,), 'R')
    return a


def toI(a):
    if a.sort == 'B':
        return ite(a, ival(1), ival(0))
    if a.sort == 'R':
        if a.op == 'c':
            v = a.args[0]
            return ival(int(v))
        if a.op == 'toR':
            return a.args[0]
        return mk('toI', (a,), 'I')
    return a


def app(name, idx, lams=(), sort='R'):
    """Uninterpreted function application: name(idx...; closures...)."""
    return mk('app', (name, tuple(idx), tuple(lams)) + tuple(idx) + tuple(lams), sort)


def lam(vs, body):
    return mk('lam', (tuple(vs), body), 'L')


# ----------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return '...'
    if t.op in ('c', 'b', 'v', 'dim'):
        return str(t.args[0])
    if t.op == 'rd':
        return '%s[%s]' % (t.args[0], ','.join(show(a, d + 1) for a in t.args[1:]))
    if t.op == 'add':
        return '(' + ' + '.join(show(a, d + 1) for a in t.args) + ')'
    if t.op == 'mul':
        return '(' + '*'.join(show(a, d + 1) for a in t.args) + ')'
    if t.op in BINDERS:
        return '%s{%s<%s}(%s)' % (t.op, show(t.args[0]), show(t.args[1]), show(t.args[2], d + 1))
    if t.op == 'app':
        return '%s(%s;%s)' % (t.args[0], ','.join(show(a, d + 1) for a in t.args[1]),
                              ','.join(show(a, d + 1) for a in t.args[2]))
    if t.op == 'lam':
        return '\\%s.%s' % (','.join(show(v) for v in t.args[0]), show(t.args[1], d + 1))
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))


# -------------------------------------------------------------- evaluation
class Env(object):
    """Numeric interpretation: dims by name, tensors by name, apps by name."""

    def __init__(self, dims=None, tensors=None, apps=None):
        self.dims = dims or {}
        self.tensors = tensors or {}
        self.apps = apps or {}


def evaluate(t, env, vals=None):
    return _ev(t, env, vals or {}, {})


def _safe(f, *a):
    try:
        return f(*a)
    except (ValueError, ZeroDivisionError):
        return float('nan')
    except OverflowError:
        return float('inf')


def _ev(t, env, vals, memo):
    if t.free:
        key = (t.id,) + tuple(sorted((v.id, vals[v]) for v in t.free))
    else:
        key = t.id
    r = memo.get(key)
    if r is None:
        r = _ev1(t, env, vals, memo)
        memo[key] = r
    return r


def _log(x):
    if x == 0:
        return -math.inf
    if x < 0:
        return math.nan
    return math.log(x)


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _mulf(a, b):
    return a * b


def _ev1(t, env, vals, memo):
    o = t.op
    a = t.args
    E = lambda u: _ev(u, env, vals, memo)
    if o == 'c':
        return float(a[0]) if t.sort == 'R' else int(a[0])
    if o == 'b':
        return a[0]
    if o == 'inf':
        return math.inf * a[0]
    if o == 'nan':
        return math.nan
    if o == 'pi':
        return math.pi
    if o == 'v':
        return vals[t]
    if o == 'dim':
        return env.dims[a[0]]
    if o == 'rd':
        arr = env.tensors[a[0]]
        idx = tuple(int(E(i)) for i in a[1:])
        for i, n in zip(idx, arr.shape):
            if not (0 <= i < n):
                raise IndexError('read %s out of range %s' % (t, idx))
        v = arr[idx]
        if t.sort == 'R':
            return float(v)
        if t.sort == 'I':
            return int(v)
        return bool(v)
    if o == 'add':
        return sum(E(u) for u in a)
    if o == 'mul':
        r = 1
        for u in a:
            r = r * E(u)
        return r
    if o == 'div':
        x, y = E(a[0]), E(a[1])
        if y == 0:
            if x == 0 or x != x:
                return math.nan
            return math.copysign(math.inf, x) * math.copysign(1.0, y)
        return x / y
    if o == 'pow':
        x, y = E(a[0]), E(a[1])
        try:
            if x < 0 and y != int(y):
                return math.nan
            return float(x) ** y
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
    if o == 'exp':
        return _exp(E(a[0]))
    if o == 'log':
        return _log(E(a[0]))
    if o == 'log1p':
        x = E(a[0])
        return -math.inf if x == -1 else _safe(math.log1p, x)
    if o == 'expm1':
        return _safe(math.expm1, E(a[0]))
    if o == 'abs':
        return abs(E(a[0]))
    if o == 'sign':
        x = E(a[0])
        return (x > 0) - (x < 0) if x == x else x
    if o == 'max':
        x, y = E(a[0]), E(a[1])
        if x != x or y != y:
            return math.nan
        return max(x, y)
    if o == 'lgamma':
        x = E(a[0])
        if x <= 0 and x == int(x):
            return math.inf
        return _safe(math.lgamma, x)
    if o == 'digamma':
        from scipy.special import digamma
        return float(digamma(E(a[0])))
    if o == 'softplus':
        x = E(a[0])
        return max(x, 0.0) + math.log1p(_exp(-abs(x)))
    if o == 'sigmoid':
        x = E(a[0])
        if x >= 0:
            return 1 / (1 + _exp(-x))
        return _exp(x) / (1 + _exp(x))
    if o == 'tanh':
        return math.tanh(E(a[0]))
    if o in ('sin', 'cos'):
        return getattr(math, o)(E(a[0]))
    if o == 'ite':
        return E(a[1]) if E(a[0]) else E(a[2])
    if o == 'lt':
        return E(a[0]) < E(a[1])
    if o == 'le':
        return E(a[0]) <= E(a[1])
    if o == 'eq':
        return E(a[0]) == E(a[1])
    if o == 'isfinite':
        return math.isfinite(E(a[0]))
    if o == 'not':
        return not E(a[0])
    if o == 'and':
        return all(E(u) for u in a)
    if o == 'xor':
        return bool(E(a[0])) != bool(E(a[1]))
    if o in BINDERS:
        n = int(E(a[1]))
        v2 = dict(vals)
        out = []
        for i in range(n):
            v2[a[0]] = i
            out.append(_ev(a[2], env, v2, memo))
        if o == 'sum':
            return sum(out)
        if o == 'prod':
            r = 1.0
            for x in out:
                r *= x
            return r
        if o == 'rmax':
            return max(out)
        if o == 'rmin':
            return min(out)
        if o == 'all':
            return all(out)
        return any(out)
    if o == 'idiv':
        return int(E(a[0])) // int(E(a[1]))
    if o == 'imod':
        return int(E(a[0])) % int(E(a[1]))
    if o == 'toR':
        return float(E(a[0]))
    if o == 'toI':
        x = E(a[0])
        return int(x)
    if o == 'floor':
        return math.floor(E(a[0]))
    if o == 'app':
        f = env.apps[a[0]]
        lams = []
        for l in a[2]:
            vs, body = l.args

            def g(*ix, _vs=vs, _b=body):
                v2 = dict(vals)
                for v, i in zip(_vs, ix):
                    v2[v] = i
                return _ev(_b, env, v2, memo)
            lams.append(g)
        return f([E(i) for i in a[1]], lams, env)
    raise NotImplementedError(o)


def subst(t, m, memo=None):
    """Simultaneous replacement of subterms (binders have globally unique names)."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, (tuple, list)):
            return tuple(go(y) for y in x)
        return x
    args = tuple(go(x) for x in t.args)
    r = t if args == t.args else mk(t.op, args, t.sort)
    memo[t] = r
    return r


def subterms(t, pred, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen

    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if pred(x):
                out.append(x)
            for y in x.args:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(t)
    return out


def alpha_key(t, env=None, memo=None):
    """Hashable key equal for alpha-equivalent terms."""
    env = env or {}
    memo = {} if memo is None else memo
    if t.op == 'v' and t in env:
        return ('bv', env[t])
    k = (t.id, tuple(sorted((v.id, env[v]) for v in t.free if v in env)), len(env) if t.op in BINDERS + ('lam',) else 0)
    r = memo.get(k)
    if r is None:
        if t.op in BINDERS:
            e2 = dict(env)
            e2[t.args[0]] = len(env)
            r = (t.op, alpha_key(t.args[1], env, memo), alpha_key(t.args[2], e2, memo))
        elif t.op == 'lam':
            e2 = dict(env)
            for v in t.args[0]:
                e2[v] = len(e2)
            r = ('lam', len(t.args[0]), alpha_key(t.args[1], e2, memo))
        else:
            def go(x):
                if isinstance(x, T):
                    return alpha_key(x, env, memo)
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return x
            r = (t.op, t.sort) + tuple(go(x) for x in t.args)
        r = memo.setdefault(('c', r), ('#', len(memo)))
        memo[k] = r
    return r

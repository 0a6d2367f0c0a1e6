"""Symbolic derivative of terms: the specification of gradients.

deriv(t, name, idx) is the term d t / d name[idx]; reads of the same array at
another index contribute Kronecker deltas, reductions are differentiated under
the binder."""
from __future__ import annotations
from . import terms as tm
from .terms import const, mul, add, neg, sub, div, ite
from .tensor import Unsupported
from .norm import bvar, VB

Z, ONE = const(0), const(1)


def deriv(t, name, idx, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = _d(t, name, idx, memo)
        memo[t] = r
    return r


def mentions(t, name, memo=None):
    memo = _M.setdefault(name, {})
    r = memo.get(t)
    if r is None:
        r = (t.op == 'rd' and t.args[0] == name)
        if not r:
            for x in t.args:
                if isinstance(x, tm.T) and mentions(x, name):
                    r = True
                    break
                if isinstance(x, tuple) and any(isinstance(y, tm.T) and mentions(y, name) for y in x):
                    r = True
                    break
        memo[t] = r
    return r


_M = {}


def _d(t, name, idx, memo):
    if not mentions(t, name):
        return Z
    o, a = t.op, t.args
    D = lambda x: deriv(x, name, idx, memo)
    if o == 'rd':
        if a[0] != name:
            return Z
        if len(a) - 1 != len(idx):
            raise Unsupported('derivative: rank')
        r = ONE
        for x, y in zip(a[1:], idx):
            if x is not y:
                r = mul(r, ite(tm.eq(x, y), ONE, Z))
        return r
    if o == 'add':
        return add(*[D(x) for x in a])
    if o == 'mul':
        out = []
        for i, x in enumerate(a):
            d = D(x)
            if d is not Z:
                out.append(mul(*([d] + [y for j, y in enumerate(a) if j != i])))
        return add(*out) if out else Z
    if o == 'div':
        dn, dd = D(a[0]), D(a[1])
        r = div(dn, a[1]) if dn is not Z else Z
        if dd is not Z:
            r = sub(r, div(mul(a[0], dd), mul(a[1], a[1])))
        return r
    if o == 'pow':
        dn, de = D(a[0]), D(a[1])
        r = Z
        if dn is not Z:
            r = mul(a[1], tm.powt(a[0], sub(a[1], ONE)), dn)
        if de is not Z:
            r = add(r, mul(t, tm.log(a[0]), de))
        return r
    if o == 'exp':
        return mul(t, D(a[0]))
    if o == 'log':
        return div(D(a[0]), a[0])
    if o == 'log1p':
        return div(D(a[0]), add(ONE, a[0]))
    if o == 'expm1':
        return mul(tm.exp(a[0]), D(a[0]))
    if o == 'softplus':
        return mul(tm.sigmoid(a[0]), D(a[0]))
    if o == 'sigmoid':
        return mul(t, tm.sigmoid(neg(a[0])), D(a[0]))
    if o == 'tanh':
        return mul(sub(ONE, mul(t, t)), D(a[0]))
    if o == 'abs':
        return mul(tm.sign(a[0]), D(a[0]))
    if o in ('sign', 'floor', 'toI', 'lt', 'le', 'eq', 'isfinite'):
        return Z
    if o == 'max':
        return ite(tm.lt(a[0], a[1]), D(a[1]), D(a[0]))
    if o == 'lgamma':
        return mul(tm.f1('digamma', a[0]), D(a[0]))
    if o == 'sin':
        return mul(tm.f1('cos', a[0]), D(a[0]))
    if o == 'cos':
        return neg(mul(tm.f1('sin', a[0]), D(a[0])))
    if o == 'ite':
        return ite(a[0], D(a[1]), D(a[2]))
    if o == 'sum':
        k, n, b = a
        d = D(b)
        return tm.mk('sum', (k, n, d), 'R') if d is not Z else Z
    if o == 'prod':
        # product rule on positive or non-zero factors
        k, n, b = a
        d = D(b)
        return mul(t, tm.mk('sum', (k, n, div(d, b)), 'R'))
    if o == 'toR':
        return Z
    if o == 'app':
        nm, ix, lams = a[0], a[1], a[2]
        if nm in RULES:
            return RULES[nm](t, ix, lams, D, name, idx)
        raise Unsupported('derivative of %s' % nm)
    raise Unsupported('derivative of %s' % o)


def _tri(lower):
    nm = 'trisolve_L' if lower else 'trisolve_U'

    def rule(t, ix, lams, D, name, idx):
        # z = L^-1 y ;  dz = L^-1 (dy - dL z)  with dL restricted to the triangle
        n, r = ix
        (Lv, Lb), (yv, yb) = lams[0].args, lams[1].args
        p = bvar('a', n)
        q = bvar('q', n)
        dy = tm.subst(D(yb), {yv[0]: p})
        dL = D(Lb)
        rhs = dy
        if dL is not Z:
            dLpq = tm.subst(dL, {Lv[0]: p, Lv[1]: q})
            zq = tm.app(nm, [n, q], lams)
            inside = tm.le(q, p) if lower else tm.le(p, q)
            s = tm.mk('sum', (q, n, mul(ite(inside, ONE, Z), dLpq, zq)), 'R')
            rhs = sub(rhs, s)
        return tm.app(nm, [n, r], [lams[0], tm.lam([p], rhs)])
    return rule


RULES = {'trisolve_L': _tri(True), 'trisolve_U': _tri(False)}

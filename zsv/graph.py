"""Symbolic execution of extracted TensorFlow graphs.

The graph that the real code builds is the program.  `GraphEval` gives each op
the meaning stated by its operator contract (methods op_<Type>), over real
numbers and mathematical integers.  Universally quantified inputs are the
placeholders / variables / abstract functions bound by the configuration.
"""
from __future__ import annotations
import numpy as np
from fractions import Fraction
import tensorflow as tf
from . import terms as tm
from . import tensor as tn
from .terms import ival, isc, cval
from .tensor import (Ten, Unsupported, ShapeError, simp, same, ci, ints, elements, bshape, bidx,
                     elementwise, vector, scalar, reduce, reshape, size_of, sort_of)
from .consts import recognise
from .norm import bvar

USED_CONTRACTS = {}


def dt(x):
    return x.base_dtype.name


class Noise(object):
    def __init__(self, name, kind, ten, tensor, params):
        self.name, self.kind, self.ten, self.tensor, self.params = name, kind, ten, tensor, params


def cast_term(t, src, dst):
    s, d = sort_of(src), sort_of(dst)
    if s == d:
        return t
    if d == 'R':
        return tm.toR(t)
    if d == 'I':
        return tm.toI(t)
    return tm.tnot(tm.eq(t, tm.const(0, t.sort)))


class GraphEval(object):
    def __init__(self, inputs, state=None, abstract=None):
        """inputs: {tensor name: Ten}; state: {variable op name: Ten};
        abstract: {op name or token: handler(ev, op) -> list of Ten}."""
        self.inputs = dict(inputs)
        self.state = state or {}
        self.abstract = abstract or {}
        self.memo = {}
        self.gmemo = {}
        self.noises = []
        self.asserts = []
        self.overrides = {}
        self.loops = {}
        self.loop_rule = None
        self.ops_override = {}

    # ---------------------------------------------------------------- driver
    def ten(self, tensor):
        name = tensor.name
        if name in self.inputs:
            return self.inputs[name]
        key = name
        r = self.memo.get(key)
        if r is None:
            # iterative deepening to avoid recursion limits
            r = self._eval_op(tensor.op)[tensor.value_index]
        return r

    def _eval_op(self, op):
        stack = [op]
        while stack:
            o = stack[-1]
            if o.name in self.gmemo:
                stack.pop()
                continue
            todo = []
            if o.name not in self.abstract and o.type not in ('Merge', 'Exit'):
                todo = [x for x in self._needs(o) if x.name not in self.gmemo]
            elif o.type == 'Merge':
                if not self._is_loop_merge(o):
                    todo = [x for x in self._needs(o) if x.name not in self.gmemo]
            if todo:
                stack.extend(todo)
                if len(stack) > 100000:
                    raise Unsupported('cyclic graph')
                continue
            self._eval1(o)
            stack.pop()
        return self.gmemo[op.name]

    def _is_loop_merge(self, o):
        return any(t.op.type == 'NextIteration' for t in o.inputs)

    def _guards(self, op, tens):
        g = {}
        for x in tens:
            for k, v in x.guards.items():
                g[k] = v
        for c in op.control_inputs:
            # pivots: Identity of a Switch output
            if c.type in ('Identity', 'Switch') and c.type == 'Identity':
                src = c.inputs[0]
                if src.op.type == 'Switch':
                    for x in self._eval_op(c):
                        for k, v in x.guards.items():
                            g[k] = v
        return g

    def _inputs(self, op):
        return [self.ten(t) for t in op.inputs]

    def _needs(self, o):
        """operations to evaluate before `o`"""
        return [t.op for t in o.inputs if t.name not in self.inputs]

    def _eval1(self, op):
        if op.name in self.abstract:
            outs = self.abstract[op.name](self, op)
        elif op.type in self.abstract:
            outs = self.abstract[op.type](self, op)
        else:
            h = getattr(self, 'op_' + op.type, None)
            if h is None:
                raise Unsupported('operator %s has no contract' % op.type)
            USED_CONTRACTS[op.type] = USED_CONTRACTS.get(op.type, 0) + 1
            if op.type in ('Switch', 'Merge', 'Exit', 'NoOp'):
                outs = h(op)
            else:
                xs = self._inputs(op)
                outs = h(op, *xs)
                g = self._guards(op, xs)
                if not isinstance(outs, (list, tuple)):
                    outs = [outs]
                if g:
                    for o in outs:
                        o.guards = dict(o.guards, **g)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        self.gmemo[op.name] = outs
        for i, o in enumerate(outs):
            if i < len(op.outputs):
                self.memo[op.outputs[i].name] = o
        return outs

    # ------------------------------------------------------------ sources
    def op_Placeholder(self, op):
        raise Unsupported('unbound placeholder %s' % op.name)

    def op_PlaceholderWithDefault(self, op, x):
        return x

    def op_Const(self, op):
        v = tf.make_ndarray(op.get_attr('value'))
        return const_ten(v, dt(op.outputs[0].dtype))

    def op_VariableV2(self, op):
        if op.name not in self.state:
            raise Unsupported('unbound variable %s' % op.name)
        return self.state[op.name]

    op_Variable = op_VariableV2

    def op_VarHandleOp(self, op):
        return self.op_VariableV2(op)

    def op_ReadVariableOp(self, op, x):
        return x

    def op_Assign(self, op, ref, x):
        return Ten(x.shape, x.at, x.dtype)

    def op_AssignAdd(self, op, ref, x):
        return elementwise(tm.add, ref, x)

    def op_AssignSub(self, op, ref, x):
        return elementwise(tm.sub, ref, x)

    # ------------------------------------------------------------ identity-like
    def _id(self, op, x, *rest):
        return Ten(x.shape, x.at, x.dtype)

    op_Identity = _id
    op_StopGradient = _id
    op_PreventGradient = _id
    op_Snapshot = _id
    op_EnsureShape = _id

    def op_CheckNumerics(self, op, x):
        self.asserts.append(('check_numerics', op, x))
        return Ten(x.shape, x.at, x.dtype)

    def op_NoOp(self, op):
        return []

    def op_Assert(self, op, cond, *data):
        self.asserts.append(('assert', op, cond))
        return []

    def op_IdentityN(self, op, *xs):
        return list(xs)

    # ------------------------------------------------------------ elementwise
    def _bin(self, f):
        def h(op, x, y):
            return elementwise(f, x, y, dtype=dt(op.outputs[0].dtype))
        return h

    def op_AddV2(self, op, x, y):
        return elementwise(tm.add, x, y)

    op_Add = op_AddV2
    op_BiasAdd = op_AddV2

    def op_Sub(self, op, x, y):
        return elementwise(tm.sub, x, y)

    def op_Mul(self, op, x, y):
        return elementwise(tm.mul, x, y)

    op_MulNoNan = op_Mul

    def op_RealDiv(self, op, x, y):
        return elementwise(tm.div, x, y)

    op_Div = op_RealDiv
    op_Xdivy = op_RealDiv

    def op_DivNoNan(self, op, x, y):
        return elementwise(lambda a, b: tm.ite(tm.eq(b, tm.const(0)), tm.const(0), tm.div(a, b)), x, y)

    def op_FloorDiv(self, op, x, y):
        if x.sort == 'I':
            return elementwise(tm.idiv, x, y)
        return elementwise(lambda a, b: tm.f1('floor', tm.div(a, b)), x, y)

    def op_FloorMod(self, op, x, y):
        if x.sort == 'I':
            return elementwise(tm.imod, x, y)
        return elementwise(lambda a, b: tm.sub(a, tm.mul(b, tm.f1('floor', tm.div(a, b)))), x, y)

    def op_Neg(self, op, x):
        return elementwise(tm.neg, x)

    def op_Maximum(self, op, x, y):
        # clamp of a non-negative draw at the smallest normal number is idealised
        return elementwise(tm.tmax, x, y)

    def op_Minimum(self, op, x, y):
        return elementwise(tm.tmin, x, y)

    def op_Exp(self, op, x):
        return elementwise(tm.exp, x)

    def op_Log(self, op, x):
        return elementwise(tm.log, x)

    def op_Log1p(self, op, x):
        return elementwise(lambda a: tm.f1('log1p', a), x)

    def op_Expm1(self, op, x):
        return elementwise(lambda a: tm.f1('expm1', a), x)

    def op_Abs(self, op, x):
        return elementwise(tm.tabs, x)

    def op_Sign(self, op, x):
        return elementwise(tm.sign, x)

    def op_Square(self, op, x):
        return elementwise(tm.square, x)

    def op_SquaredDifference(self, op, x, y):
        return elementwise(lambda a, b: tm.square(tm.sub(a, b)), x, y)

    def op_Sqrt(self, op, x):
        return elementwise(tm.sqrt, x)

    def op_Rsqrt(self, op, x):
        return elementwise(lambda a: tm.powt(a, tm.const(Fraction(-1, 2))), x)

    def op_Reciprocal(self, op, x):
        return elementwise(lambda a: tm.div(tm.const(1), a), x)

    op_Inv = op_Reciprocal

    def op_Pow(self, op, x, y):
        return elementwise(tm.powt, x, y)

    def op_Lgamma(self, op, x):
        return elementwise(tm.lgamma, x)

    def op_Digamma(self, op, x):
        return elementwise(lambda a: tm.f1('digamma', a), x)

    def op_Sigmoid(self, op, x):
        return elementwise(tm.sigmoid, x)

    def op_Softplus(self, op, x):
        return elementwise(tm.softplus, x)

    def op_Tanh(self, op, x):
        return elementwise(lambda a: tm.f1('tanh', a), x)

    def op_Floor(self, op, x):
        return elementwise(lambda a: tm.f1('floor', a), x)

    def op_Relu(self, op, x):
        return elementwise(lambda a: tm.tmax(a, tm.const(0)), x)

    def op_SigmoidGrad(self, op, y, dy):
        return elementwise(lambda a, b: tm.mul(b, a, tm.sub(tm.const(1), a)), y, dy)

    def op_TanhGrad(self, op, y, dy):
        return elementwise(lambda a, b: tm.mul(b, tm.sub(tm.const(1), tm.square(a))), y, dy)

    def op_SoftplusGrad(self, op, g, x):
        return elementwise(lambda a, b: tm.mul(a, tm.sigmoid(b)), g, x)

    def op_SqrtGrad(self, op, y, dy):
        return elementwise(lambda a, b: tm.div(tm.mul(b, tm.const(Fraction(1, 2))), a), y, dy)

    def op_ReciprocalGrad(self, op, y, dy):
        return elementwise(lambda a, b: tm.neg(tm.mul(b, a, a)), y, dy)

    op_InvGrad = op_ReciprocalGrad

    def op_ReluGrad(self, op, g, x):
        return elementwise(lambda a, b: tm.ite(tm.lt(tm.const(0), b), a, tm.const(0)), g, x)

    def op_RandomGammaGrad(self, op, alpha, s):
        return elementwise(lambda a, b: tm.app('gamma_grad', [a, b]), alpha, s)

    def op_AddN(self, op, *xs):
        return elementwise(tm.add, *xs)

    def op_ZerosLike(self, op, x):
        return Ten(x.shape, lambda *i: zero(x.dtype), x.dtype)

    def op_OnesLike(self, op, x):
        return Ten(x.shape, lambda *i: one(x.dtype), x.dtype)

    def op_Cast(self, op, x):
        d = dt(op.outputs[0].dtype)
        return Ten(x.shape, lambda *i: cast_term(x.at(*i), x.dtype, d), d)

    # ------------------------------------------------------------ comparisons
    def _cmp(self, f, x, y):
        return elementwise(f, x, y, dtype='bool')

    def op_Less(self, op, x, y):
        return self._cmp(tm.lt, x, y)

    def op_LessEqual(self, op, x, y):
        return self._cmp(tm.le, x, y)

    def op_Greater(self, op, x, y):
        return self._cmp(lambda a, b: tm.lt(b, a), x, y)

    def op_GreaterEqual(self, op, x, y):
        return self._cmp(lambda a, b: tm.le(b, a), x, y)

    def op_Equal(self, op, x, y):
        return self._cmp(tm.eq, x, y)

    def op_NotEqual(self, op, x, y):
        return self._cmp(lambda a, b: tm.tnot(tm.eq(a, b)), x, y)

    def op_LogicalAnd(self, op, x, y):
        return self._cmp(tm.tand, x, y)

    def op_LogicalOr(self, op, x, y):
        return self._cmp(tm.tor, x, y)

    def op_LogicalNot(self, op, x):
        return elementwise(tm.tnot, x)

    def op_LogicalXor(self, op, x, y):
        return self._cmp(tm.txor, x, y)

    def op_IsFinite(self, op, x):
        return elementwise(lambda a: tm.mk('isfinite', (a,), 'B'), x, dtype='bool')

    def op_IsNan(self, op, x):
        return elementwise(lambda a: tm.FALSE, x, dtype='bool')

    op_IsInf = op_IsNan

    def op_Select(self, op, c, x, y):
        if c.rank < x.rank and c.rank == 1:
            return Ten(x.shape, lambda *i: tm.ite(c.at(i[0]), x.at(*i), y.at(*i)), x.dtype)
        if c.rank == 0 and x.rank > 0:
            return Ten(x.shape, lambda *i: tm.ite(c.at(), x.at(*i), y.at(*i)), x.dtype)
        return elementwise(tm.ite, c, x, y, dtype=x.dtype)

    def op_SelectV2(self, op, c, x, y):
        return elementwise(tm.ite, c, x, y, dtype=x.dtype)

    # ------------------------------------------------------------ shapes
    def op_Shape(self, op, x):
        return vector(x.shape, dt(op.outputs[0].dtype))

    def op_ShapeN(self, op, *xs):
        return [vector(x.shape, dt(op.outputs[0].dtype)) for x in xs]

    def op_Rank(self, op, x):
        return scalar(ival(x.rank), 'int32')

    def op_Size(self, op, x):
        return scalar(size_of(x.shape), 'int32')

    def op_Reshape(self, op, x, s):
        return reshape(x, ints(s))

    def op_Pack(self, op, *xs):
        ax = op.get_attr('axis')
        r = xs[0].rank + 1
        ax %= r
        sh = list(xs[0].shape)
        sh.insert(ax, ival(len(xs)))

        def fn(*i):
            i = list(i)
            k = i.pop(ax)
            return tn.select([x.at(*i) for x in xs], k)
        return Ten(sh, fn, xs[0].dtype)

    def op_Unpack(self, op, x):
        ax = op.get_attr('axis') % x.rank
        n = op.get_attr('num')
        sh = x.shape[:ax] + x.shape[ax + 1:]
        return [Ten(sh, (lambda *i, k=k: x.at(*(list(i[:ax]) + [ival(k)] + list(i[ax:])))), x.dtype)
                for k in range(n)]

    def op_ConcatV2(self, op, *args):
        xs, ax = list(args[:-1]), ci(args[-1].at())
        ax %= xs[0].rank
        xs = [x for x in xs if not isc(x.shape[ax], 0)] or xs[:1]
        if len(xs) == 1:
            return self._id(op, xs[0])
        sh = list(xs[0].shape)
        sh[ax] = simp(tm.add(*[x.shape[ax] for x in xs]))
        offs = []
        o = ival(0)
        for x in xs:
            offs.append(o)
            o = simp(tm.add(o, x.shape[ax]))

        def fn(*i):
            i = list(i)
            k = simp(i[ax])
            r = None
            for x, off in reversed(list(zip(xs, offs))):
                j = list(i)
                j[ax] = tm.sub(k, off)
                end = simp(tm.add(off, x.shape[ax]))
                if isc(k) and isc(off) and isc(end):
                    if cval(off) <= cval(k) < cval(end):
                        return x.at(*[simp(q) if n == ax else q for n, q in enumerate(j)])
                    continue
                v = x.at(*j)
                r = v if r is None else tm.ite(tm.lt(k, end), v, r)
            return r
        return Ten(sh, fn, xs[0].dtype)

    def op_ExpandDims(self, op, x, d):
        ax = ci(ints(d)[0])
        ax = ax % (x.rank + 1)
        sh = list(x.shape)
        sh.insert(ax, ival(1))
        return Ten(sh, lambda *i: x.at(*(i[:ax] + i[ax + 1:])), x.dtype)

    def op_Squeeze(self, op, x):
        dims = list(op.get_attr('squeeze_dims'))
        if dims:
            dims = tn.norm_axes(dims, x.rank)
            for d in dims:
                if not isc(x.shape[d], 1):
                    raise ShapeError('squeeze of a dimension of size %s' % x.shape[d])
        else:
            dims = [k for k, s in enumerate(x.shape) if isc(s, 1)]
            if any(not isc(s) for s in x.shape):
                raise Unsupported('squeeze of unknown dims')
        sh = [s for k, s in enumerate(x.shape) if k not in dims]

        def fn(*i):
            i = list(i)
            full = []
            for k in range(x.rank):
                full.append(ival(0) if k in dims else i.pop(0))
            return x.at(*full)
        return Ten(sh, fn, x.dtype)

    def op_StridedSlice(self, op, x, b, e, s):
        bm, em = op.get_attr('begin_mask'), op.get_attr('end_mask')
        el, nm, sm = op.get_attr('ellipsis_mask'), op.get_attr('new_axis_mask'), op.get_attr('shrink_axis_mask')
        b, e, s = ints(b), ints(e), ints(s)
        n = len(b)
        # expand the sparse spec into a dense list of items
        items = []
        n_new = sum(1 for k in range(n) if nm >> k & 1 and not (el >> k & 1))
        seen_el = False
        used = n - n_new - (1 if el else 0)
        for k in range(n):
            if el >> k & 1:
                for _ in range(x.rank - used):
                    items.append(('all',))
                seen_el = True
            elif nm >> k & 1:
                items.append(('new',))
            elif sm >> k & 1:
                items.append(('at', b[k]))
            else:
                items.append(('slice', None if bm >> k & 1 else b[k],
                              None if em >> k & 1 else e[k], ci(s[k])))
        cnt = sum(1 for it in items if it[0] != 'new')
        items += [('all',)] * (x.rank - cnt)
        if sum(1 for it in items if it[0] != 'new') > x.rank:
            raise ShapeError('too many indices')
        sh, maps, d = [], [], 0
        for it in items:
            if it[0] == 'new':
                sh.append(ival(1))
                maps.append(None)
                continue
            N = x.shape[d]
            if it[0] == 'all':
                sh.append(N)
                maps.append((ival(0), 1))
            elif it[0] == 'at':
                i0 = it[1]
                if isc(i0):
                    if cval(i0) < 0:
                        i0 = simp(tm.add(N, i0))
                        if isc(i0) and cval(i0) < 0:
                            raise ShapeError('slice index out of bounds')
                    elif isc(N) and cval(i0) >= cval(N):
                        raise ShapeError('slice index out of bounds')
                maps.append(('at', i0))
            else:
                _, lo, hi, st = it
                if st not in (1, -1):
                    if all(q is None or isc(q) for q in (lo, hi)) and isc(N):
                        r = range(*slice(None if lo is None else int(cval(lo)),
                                         None if hi is None else int(cval(hi)), st).indices(int(cval(N))))
                        sh.append(ival(len(r)))
                        maps.append((ival(r.start), st))
                        d += 1
                        continue
                    raise Unsupported('strided slice')
                if st == -1:
                    if lo is None and hi is None:
                        sh.append(N)
                        maps.append((simp(tm.sub(N, ival(1))), -1))
                        d += 1
                        continue
                    if isc(N):
                        r = range(*slice(None if lo is None else int(cval(lo)),
                                         None if hi is None else int(cval(hi)), st).indices(int(cval(N))))
                        sh.append(ival(len(r)))
                        maps.append((ival(r.start), st))
                        d += 1
                        continue
                    raise Unsupported('reverse slice')
                lo2 = ival(0) if lo is None else clampidx(lo, N)
                hi2 = N if hi is None else clampidx(hi, N)
                ln = simp(tm.sub(hi2, lo2))
                if isc(ln) and cval(ln) < 0:
                    ln = ival(0)
                sh.append(ln)
                maps.append((lo2, 1))
            d += 1

        def fn(*i):
            i = list(i)
            full = []
            for mp in maps:
                if mp is None:
                    i.pop(0)
                elif mp[0] == 'at':
                    full.append(mp[1])
                else:
                    k = i.pop(0)
                    lo, st = mp
                    full.append(simp_idx(tm.add(lo, k if st == 1 else tm.mul(ival(st), k))))
            return x.at(*full)
        return Ten(sh, fn, x.dtype)

    def op_Slice(self, op, x, b, s):
        b, s = ints(b), ints(s)
        sh = [simp(tm.sub(N, lo)) if isc(k, -1) else k for N, lo, k in zip(x.shape, b, s)]
        return Ten(sh, lambda *i: x.at(*[simp_idx(tm.add(lo, k)) for lo, k in zip(b, i)]), x.dtype)

    def op_Fill(self, op, s, v):
        return Ten(ints(s), lambda *i: v.at(), v.dtype)

    def op_Range(self, op, a, b, s):
        a, b, s = simp(a.at()), simp(b.at()), ci(s.at())
        if isc(a) and isc(b):
            r = list(range(int(cval(a)), int(cval(b)), s))
            return vector([ival(k) for k in r], dt(op.outputs[0].dtype))
        if s != 1:
            raise Unsupported('range with a step')
        return Ten([simp(tm.sub(b, a))], lambda i: tm.add(a, i), dt(op.outputs[0].dtype))

    def op_BroadcastArgs(self, op, x, y):
        return vector(bshape(ints(x), ints(y)), x.dtype)

    def op_BroadcastTo(self, op, x, s):
        return tn.broadcast_to(x, ints(s))

    def op_BroadcastGradientArgs(self, op, x, y):
        sx, sy = ints(x), ints(y)
        n = max(len(sx), len(sy))
        px = [ival(1)] * (n - len(sx)) + sx
        py = [ival(1)] * (n - len(sy)) + sy
        rx, ry = [], []
        for k in range(n):
            bdim_ = tn.bdim(px[k], py[k])
            if isc(px[k], 1) and (k < n - len(sx) or not isc(py[k], 1)):
                rx.append(k)
            if isc(py[k], 1) and (k < n - len(sy) or not isc(px[k], 1)):
                ry.append(k)
        return [vector([ival(k) for k in rx]), vector([ival(k) for k in ry])]

    def op_DynamicStitch(self, op, *args):
        n = len(args) // 2
        ix, xs = args[:n], args[n:]
        out = {}
        for i, x in zip(ix, xs):
            if i.rank == 0:
                out[ci(i.at())] = x.at()
            else:
                for k, v in zip(ints(i), elements(x)):
                    out[ci(k)] = v
        return vector([out[k] for k in sorted(out)], xs[0].dtype)

    def op_InvertPermutation(self, op, x):
        p = [ci(k) for k in ints(x)]
        inv = [0] * len(p)
        for i, k in enumerate(p):
            inv[k] = i
        return vector([ival(k) for k in inv])

    def op_Transpose(self, op, x, p):
        p = [ci(k) for k in ints(p)]
        sh = [x.shape[k] for k in p]

        def fn(*i):
            full = [None] * len(p)
            for j, k in enumerate(p):
                full[k] = i[j]
            return x.at(*full)
        return Ten(sh, fn, x.dtype)

    def op_Tile(self, op, x, m):
        m = ints(m)
        sh, maps = [], []
        for s, k in zip(x.shape, m):
            sh.append(simp(tm.mul(s, k)))

        def fn(*i):
            full = []
            for s, k, q in zip(x.shape, m, i):
                if isc(k, 1):
                    full.append(q)
                elif isc(s, 1):
                    full.append(ival(0))
                else:
                    full.append(tm.imod(q, s))
            return x.at(*full)
        return Ten(sh, fn, x.dtype)

    def op_ReverseV2(self, op, x, axes):
        ax = tn.norm_axes([ci(a) for a in ints(axes)], x.rank)
        return Ten(x.shape, lambda *i: x.at(*[
            simp_idx(tm.sub(tm.sub(x.shape[k], ival(1)), q)) if k in ax else q
            for k, q in enumerate(i)]), x.dtype)

    def op_GatherV2(self, op, x, idx, ax):
        ax = ci(ax.at()) % x.rank
        bd = op.get_attr('batch_dims')
        if bd:
            raise Unsupported('gather batch_dims')
        sh = x.shape[:ax] + idx.shape + x.shape[ax + 1:]
        r = idx.rank

        def fn(*i):
            i = list(i)
            return x.at(*(i[:ax] + [idx.at(*i[ax:ax + r])] + i[ax + r:]))
        return Ten(sh, fn, x.dtype)

    def op_Pad(self, op, x, p):
        raise Unsupported('Pad')

    # ------------------------------------------------------------ reductions
    def _red(self, op, x, ax, kind):
        axes = [ci(a) for a in ints(ax)]
        return reduce(x, axes, op.get_attr('keep_dims'), kind)

    def op_Sum(self, op, x, ax):
        return self._red(op, x, ax, 'sum')

    def op_Mean(self, op, x, ax):
        return self._red(op, x, ax, 'mean')

    def op_Max(self, op, x, ax):
        return self._red(op, x, ax, 'rmax')

    def op_Min(self, op, x, ax):
        return self._red(op, x, ax, 'rmin')

    def op_All(self, op, x, ax):
        return self._red(op, x, ax, 'all')

    def op_Any(self, op, x, ax):
        return self._red(op, x, ax, 'any')

    def op_Prod(self, op, x, ax):
        if x.sort == 'I':
            axes = [ci(a) for a in ints(ax)]
            if x.rank == 1 and axes in ([0], [-1]):
                r = simp(tm.mul(ival(1), *elements(x)))
                if op.get_attr('keep_dims'):
                    return vector([r], x.dtype)
                return scalar(r, x.dtype)
            if not axes:
                return self._id(op, x)
        return self._red(op, x, ax, 'prod')

    # ------------------------------------------------------------ linear algebra
    def op_MatMul(self, op, x, y):
        ta, tb = op.get_attr('transpose_a'), op.get_attr('transpose_b')
        return matmul(x, y, ta, tb)

    def op_BatchMatMulV2(self, op, x, y):
        return matmul(x, y, op.get_attr('adj_x'), op.get_attr('adj_y'))

    op_BatchMatMul = op_BatchMatMulV2
    op_BatchMatMulV3 = op_BatchMatMulV2

    def op_MatrixDiagPartV3(self, op, x, k, pad):
        if [ci(q) for q in ints(k)] != [0]:
            raise Unsupported('diag k')
        if not same(x.shape[-1], x.shape[-2]):
            raise Unsupported('diag of a non-square matrix')
        return Ten(x.shape[:-1], lambda *i: x.at(*(list(i) + [i[-1]])), x.dtype)

    def op_MatrixDiagPart(self, op, x):
        return Ten(x.shape[:-1], lambda *i: x.at(*(list(i) + [i[-1]])), x.dtype)

    def op_MatrixDiagV3(self, op, x, k, nr, nc, pad):
        if [ci(q) for q in ints(k)] != [0]:
            raise Unsupported('diag k')
        return self.op_MatrixDiag(op, x)

    def op_MatrixDiag(self, op, x):
        z = zero(x.dtype)
        return Ten(x.shape + [x.shape[-1]],
                   lambda *i: tm.ite(tm.eq(i[-2], i[-1]), x.at(*i[:-1]), z), x.dtype)

    def op_MatrixSetDiagV3(self, op, x, d, k):
        if [ci(q) for q in ints(k)] != [0]:
            raise Unsupported('diag k')
        return Ten(x.shape, lambda *i: tm.ite(tm.eq(i[-2], i[-1]), d.at(*i[:-1]), x.at(*i)), x.dtype)

    def op_MatrixBandPart(self, op, x, lo, hi):
        lo, hi = ci(lo.at()), ci(hi.at())

        def fn(*i):
            r, c = i[-2], i[-1]
            cs = []
            if lo >= 0:
                cs.append(tm.le(tm.sub(r, c), ival(lo)))
            if hi >= 0:
                cs.append(tm.le(tm.sub(c, r), ival(hi)))
            return tm.ite(tm.tand(*cs), x.at(*i), zero(x.dtype))
        return Ten(x.shape, fn, x.dtype)

    def op_MatrixTriangularSolve(self, op, L, y):
        lower, adj = op.get_attr('lower'), op.get_attr('adjoint')
        batch = bshape(L.shape[:-2], y.shape[:-2])
        n = L.shape[-1]
        if not same(L.shape[-2], n) or not same(y.shape[-2], n):
            raise ShapeError('triangular solve')

        def fn(*i):
            b, r, c = list(i[:-2]), i[-2], i[-1]
            a1, a2, a3 = bvar('a', n), bvar('a', n), bvar('a', n)
            Lb = L.at(*(bidx(L.shape[:-2], b) + ([a1, a2] if not adj else [a2, a1])))
            yb = y.at(*(bidx(y.shape[:-2], b) + [a3, c]))
            return tm.app('trisolve_%s' % ('L' if lower != adj else 'U'), [n, r],
                          [tm.lam([a1, a2], Lb), tm.lam([a3], yb)])
        return Ten(batch + [n, y.shape[-1]], fn, y.dtype)

    # ------------------------------------------------------------ softmax family
    def op_Softmax(self, op, x):
        return elementwise(tm.exp, self.op_LogSoftmax(op, x))

    def op_LogSoftmax(self, op, x):
        lse = reduce(elementwise(tm.exp, x), [-1], True, 'sum')
        return elementwise(lambda a, b: tm.sub(a, tm.log(b)), x, lse)

    def op_SparseSoftmaxCrossEntropyWithLogits(self, op, logits, labels):
        # labels outside [0, K) are an error of the kernel; inside: -log_softmax[label]
        ls = self.op_LogSoftmax(op, logits)
        loss = Ten(logits.shape[:-1], lambda i: tm.neg(ls.at(i, labels.at(i))), logits.dtype)
        if not same(labels.shape[0], logits.shape[0]):
            raise ShapeError('sparse xent')
        bp = Ten(logits.shape, lambda i, k: tm.sub(
            tm.exp(ls.at(i, k)), tm.ite(tm.eq(labels.at(i), k), tm.const(1), tm.const(0))), logits.dtype)
        return [loss, bp]

    def op_SoftmaxCrossEntropyWithLogits(self, op, logits, labels):
        ls = self.op_LogSoftmax(op, logits)
        sh = bshape(logits.shape, labels.shape)
        prod = elementwise(lambda a, b: tm.neg(tm.mul(a, b)), ls, labels)
        loss = reduce(prod, [-1], False, 'sum')
        bp = elementwise(lambda a, b: tm.sub(tm.exp(a), b), ls, labels)
        return [loss, bp]

    def op_OneHot(self, op, ind, depth, on, off):
        ax = op.get_attr('axis')
        r = ind.rank + 1
        ax = ax % r
        d = simp(depth.at())
        sh = list(ind.shape)
        sh.insert(ax, d)

        def fn(*i):
            i = list(i)
            k = i.pop(ax)
            return tm.ite(tm.eq(tm.toI(ind.at(*i)), k), on.at(), off.at())
        return Ten(sh, fn, on.dtype)

    # ------------------------------------------------------------ randomness
    def _noise(self, op, kind, shape, dtype, params=None, sort='R'):
        name = 'noise:' + op.name
        t = Ten(shape, lambda *i: tm.rd(name, i, sort), dtype)
        self.noises.append(Noise(name, kind, t, op.outputs[0], params or {}))
        return t

    def op_RandomStandardNormal(self, op, s):
        return self._noise(op, 'normal', ints(s), dt(op.outputs[0].dtype))

    def op_RandomUniform(self, op, s):
        return self._noise(op, 'uniform', ints(s), dt(op.outputs[0].dtype))

    def op_TruncatedNormal(self, op, s):
        return self._noise(op, 'truncated_normal', ints(s), dt(op.outputs[0].dtype))

    def op_RandomUniformInt(self, op, s, lo, hi):
        return self._noise(op, 'uniform_int', ints(s), dt(op.outputs[0].dtype), dict(lo=lo, hi=hi), 'I')

    def op_Multinomial(self, op, logits, n):
        return self._noise(op, 'categorical', [logits.shape[0], simp(n.at())],
                           dt(op.outputs[0].dtype), dict(logits=logits), 'I')

    def op_RandomGamma(self, op, s, alpha):
        return self._noise(op, 'gamma', ints(s) + alpha.shape, dt(op.outputs[0].dtype),
                           dict(alpha=alpha, nlead=len(ints(s))))

    def op_RandomPoissonV2(self, op, s, rate):
        return self._noise(op, 'poisson', ints(s) + rate.shape, dt(op.outputs[0].dtype),
                           dict(rate=rate, nlead=len(ints(s))))

    # ------------------------------------------------------------ control flow
    def op_Switch(self, op):
        x = self.ten(op.inputs[0])
        p = self.ten(op.inputs[1])
        key = predkey(op.inputs[1])
        outs = []
        for b in (False, True):
            t = Ten(x.shape, x.at, x.dtype)
            t.guards = dict(x.guards)
            t.guards[key] = (p, b)
            outs.append(t)
        return outs

    op_RefSwitch = op_Switch

    def op_Merge(self, op):
        if self._is_loop_merge(op):
            raise Unsupported('loop value outside its loop contract')
        xs = [self.ten(t) for t in op.inputs]
        if len(xs) != 2:
            raise Unsupported('merge arity')
        a, b = xs
        keys = [k for k in a.guards if k in b.guards and a.guards[k][1] != b.guards[k][1]]
        if not keys:
            raise Unsupported('merge without opposite guards')
        key = keys[0]
        pred = a.guards[key][0]
        at, bf = (a, b) if a.guards[key][1] else (b, a)
        g = {k: v for k, v in a.guards.items() if k in b.guards and b.guards[k][1] == v[1]}
        if at.rank != bf.rank:
            raise Unsupported('branches of different rank')
        sh = []
        for s, t in zip(at.shape, bf.shape):
            sh.append(s if same(s, t) else simp(tm.ite(pred.at(), s, t)))
        out = Ten(sh, lambda *i: tm.ite(pred.at(), at.at(*i), bf.at(*i)), at.dtype)
        out.guards = g
        return [out, scalar(ival(0), 'int32')]

    op_RefMerge = op_Merge

    def op_Enter(self, op, x):
        return self._id(op, x)

    op_RefEnter = op_Enter

    def op_Exit(self, op):
        L = loop_of(op)
        if L.name not in self.loops:
            self.loops[L.name] = self.run_loop(L)
        return [self.loops[L.name][L.exits.index(op)]]

    def child(self, L, vals):
        """An evaluator of one iteration whose loop variables hold `vals`."""
        ch = LoopBody(self, L)
        for k, v in enumerate(vals):
            ch.inputs[L.merges[k].outputs[0].name] = v
            ch.inputs[L.switches[k].outputs[1].name] = v
        return ch

    def loop_init(self, L):
        return [self.ten(e.inputs[0]) for e in L.enters]

    def run_loop(self, L):
        """Final values of the loop variables: the loop contract of the case if it
        has one, else unrolling while the condition is decided."""
        init = self.loop_init(L)
        if self.loop_rule is not None:
            r = self.loop_rule(self, L, init)
            if r is not None:
                g = {}
                for x in init:
                    g.update(x.guards)
                out = []
                for x in r:
                    if x is not None:
                        x = Ten(x.shape, x.at, x.dtype)
                        x.guards = dict(g)
                    out.append(x)
                return out
        vals = init
        for _ in range(65):
            ch = self.child(L, vals)
            cnd = simp(ch.ten(L.cond.inputs[0]).at())
            if tm.isc(cnd):
                if not tm.cval(cnd):
                    return vals
            else:
                raise Unsupported('loop condition is not decided: %s' % tm.show(cnd)[:120])
            vals = [ch.ten(n.inputs[0]) for n in L.nexts]
        raise Unsupported('loop does not end')


def predkey(t):
    """name of the predicate behind its identities"""
    while t.op.type == 'Identity' and not t.op.inputs[0].dtype._is_ref_dtype:
        t = t.op.inputs[0]
    return t.name


def clampidx(i, N):
    i = simp(i)
    if isc(i):
        if cval(i) < 0:
            r = simp(tm.add(N, i))
            if isc(r) and cval(r) < 0:
                return ival(0)
            return r
        if isc(N) and cval(i) > cval(N):
            return N
        if not isc(N) and cval(i) > 1:
            raise Unsupported('slice bound against symbolic size')
        return i
    if same(i, N):
        return N
    return i


def simp_idx(t):
    return simp(t) if not t.free else t


def zero(d):
    return {'R': tm.const(0), 'I': ival(0), 'B': tm.FALSE}[sort_of(d)]


def one(d):
    return {'R': tm.const(1), 'I': ival(1), 'B': tm.TRUE}[sort_of(d)]


def const_ten(v, dtype):
    v = np.asarray(v)
    s = sort_of(dtype)

    def conv(e):
        if s == 'R':
            return recognise(e, dtype)
        if s == 'I':
            if isinstance(e, (bytes, str)):
                return ival(0)
            return ival(int(e))
        return tm.TRUE if e else tm.FALSE
    sh = [ival(n) for n in v.shape]
    if v.dtype.kind in 'SUO':
        return Ten(sh, lambda *i: ival(0), dtype)
    flat = v.reshape(-1)
    if flat.size and np.all(flat == flat[0]):
        c = conv(flat[0])
        return Ten(sh, lambda *i: c, dtype)

    def fn(*i):
        j = [simp_idx(k) for k in i]
        if all(isc(k) for k in j):
            return conv(v[tuple(int(cval(k)) for k in j)])
        # symbolic index into a literal
        def rec(pre, rest, arr):
            if not rest:
                return conv(arr)
            return tn.select([rec(pre, rest[1:], arr[q]) for q in range(arr.shape[0])], rest[0])
        if v.size > 64:
            raise Unsupported('symbolic index into a large literal')
        return rec([], j, v)
    return Ten(sh, fn, dtype)


def matmul(x, y, ta, tb):
    bx, by = x.shape[:-2], y.shape[:-2]
    batch = bshape(bx, by)
    m, k = (x.shape[-1], x.shape[-2]) if ta else (x.shape[-2], x.shape[-1])
    k2, n = (y.shape[-1], y.shape[-2]) if tb else (y.shape[-2], y.shape[-1])
    if not same(k, k2):
        raise ShapeError('matmul inner dimensions %s %s' % (k, k2))

    def fn(*i):
        b, r, c = list(i[:-2]), i[-2], i[-1]

        def body(q):
            xe = x.at(*(bidx(bx, b) + ([q, r] if ta else [r, q])))
            ye = y.at(*(bidx(by, b) + ([c, q] if tb else [q, c])))
            return tm.mul(xe, ye)
        return tm.big('sum', k, body)
    return Ten(batch + [m, n], fn, x.dtype)


class Loop(object):
    """A v1 while loop: enter/merge/switch/next/exit of every loop variable."""

    def __init__(self, ctx, graph):
        self.ctx, self.name = ctx, ctx.name
        self.merges, self.enters, self.switches, self.nexts, self.exits = [], [], [], [], []
        ops = [o for o in graph.get_operations()]
        cons = {}
        for o in ops:
            for t in o.inputs:
                cons.setdefault(t, []).append(o)
        self.cond = None
        for o in ops:
            if o.type == 'Merge' and len(o.inputs) == 2 and o.inputs[1].op.type == 'NextIteration' and \
                    o._get_control_flow_context() is ctx:
                sw = [x for x in cons.get(o.outputs[0], []) if x.type in ('Switch', 'RefSwitch') and
                      x.inputs[1].op.type == 'LoopCond']
                ex = [x for x in cons.get(sw[0].outputs[0], []) if x.type in ('Exit', 'RefExit')]
                self.merges.append(o)
                self.enters.append(o.inputs[0].op)
                self.nexts.append(o.inputs[1].op)
                self.switches.append(sw[0])
                self.exits.append(ex[0] if ex else None)
                self.cond = sw[0].inputs[1].op


def loop_of(exit_op):
    sw = exit_op.inputs[0].op
    m = sw.inputs[0].op
    return Loop(m._get_control_flow_context(), exit_op.graph)


def in_loop(op, ctx):
    c = op._get_control_flow_context()
    while c is not None:
        if c is ctx:
            return True
        c = c.outer_context
    return False


class LoopBody(GraphEval):
    """Evaluates the operations of one iteration; everything outside the loop is
    delegated to the evaluator of the surrounding graph."""

    def __init__(self, parent, L):
        GraphEval.__init__(self, dict(parent.inputs), parent.state, parent.abstract)
        self.parent, self.L = parent, L
        self.asserts = parent.asserts
        self.loop_rule = parent.loop_rule
        for k in parent.ops_override:
            setattr(self, k, parent.ops_override[k])

    def ten(self, tensor):
        if tensor.name not in self.inputs and not in_loop(tensor.op, self.L.ctx):
            return self.parent.ten(tensor)
        return GraphEval.ten(self, tensor)

    def _needs(self, o):
        return [t.op for t in o.inputs if t.name not in self.inputs and in_loop(t.op, self.L.ctx)]

    def _guards(self, op, tens):
        g = {}
        for x in tens:
            g.update(x.guards)
        for c in op.control_inputs:
            if c.type == 'Identity' and c.inputs[0].op.type == 'Switch' and in_loop(c, self.L.ctx) and \
                    c.inputs[0].op.inputs[1].op.type != 'LoopCond':
                for x in self._eval_op(c):
                    g.update(x.guards)
        return g

"""Symbolic tensors: a shape (list of integer terms) and an element function."""
from __future__ import annotations
import numpy as np
from fractions import Fraction
from . import terms as tm
from .terms import T, ival, isc, cval
from .norm import Norm, Facts, Poly


class Unsupported(Exception):
    """The construct is outside the modelled subset (tool limit, not a verdict)."""


class ShapeError(Exception):
    """The operation is ill-shaped for this configuration (the runtime would fail)."""


_IN = Norm(Facts())
_simp_memo = {}


def _poly_to_term(p):
    ts = []
    for m, c in p.items:
        fs = []
        for a, e in m:
            at = _IN.atoms[a]
            if e.denominator != 1 or e < 0:
                return None
            if at.kind == 'dim':
                b = tm.dim(at.data[0])
            elif at.kind == 'rd' and not at.data[1]:
                b = tm.rd(at.data[0], (), 'I')
            else:
                return None
            fs += [b] * int(e)
        if c.denominator != 1:
            return None
        ts.append(tm.mul(ival(c), *fs))
    return tm.add(*ts) if ts else ival(0)


def simp(t):
    """Canonical representative of an integer (shape) term."""
    if t.op in ('c', 'dim'):
        return t
    r = _simp_memo.get(t.id)
    if r is None:
        try:
            r = _poly_to_term(_IN.nf(t))
        except Exception:
            r = None
        if r is None:
            r = t
        elif r.sort != 'I' and isc(r):
            r = ival(cval(r))
        _simp_memo[t.id] = r
    return r


def same(a, b):
    if a is b:
        return True
    try:
        return _IN.nf(a) is _IN.nf(b)
    except Exception:
        return False


def ci(t):
    """concrete int of a term."""
    t = simp(t)
    if not isc(t):
        raise Unsupported('needs a concrete integer: %s' % t)
    return int(cval(t))


def exact_div(a, b):
    """a / b for shape terms, exact."""
    pa, pb = _IN.nf(a), _IN.nf(b)
    if not pa.items:
        return ival(0)
    if len(pb.items) != 1:
        if pa is pb:
            return ival(1)
        raise Unsupported('division of sizes %s / %s' % (a, b))
    r = _IN.pmul(pa, _IN.power(pb, -1))
    t = _poly_to_term(r)
    if t is None:
        raise Unsupported('sizes do not divide: %s / %s' % (a, b))
    return t


class Ten(object):
    __slots__ = ('shape', '_fn', 'dtype', 'memo', 'guards', 'elems')

    def __init__(self, shape, fn, dtype, guards=None):
        self.shape = [simp(s) for s in shape]
        self._fn = fn
        self.dtype = dtype
        self.memo = {}
        self.guards = guards or {}

    @property
    def rank(self):
        return len(self.shape)

    def at(self, *idx):
        if len(idx) != len(self.shape):
            raise AssertionError('rank mismatch %d vs %d' % (len(idx), len(self.shape)))
        key = tuple(i.id for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = self._fn(*idx)
            self.memo[key] = r
        return r

    @property
    def sort(self):
        return sort_of(self.dtype)

    def __repr__(self):
        return 'Ten(%s,%s)' % (self.shape, self.dtype)


def sort_of(dtype):
    if dtype.startswith(('float', 'double', 'bfloat', 'half')):
        return 'R'
    if dtype == 'bool':
        return 'B'
    return 'I'


def scalar(t, dtype):
    return Ten([], lambda: t, dtype)


def vector(ts, dtype='int32'):
    ts = list(ts)

    def fn(i):
        return select(ts, i)
    return Ten([ival(len(ts))], fn, dtype)


def select(ts, i):
    """ts[i] for a concrete list and an index term."""
    j = simp(i)
    if isc(j):
        return ts[int(cval(j))]
    if all(t is ts[0] for t in ts):
        return ts[0]
    if len(ts) > 64:
        raise Unsupported('symbolic index into a long list')
    r = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        r = tm.ite(tm.eq(i, ival(k)), ts[k], r)
    return r


def elements(x):
    """All elements of a concretely shaped tensor, row-major."""
    dims = [ci(s) for s in x.shape]
    n = 1
    for d in dims:
        n *= d
    if n > 4096:
        raise Unsupported('too many elements')
    return [x.at(*[ival(i) for i in ix]) for ix in np.ndindex(*dims)]


def ints(x):
    """list of integer terms of a rank-1 (or 0) tensor."""
    if x.rank == 0:
        return [simp(x.at())]
    return [simp(e) for e in elements(x)]


class DefiniteShape(ShapeError):
    """The sizes are incompatible whatever the symbolic dimensions are."""


# fn(a, b): raises DefiniteShape if the two sizes differ and neither is 1, provably; otherwise the size of
# the result if the operation does not fail
DISTINCT = [None]


def bdim(a, b):
    a, b = simp(a), simp(b)
    if isc(a, 1):
        return b
    if isc(b, 1):
        return a
    if same(a, b):
        return a
    if isc(a) and isc(b):
        raise DefiniteShape('cannot broadcast %s with %s' % (a, b))
    if DISTINCT[0] is not None:
        return DISTINCT[0](a, b)
    raise ShapeError('cannot broadcast symbolic %s with %s' % (a, b))


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    s1 = [ival(1)] * (n - len(s1)) + list(s1)
    s2 = [ival(1)] * (n - len(s2)) + list(s2)
    return [bdim(a, b) for a, b in zip(s1, s2)]


def bidx(shape, idx):
    """index of a tensor of `shape` for the index `idx` of the broadcast result."""
    idx = idx[len(idx) - len(shape):]
    return [ival(0) if isc(s, 1) else i for s, i in zip(shape, idx)]


def elementwise(f, *xs, dtype=None):
    sh = list(xs[0].shape)
    for x in xs[1:]:
        sh = bshape(sh, x.shape)
    xs_ = xs

    def fn(*idx):
        return f(*[x.at(*bidx(x.shape, idx)) for x in xs_])
    return Ten(sh, fn, dtype or xs[0].dtype)


def broadcast_to(x, shape):
    out = bshape(x.shape, shape)
    return Ten(list(shape), lambda *idx: x.at(*bidx(x.shape, idx)), x.dtype)


def size_of(shape):
    return simp(tm.mul(ival(1), *shape))


def reshape(x, new):
    new = [simp(n) for n in new]
    total = size_of(x.shape)
    neg = [i for i, n in enumerate(new) if isc(n, -1)]
    if len(neg) > 1:
        raise ShapeError('several -1')
    if neg:
        known = size_of([n for i, n in enumerate(new) if i not in neg])
        if isc(known) and isc(total) and cval(known) != 0 and cval(total) % cval(known):
            raise ShapeError('reshape sizes')
        new[neg[0]] = exact_div(total, known)
    if not same(total, size_of(new)):
        raise ShapeError('reshape %s to %s' % (x.shape, new))
    old = list(x.shape)
    # greedy grouping
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        gi, gj = [], []
        if i < len(old):
            gi.append(i)
            i += 1
        if j < len(new):
            gj.append(j)
            j += 1
        while True:
            po, pn = size_of([old[k] for k in gi]), size_of([new[k] for k in gj])
            if same(po, pn) and not (
                    (i < len(old) and j >= len(new)) or (j < len(new) and i >= len(old))):
                break
            if same(po, pn):
                gi += list(range(i, len(old)))
                gj += list(range(j, len(new)))
                i, j = len(old), len(new)
                break
            # extend the side that looks smaller
            if i < len(old) and (isc(old[i], 1)):
                gi.append(i); i += 1
            elif j < len(new) and isc(new[j], 1):
                gj.append(j); j += 1
            elif _smaller(po, pn) and i < len(old):
                gi.append(i); i += 1
            elif j < len(new):
                gj.append(j); j += 1
            elif i < len(old):
                gi.append(i); i += 1
            else:
                break
        groups.append((gi, gj))

    def fn(*idx):
        out = [None] * len(old)
        for gi, gj in groups:
            oi = [k for k in gi if not isc(old[k], 1)]
            nj = [k for k in gj if not isc(new[k], 1)]
            for k in gi:
                if isc(old[k], 1):
                    out[k] = ival(0)
            if len(oi) == len(nj) and all(same(old[a], new[b]) for a, b in zip(oi, nj)):
                for a, b in zip(oi, nj):
                    out[a] = idx[b]
                continue
            flat = ival(0)
            for k in nj:
                flat = tm.add(tm.mul(flat, new[k]), idx[k])
            rem = flat
            for pos, k in enumerate(oi):
                stride = size_of([old[q] for q in oi[pos + 1:]])
                v = tm.idiv(flat, stride)
                out[k] = v if pos == 0 else tm.imod(v, old[k])
        return x.at(*out)
    return Ten(new, fn, x.dtype)


def _smaller(a, b):
    """heuristic: does product a divide b properly?"""
    try:
        exact_div(b, a)
        return True
    except Unsupported:
        return False


def norm_axes(axes, rank):
    out = []
    for a in axes:
        a = int(a)
        if a < -rank or a >= rank:
            raise ShapeError('axis %d out of range for rank %d' % (a, rank))
        a %= rank
        if a in out:
            raise ShapeError('duplicate reduction axis')
        out.append(a)
    return sorted(out)


def reduce(x, axes, keep, kind, dtype=None):
    axes = norm_axes(axes, x.rank)
    sh = []
    for i, s in enumerate(x.shape):
        if i in axes:
            if keep:
                sh.append(ival(1))
        else:
            sh.append(s)

    def fn(*idx):
        idx = list(idx)
        full = [None] * x.rank
        k = 0
        for i in range(x.rank):
            if i in axes:
                if keep:
                    k += 1
            else:
                full[i] = idx[k]
                k += 1

        def rec(rest):
            if not rest:
                return x.at(*full)
            a = rest[0]

            def body(v):
                full[a] = v
                r = rec(rest[1:])
                return r
            op = 'sum' if kind == 'mean' else kind
            return tm.big(op, x.shape[a], body)
        r = rec(axes)
        if kind == 'mean':
            n = size_of([x.shape[a] for a in axes])
            r = tm.div(r, tm.toR(n))
        return r
    return Ten(sh, fn, dtype or x.dtype)

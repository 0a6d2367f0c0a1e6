"""Class-invariant verification of stateful Python objects.

The reachable states of the real object are explored as a transition system:
a state is the canonical form of the object's whole concrete attribute graph
(paired with the specification's own state), tensors being replaced by the
symbolic value they denote.  When no transition leaves the set of canonical
states already found, the set is an inductive invariant: every history of any
length over the alphabet stays in it, and the contract of every operation was
checked from every member.  If the exploration does not close within the
limits the result is labelled bounded."""
from __future__ import annotations
import types
from collections import deque
from .env import tf
from .case import Obl


class Canon(object):
    """Canonical form of a Python object graph."""

    def __init__(self, atom, skip=()):
        self.atom = atom        # obj -> hashable or None (symbolic value of leaves)
        self.skip = set(skip)

    def of(self, obj):
        self.num = {}
        self.keep = []
        return self._c(obj, 0)

    def _c(self, o, d):
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            return (type(o).__name__, o)
        a = self.atom(o)
        if a is not None:
            return a
        if isinstance(o, type) or isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType,
                                                  types.ModuleType)):
            return ('code', getattr(o, '__qualname__', repr(type(o))))
        if id(o) in self.num:
            return ('ref', self.num[id(o)])
        self.num[id(o)] = len(self.num)
        self.keep.append(o)
        if d > 12:
            return ('deep', type(o).__name__)
        if isinstance(o, dict):
            return ('dict', type(o).__name__, tuple((self._c(k, d + 1), self._c(v, d + 1)) for k, v in o.items()))
        if isinstance(o, (list, tuple)) or type(o).__name__ == 'deque':
            return (type(o).__name__, tuple(self._c(v, d + 1) for v in o))
        if isinstance(o, (set, frozenset)):
            return ('set', tuple(sorted(repr(self._c(v, d + 1)) for v in o)))
        dd = getattr(o, '__dict__', None)
        if dd is None:
            return ('obj', type(o).__name__)
        return ('obj', type(o).__name__, tuple((k, self._c(v, d + 1)) for k, v in sorted(dd.items())
                                               if k not in self.skip))


def explore(label, mk, ops, step, canon, max_states=4000, max_depth=None):
    """mk() -> world; ops(world) -> list of op labels enabled; step(world, op) -> list of
    problem strings (empty when the op's contract holds); canon(world) -> hashable.
    Returns list of Obl, one per operation label."""
    res = {}
    seen = {}
    w = mk()
    seen[canon(w)] = ()
    q = deque([()])
    closed = True
    depth = 0
    n_tr = 0
    close(w)
    bad = {}
    while q:
        h = q.popleft()
        if max_depth is not None and len(h) >= max_depth:
            closed = False
            continue
        w = replay(mk, step, h)
        todo = ops(w)
        close(w)
        for op in todo:
            w = replay(mk, step, h)
            p = step(w, op)
            n_tr += 1
            r = res.setdefault(opname(op), dict(n=0, bad=None))
            r['n'] += 1
            if p:
                if r['bad'] is None:
                    r['bad'] = (h + (op,), p)
                close(w)
                continue
            c = canon(w)
            close(w)
            if c not in seen:
                if len(seen) >= max_states:
                    closed = False
                    continue
                seen[c] = h + (op,)
                depth = max(depth, len(h) + 1)
                q.append(h + (op,))
    out = []
    for k in sorted(res):
        r = res[k]
        o = Obl('%s :: contract of %s from every reachable state' % (label, k))
        o.kind = 'induction step'
        o.regions = r['n']
        o.backend = 'exhaustive over the closed quotient of reachable states (%d states, %d transitions, depth %d)' % (
            len(seen), n_tr, depth)
        if r['bad']:
            hist, p = r['bad']
            o.status, o.detail = 'refuted', '; '.join(p)[:600]
            o.cex = dict(kind='history', configuration=label, history=[str(x) for x in hist], problems=p[:6])
        elif closed:
            o.status = 'proved'
        else:
            o.status, o.numeric = 'bounded', r['n']
            o.detail = 'state space not closed within %d states / depth %s' % (len(seen), max_depth)
        out.append(o)
    o = Obl('%s :: reachable states closed under all operations' % label)
    o.kind = 'induction step'
    o.regions = n_tr
    o.status = 'proved' if closed else 'bounded'
    o.numeric = 0 if closed else n_tr
    o.backend = '%d states, %d transitions, depth %d' % (len(seen), n_tr, depth)
    out.append(o)
    return out


def opname(op):
    return op if isinstance(op, str) else op[0]


def replay(mk, step, h):
    w = mk()
    for op in h:
        p = step(w, op)
        if p:
            raise AssertionError('replay is not deterministic: %s' % (p,))
    return w


def close(w):
    f = getattr(w, 'close', None)
    if f:
        f()

"""Gradient contracts.  `Split` evaluates a graph over two copies of every
input: a live copy and a frozen one.  A value reached through StopGradient, or
through an operator whose output carries no gradient (integer and boolean
values, comparisons, rounding), reads the frozen copy.  tf.gradients of a
tensor is then the derivative of its split value with respect to the live copy,
taken at live = frozen (the assumed contract of TensorFlow's autodiff; the
runtime replays compare it with finite differences)."""
from __future__ import annotations
from . import terms as tm
from .tensor import Ten, Unsupported, sort_of
from .graph import GraphEval
from .step import StepEval

ROUND = {'Sign', 'Floor', 'Ceil', 'Round', 'Rint', 'OnesLike', 'ZerosLike', 'RandomPoissonV2', 'PreventGradient'}
FZ = '~'


def fz(name):
    return name + FZ


class Split(GraphEval):
    def __init__(self, live, frozen, state=None, abstract=None):
        super(Split, self).__init__(live, state, abstract)
        self.frozen = GraphEval(frozen, state, abstract)
        self.livegamma = {}

    def _eval1(self, op):
        outs = op.outputs
        through = op.type == 'StopGradient' or op.type in ROUND or (
            outs and op.name not in self.abstract and op.type not in ('Switch', 'Merge', 'RefSwitch', 'RefMerge') and
            all(sort_of(o.dtype.base_dtype.name) != 'R' for o in outs))
        if '_gradient_op_type' in op.node_def.attr and op.type not in ('Const',):
            t = op.get_attr('_gradient_op_type')
            raise Unsupported('custom gradient %s' % t)
        if through:
            r = [self.frozen.ten(o) for o in outs]
            self.gmemo[op.name] = r
            for i, o in enumerate(r):
                self.memo[outs[i].name] = o
            return r
        return super(Split, self)._eval1(op)

    def op_RandomGamma(self, op, s, alpha):
        # a gradient-carrying draw: readable only under its own name
        r = super(Split, self).op_RandomGamma(op, s, alpha)
        name = 'noise:%s!live' % op.name
        self.livegamma[name] = alpha
        return Ten(r.shape, lambda *i: tm.rd(name, i, 'R'), r.dtype)


class SplitStep(Split, StepEval):
    """Split values of one step of a stateful graph; variables have one copy."""

    def __init__(self, hb, live, frozen, state=None, abstract=None):
        StepEval.__init__(self, hb, live, state, abstract)
        self.frozen = StepEval(hb, frozen, state, abstract)
        self.livegamma = {}


def freeze_conds(t, names, memo=None):
    """Reads inside conditions (and other gradient-free positions) use the frozen copy."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        r = tm.ite(rename(t.args[0], names), freeze_conds(t.args[1], names, memo),
                   freeze_conds(t.args[2], names, memo))
    elif t.op in ('sign', 'floor', 'toI') or (t.op == 'toR' and t.args[0].op != 'rd'):
        r = rename(t, names)
    elif any(isinstance(x, tm.T) for x in t.args) and t.op not in ('rd',):
        new = []
        ch = False
        for x in t.args:
            if isinstance(x, tm.T):
                y = freeze_conds(x, names, memo)
                ch = ch or y is not x
                new.append(y)
            else:
                new.append(x)
        r = tm.mk(t.op, tuple(new), t.sort) if ch else t
    else:
        r = t
    memo[t] = r
    return r


def rename(t, names, memo=None):
    """reads of `names` -> reads of their frozen copies"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'rd':
        ix = [rename(i, names, memo) for i in t.args[1:]]
        n = t.args[0]
        r = tm.rd(fz(n) if n in names else n, ix, t.sort)
    else:
        new, ch = [], False
        for x in t.args:
            if isinstance(x, tm.T):
                y = rename(x, names, memo)
            elif isinstance(x, tuple):
                y = tuple(rename(z, names, memo) if isinstance(z, tm.T) else z for z in x)
            else:
                y = x
            ch = ch or y is not x
            new.append(y)
        r = tm.mk(t.op, tuple(new), t.sort) if ch else t
    memo[t] = r
    return r


def reads_of(t, names):
    return {x.args[0] for x in tm.subterms(t, lambda s: s.op == 'rd') if x.args[0] in names}

"""One step of a stateful graph (C11-C15): happens-before analysis of all
schedules, and the value every variable and fetch has after the step.

Model of the runtime: an op runs after its data and control inputs; a ref
variable is one mutable buffer; ops that only forward a tensor (ALIAS) share
the buffer, so a later consumer may observe either the value at the time of the
forwarding op or the value at its own time.  A step is schedule-independent iff
every access of a buffer is ordered with every write of it."""
from __future__ import annotations
import itertools
from . import terms as tm
from .tensor import Ten, Unsupported, elementwise, same
from .graph import GraphEval, loop_of, in_loop, predkey

ALIAS = {'Identity', 'StopGradient', 'PreventGradient', 'Snapshot', 'Reshape', 'ExpandDims', 'Squeeze', 'Switch',
         'Merge', 'Enter', 'Exit', 'NextIteration', 'RefSwitch', 'RefMerge', 'RefEnter', 'RefExit',
         'RefNextIteration', 'RefIdentity', 'IdentityN', 'CheckNumerics', 'EnsureShape', 'LoopCond', 'Bitcast',
         'PlaceholderWithDefault'}
WRITE = {'Assign', 'AssignAdd', 'AssignSub', 'ScatterUpdate', 'ScatterAdd', 'ScatterSub', 'CountUpTo'}
SHAPEONLY = {'Shape', 'ShapeN', 'Rank', 'Size', 'ZerosLike', 'OnesLike', 'IsVariableInitialized', 'NoOp',
             'BroadcastGradientArgs'}
RESOURCE = {'VarHandleOp', 'ReadVariableOp', 'AssignVariableOp', 'AssignAddVariableOp', 'AssignSubVariableOp'}


def isref(t):
    return t.dtype._is_ref_dtype


class HB(object):
    """Happens-before of the ops needed by `fetches`."""

    def __init__(self, fetches):
        self.fetches = list(fetches)
        roots = [f.op if hasattr(f, 'value_index') else f for f in self.fetches]
        ops, st = set(), list(roots)
        while st:
            o = st.pop()
            if o in ops:
                continue
            ops.add(o)
            st.extend(t.op for t in o.inputs)
            st.extend(o.control_inputs)
        self.ops = ops
        self.extra = {}
        for o in list(ops):
            if o.type in ('Exit', 'RefExit'):
                L = loop_of(o)
                k = L.exits.index(o)
                pre = {L.nexts[k]}
                cond_anc = self._raw_anc(L.cond)
                for m, n in zip(L.merges, L.nexts):
                    if m in cond_anc:
                        pre.add(n)
                self.extra[o] = pre
        self.order = self._topo()
        self.idx = {o: i for i, o in enumerate(self.order)}
        # one boolean per distinct predicate; predicates inside a loop stand for the
        # iteration in which the examined access happens
        self.canon = {}
        self._key = {}
        preds = []
        for o in self.order:
            if o.type in ('Switch', 'RefSwitch') and o.inputs[1].op.type != 'LoopCond':
                k = self._pkey(o.inputs[1])
                self.canon[o.inputs[1]] = k
                if k not in preds:
                    preds.append(k)
        self.preds = preds
        if len(preds) > 10:
            raise Unsupported('too many conditionals')
        self.worlds = []
        for vals in itertools.product((False, True), repeat=len(preds)):
            self.worlds.append(self._world(dict(zip(preds, vals))))

    def _pkey(self, t):
        """Structural key: equal keys have equal values in one step."""
        r = self._key.get(t)
        if r is None:
            o = t.op
            if o.type in ('Identity', 'Switch') and not isref(o.inputs[0]):
                r = self._pkey(o.inputs[0])
            elif o.type == 'Const':
                r = ('const', o.node_def.attr['value'].SerializeToString())
            elif o.type in ('Equal', 'NotEqual', 'Less', 'LessEqual', 'Greater', 'GreaterEqual', 'LogicalAnd', 'LogicalOr',
                            'LogicalNot', 'FloorMod', 'Mod', 'Cast', 'AddV2', 'Sub', 'Mul'):
                r = (o.type, str(t.dtype)) + tuple(self._pkey(i) for i in o.inputs)
            elif o.type == 'Identity':
                # reads of one variable agree only if no write separates them (checked by races())
                r = ('read', self.root(o.inputs[0]).name)
            else:
                r = ('tensor', t.name)
            self._key[t] = r
        return r

    def _raw_anc(self, op):
        s, st = set(), [op]
        while st:
            o = st.pop()
            if o in s:
                continue
            s.add(o)
            if o.type == 'Merge' and any(t.op.type == 'NextIteration' for t in o.inputs):
                continue
            st.extend(t.op for t in o.inputs)
            st.extend(o.control_inputs)
        return s

    def _preds(self, o):
        if o.type in ('Merge', 'RefMerge') and any(t.op.type in ('NextIteration', 'RefNextIteration') for t in o.inputs):
            return [o.inputs[0].op]
        r = [t.op for t in o.inputs] + list(o.control_inputs)
        r += list(self.extra.get(o, ()))
        return r

    def _topo(self):
        out, state = [], {}
        for r in sorted(self.ops, key=lambda o: o._id if hasattr(o, '_id') else o.name):
            st = [(r, 0)]
            while st:
                o, ph = st.pop()
                if ph == 1:
                    if state.get(o) != 2:
                        state[o] = 2
                        out.append(o)
                    continue
                if state.get(o):
                    continue
                state[o] = 1
                st.append((o, 1))
                for p in self._preds(o):
                    if p in self.ops and not state.get(p):
                        st.append((p, 0))
        return out

    def _world(self, val):
        """(valuation, ancestor bitsets, dead set) when the conditionals evaluate as `val`."""
        anc, dead = {}, set()

        def tdead(t):
            o = t.op
            if o in dead:
                return True
            if o.type in ('Switch', 'RefSwitch') and o.inputs[1] in self.canon:
                return t.value_index != (1 if val[self.canon[o.inputs[1]]] else 0)
            return False
        for o in self.order:
            if o.type in ('Merge', 'RefMerge'):
                back = any(t.op.type in ('NextIteration', 'RefNextIteration') for t in o.inputs)
                ins = [o.inputs[0]] if back else list(o.inputs)
                alive = [t for t in ins if not tdead(t)]
                if not alive or any(c in dead for c in o.control_inputs):
                    dead.add(o)
                # several possibly-live inputs: the merge may fire after any one of them
                sets = [anc[t.op] | (1 << self.idx[t.op]) for t in alive]
                a = sets[0] if sets else 0
                for s in sets[1:]:
                    a &= s
                for c in o.control_inputs:
                    a |= anc[c] | (1 << self.idx[c])
                anc[o] = a
                continue
            a = 0
            for p in self._preds(o):
                if p in anc:
                    a |= anc[p] | (1 << self.idx[p])
            if any(tdead(t) for t in o.inputs) or any(c in dead for c in o.control_inputs):
                dead.add(o)
            anc[o] = a
        return val, anc, dead

    def before(self, a, b, w):
        return bool(w[1][b] >> self.idx[a] & 1)

    # ------------------------------------------------------------ variables
    def root(self, t):
        """variable op behind a ref tensor"""
        o = t.op
        if o.type in ('VariableV2', 'Variable'):
            return o
        if o.type in WRITE or o.type in ALIAS:
            return self.root(o.inputs[0])
        raise Unsupported('ref through %s' % o.type)

    def variables(self):
        return [o for o in self.order if o.type in ('VariableV2', 'Variable')]

    def writes(self, v):
        return [o for o in self.order if o.type in WRITE and self.root(o.inputs[0]) is v]

    def accesses(self, v):
        """(first op of the alias chain, dereferencing op or None for a fetch)"""
        cons = {}
        for o in self.order:
            for t in o.inputs:
                cons.setdefault(t, []).append(o)
        fet = {f for f in self.fetches if hasattr(f, 'value_index')}
        res, seen = set(), set()
        refs = [t for o in self.order for t in o.outputs if isref(t) and self.root(t) is v]
        work = []
        for t in refs:
            if t in fet:
                res.add((t.op, None))
            for o in cons.get(t, []):
                if o.type in WRITE and o.inputs[0] is t:
                    if o.type != 'Assign':
                        res.add((o, o))
                    if not (len(o.inputs) > 1 and o.inputs[1] is t):
                        continue
                if o.type in ('RefSwitch', 'RefMerge', 'RefEnter', 'RefIdentity', 'RefExit', 'RefNextIteration') and isref(o.outputs[0]):
                    continue
                work.append((o, o, t))
        while work:
            first, o, t = work.pop()
            if (first, o, t) in seen:
                continue
            seen.add((first, o, t))
            if o.type in SHAPEONLY:
                continue
            if o.type in ALIAS:
                # control operand of a switch is dereferenced
                if o.type in ('Switch', 'RefSwitch') and len(o.inputs) > 1 and o.inputs[1] is t:
                    res.add((first, o))
                    if o.inputs[0] is not t:
                        continue
                for out in o.outputs:
                    if out in fet:
                        res.add((first, None))
                    for x in cons.get(out, []):
                        work.append((first, x, out))
            else:
                res.add((first, o))
        return res

    def races(self):
        """Unordered access/write or write/write pairs, and the number of pairs examined."""
        bad, n = [], 0
        if any(o.type in RESOURCE for o in self.order):
            raise Unsupported('resource variables')
        for v in self.variables():
            ws = self.writes(v)
            if not ws:
                continue
            for a, b in itertools.combinations(ws, 2):
                n += 1
                for w in self.worlds:
                    if a in w[2] or b in w[2]:
                        continue
                    if not (self.before(a, b, w) or self.before(b, a, w)):
                        bad.append((v, a, b, w[0], 'write/write'))
                        break
            for first, d in sorted(self.accesses(v), key=lambda p: (p[0].name, p[1].name if p[1] else '')):
                for wr in ws:
                    if wr is d or wr is first:
                        continue
                    n += 1
                    for w in self.worlds:
                        if wr in w[2] or first in w[2] or (d is not None and d in w[2]):
                            continue
                        ok = self.before(wr, first, w) or (d is not None and self.before(d, wr, w))
                        if not ok:
                            bad.append((v, d if d is not None else first, wr, w[0],
                                        'read/write' if d is not None else 'fetch/write'))
                            break
        return bad, n


def describe(r):
    v, a, b, val, kind = r
    return '%s of %s: %s (%s) is not ordered with %s (%s)%s' % (
        kind, v.name, a.name, a.type, b.name, b.type,
        ' when ' + ', '.join('%s=%s' % (pshow(k), x) for k, x in val.items()) if val else '')


def pshow(k):
    if k[0] in ('tensor', 'read'):
        return k[1]
    if k[0] == 'const':
        return 'const'
    return '%s(%s)' % (k[0], ', '.join(pshow(x) for x in k[2:]))


class StepEval(GraphEval):
    """Values under the (unique, once races() is empty) version of every read."""

    def __init__(self, hb, inputs, state, abstract=None):
        GraphEval.__init__(self, inputs, state, abstract)
        self.hb = hb
        self.vmemo = {}

    def _seen_by(self, v, op):
        """writes of v that precede op (in some world where both run)"""
        out = []
        for w in self.hb.writes(v):
            if w is op:
                continue
            for wd in self.hb.worlds:
                if w in wd[2] or op in wd[2]:
                    continue
                if self.hb.before(w, op, wd):
                    out.append(w)
                    break
        return out

    def _inputs(self, op):
        xs = []
        for t in op.inputs:
            if isref(t) and t.name not in self.inputs and op.type not in ('RefSwitch', 'RefMerge', 'RefEnter'):
                xs.append(self._version(t, op))
            else:
                xs.append(self.ten(t))
        return xs

    def _needs(self, o):
        r = []
        for t in o.inputs:
            if t.name in self.inputs:
                continue
            if isref(t):
                v = self.hb.root(t)
                r += self._seen_by(v, o)
                c = t.op
                while c.type in ('RefSwitch', 'RefIdentity', 'RefEnter') or c.type in WRITE:
                    if c.type == 'RefSwitch':
                        r.append(c.inputs[1].op)
                    c = c.inputs[0].op
            else:
                r.append(t.op)
        return r

    def _refguards(self, t):
        g = {}
        c = t.op
        idx = t.value_index
        while True:
            if c.type == 'RefSwitch':
                p = self.ten(c.inputs[1])
                g[predkey(c.inputs[1])] = (p, bool(idx))
            if c.type in ('VariableV2', 'Variable'):
                return g
            idx = c.inputs[0].value_index
            c = c.inputs[0].op

    def _version(self, t, op):
        v = self.hb.root(t)
        val = self._fold(v, self._seen_by(v, op), set(self._my_guards(op)))
        out = Ten(val.shape, val.at, val.dtype)
        out.guards = self._refguards(t)
        return out

    def _my_guards(self, op):
        return ()

    def _fold(self, v, ws, known=()):
        if v.name not in self.state:
            raise Unsupported('unbound variable %s' % v.name)
        cur = self.state[v.name]
        for w in ws:
            new = self._eval_op(w)[0]
            gs = list(new.guards.values())
            if gs:
                cond = tm.tand(*[p.at() if b else tm.tnot(p.at()) for p, b in gs])
                cur = _ite(cond, new, cur)
            else:
                cur = Ten(new.shape, new.at, new.dtype)
        return cur

    def op_RefSwitch(self, op):
        raise Unsupported('value of a RefSwitch')

    def op_VariableV2(self, op):
        raise Unsupported('unversioned read of %s' % op.name)

    def final(self, v):
        """value of variable op v after the step"""
        return self._fold(v, self.hb.writes(v))

    def fetch(self, t):
        if isref(t):
            v = self.hb.root(t)
            return self._fold(v, self._seen_by(v, t.op) + ([t.op] if t.op.type in WRITE else []))
        return self.ten(t)


def _ite(cond, a, b):
    if a.rank != b.rank:
        raise Unsupported('conditional write of another rank')
    sh = [s if same(s, t) else tm.ite(cond, s, t) for s, t in zip(a.shape, b.shape)]
    return Ten(sh, lambda *i: tm.ite(cond, a.at(*i), b.at(*i)), a.dtype)

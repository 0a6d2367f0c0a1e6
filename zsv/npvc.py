"""Symbolic execution of the real source of numpy-style Python functions.

The function's source is taken from /repo on every run (inspect + ast) and
executed statement by statement over symbolic scalars (terms) and symbolic
arrays (Ten, sizes may be symbolic).  Conditionals fork the path.  A loop over
range(lo, hi) with symbolic bounds is cut by its inductive contract: the body
is executed once from an arbitrary iteration, the recurrences of the carried
variables are solved (accumulators v += d(t), last values v = g(t)), and the
solutions hold at every iteration by induction.  Nothing is dropped except
docstrings and output to the terminal; constructs outside the subset raise
Unsupported and the caller falls back to a bounded check."""
from __future__ import annotations
import ast
import builtins
import inspect
import textwrap
import types
import numpy as np
from . import terms as tm, tensor as tn
from .terms import T, ival, const
from .tensor import Ten, Unsupported
from .norm import bvar, VB


class Obj(object):
    """An opaque record with attributes."""

    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self._name = name

    def __repr__(self):
        return '<%s>' % self._name


class Func(object):
    def __init__(self, node, env, glob, name, bound=None):
        self.node, self.env, self.glob, self.name, self.bound = node, env, glob, name, bound


class State(object):
    def __init__(self, env, pc=(), ghost=None):
        self.env, self.pc, self.ghost = env, tuple(pc), dict(ghost or {})

    def copy(self):
        return State(dict(self.env), self.pc, self.ghost)

    def assume(self, t):
        s = self.copy()
        if not (isinstance(t, bool) and t):
            s.pc = s.pc + (t,)
        return s


class ForAll(object):
    """hypothesis: cond holds for every value of var in its range"""

    def __init__(self, var, cond):
        self.var, self.cond = var, cond

    def __repr__(self):
        return 'forall %s: %s' % (self.var, self.cond)


def source(fn):
    fn = getattr(fn, '__func__', fn)
    src = textwrap.dedent(inspect.getsource(fn))
    node = ast.parse(src).body[0]
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        if node.decorator_list:
            raise Unsupported('decorators')
        return node
    raise Unsupported('not a function definition')


def issym(x):
    return isinstance(x, (T, Ten))


def deep_sym(x):
    if issym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    return isinstance(x, (Obj, Func))


def lift(x):
    """number or term -> term"""
    if isinstance(x, T):
        return x
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, (int, np.integer)):
        return ival(int(x))
    if isinstance(x, (float, np.floating)):
        if x in (float('inf'), float('-inf')):
            return tm.mk('inf', (1 if x > 0 else -1,), 'R')
        from fractions import Fraction
        return const(Fraction(repr(float(x))))
    raise Unsupported('value %r' % (x,))


def real(t):
    t = lift(t)
    return tm.toR(t) if t.sort == 'I' else t


def binop(f, x, y, realres=False):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        raise Unsupported('concrete arrays')

    def g(a, b):
        if a.sort == 'I' and b.sort == 'I' and not realres:
            return f(a, b)
        return f(real(a), real(b))
    if isinstance(x, Ten) or isinstance(y, Ten):
        X = x if isinstance(x, Ten) else Ten([], lambda: lift(x), 'float64')
        Y = y if isinstance(y, Ten) else Ten([], lambda: lift(y), 'float64')
        return tn.elementwise(g, X, Y, dtype='float64')
    return g(lift(x), lift(y))


def un(f):
    def g(x):
        if isinstance(x, Ten):
            return tn.elementwise(lambda a: f(real(a)), x, dtype='float64')
        return f(real(x))
    return g


def tsub(a, b):
    return tm.add(a, tm.neg(b)) if a.sort == 'R' else tm.sub(a, b)


ARITH = {ast.Add: (tm.add, False), ast.Sub: (tm.sub, False), ast.Mult: (tm.mul, False), ast.Div: (tm.div, True)}
CMP = {ast.Lt: lambda a, b: tm.lt(a, b), ast.LtE: lambda a, b: tm.le(a, b), ast.Gt: lambda a, b: tm.lt(b, a),
       ast.GtE: lambda a, b: tm.le(b, a), ast.Eq: lambda a, b: tm.eq(a, b),
       ast.NotEq: lambda a, b: tm.tnot(tm.eq(a, b))}


def reduce_all(x, axis, keep, kind):
    if not isinstance(x, Ten):
        return x
    ax = list(range(x.rank)) if axis is None else list(axis) if isinstance(axis, (list, tuple)) else [axis]
    r = tn.reduce(x, ax, keep, kind)
    return r.at() if r.rank == 0 else r


def np_mean(x, axis=None, keepdims=False, **k):
    if k:
        raise Unsupported('np.mean options')
    return reduce_all(x, axis, keepdims, 'mean')


def np_sum(x, axis=None, keepdims=False, **k):
    if k:
        raise Unsupported('np.sum options')
    return reduce_all(x, axis, keepdims, 'sum')


def np_max(x, axis=None, keepdims=False, **k):
    if k:
        raise Unsupported('np.max options')
    return reduce_all(x, axis, keepdims, 'rmax')


def np_var(x, axis=None, ddof=0, keepdims=False):
    if not isinstance(x, Ten) or not isinstance(ddof, int):
        raise Unsupported('np.var')
    m = np_mean(x, axis, True)
    d = binop(tm.sub, x, m)
    s = np_sum(binop(tm.mul, d, d), axis, keepdims)
    ax = list(range(x.rank)) if axis is None else [axis]
    n = tn.size_of([x.shape[a] for a in tn.norm_axes(ax, x.rank)])
    return binop(tm.div, s, tm.sub(n, ival(ddof)), True)


def np_dot(x, y):
    if isinstance(x, Ten) and isinstance(y, Ten) and x.rank == 1 and y.rank == 1:
        return np_sum(binop(tm.mul, x, y))
    raise Unsupported('np.dot')


def np_squeeze(x, axis=None):
    if not isinstance(x, Ten) or axis is not None:
        raise Unsupported('np.squeeze')
    keep = [i for i, s in enumerate(x.shape) if not tm.isc(s, 1)]
    return Ten([x.shape[i] for i in keep],
               lambda *i: x.at(*[i[keep.index(k)] if k in keep else ival(0) for k in range(x.rank)]), x.dtype)


NP = {'mean': np_mean, 'average': np_mean, 'sum': np_sum, 'max': np_max, 'amax': np_max, 'var': np_var, 'dot': np_dot,
      'exp': un(tm.exp), 'log': un(tm.log), 'sqrt': un(tm.sqrt), 'square': un(tm.square), 'abs': un(tm.tabs),
      'squeeze': np_squeeze, 'subtract': lambda x, y: binop(tm.sub, x, y), 'add': lambda x, y: binop(tm.add, x, y),
      'multiply': lambda x, y: binop(tm.mul, x, y), 'divide': lambda x, y: binop(tm.div, x, y, True),
      'true_divide': lambda x, y: binop(tm.div, x, y, True), 'negative': lambda x: binop(tm.sub, 0, x),
      'asarray': lambda x, *a, **k: x, 'array': lambda x, *a, **k: x, 'log1p': un(lambda a: tm.log(tm.add(const(1), a))),
      'zeros_like': lambda x, *a, **k: binop(tm.mul, x, 0), 'float64': lambda x: x, 'float32': lambda x: x}


class Loop(object):
    def __init__(self, var, lo, hi, t, node):
        self.var, self.lo, self.hi, self.t, self.node = var, lo, hi, t, node
        self.acc = {}        # name -> (init, delta term/Ten as a function of t)
        self.last = {}       # name -> (init, g)
        self.ghost = {}


class Interp(object):
    def __init__(self, hooks=None, effects=None, facts=None):
        self.hooks = hooks or {}
        self.effects = effects          # object with call(interp, state, fname, args, kwargs) or None
        self.facts = facts
        self.depth = 0
        self.funcs = []
        self.stmts = 0

    # ------------------------------------------------------------ functions
    def run(self, fn, args, kwargs=None, st=None, self_obj=None):
        """All paths of fn(*args): list of (State, value)."""
        f = getattr(fn, '__func__', fn)
        node = source(f)
        glob = f.__globals__
        self.funcs.append('%s.%s' % (f.__module__, f.__qualname__))
        return self.apply(Func(node, {}, glob, f.__qualname__), ([self_obj] if self_obj is not None else []) + list(args),
                          kwargs or {}, st or State({}))

    def apply(self, F, args, kwargs, st):
        self.depth += 1
        if self.depth > 20:
            raise Unsupported('recursion')
        try:
            a = F.node.args
            if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
                raise Unsupported('argument kinds')
            names = [x.arg for x in a.args]
            env = dict(F.env)
            env['__parent__'] = F.env
            dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            if len(args) > len(names):
                raise Unsupported('argument count')
            loc = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names or k in loc:
                    raise Unsupported('keyword %s' % k)
                loc[k] = v
            for n in names:
                if n not in loc:
                    if n not in dflt:
                        raise Unsupported('missing argument %s' % n)
                    (s_, v), = self.ev(dflt[n], State({'__glob__': F.glob}, st.pc, st.ghost))
                    loc[n] = v
            s = State(dict(F.env, **loc), st.pc, st.ghost)
            s.env['__glob__'] = F.glob
            out = []
            if isinstance(F.node, ast.Lambda):
                for s2, v in self.ev(F.node.body, s):
                    out.append((State(st.env, s2.pc, s2.ghost), v))
                return out
            for kind, s2, v in self.block(F.node.body, s):
                if kind in ('return', 'next'):
                    out.append((State(st.env, s2.pc, s2.ghost), v if kind == 'return' else None))
                elif kind == 'raise':
                    out.append((State(st.env, s2.pc, s2.ghost), Raised(v)))
                else:
                    raise Unsupported(kind)
            return out
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        """list of (kind, State, value); kind in next return break continue raise"""
        states = [st]
        out = []
        for node in body:
            nxt = []
            for s in states:
                for kind, s2, v in self.stmt(node, s):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            states = nxt
            if len(states) + len(out) > 64:
                raise Unsupported('too many paths')
        return out + [('next', s, None) for s in states]

    def stmt(self, n, st):
        self.stmts += 1
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return [('next', st, None)]
            return [('next', s, None) for s, _ in self.ev(n.value, st)]
        if isinstance(n, ast.Pass):
            return [('next', st, None)]
        if isinstance(n, ast.Return):
            if n.value is None:
                return [('return', st, None)]
            return [('return', s, v) for s, v in self.ev(n.value, st)]
        if isinstance(n, ast.Assign):
            out = []
            for s, v in self.ev(n.value, st):
                s = s.copy()
                for t in n.targets:
                    self.assign(t, v, s)
                out.append(('next', s, None))
            return out
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            out = []
            for s, v in self.ev(n.value, st):
                s = s.copy()
                self.assign(n.target, v, s)
                out.append(('next', s, None))
            return out
        if isinstance(n, ast.AugAssign):
            if not isinstance(n.target, ast.Name):
                raise Unsupported('augmented assignment to %s' % type(n.target).__name__)
            out = []
            ld = ast.Name(n.target.id, ast.Load())
            for s, v in self.ev(ast.BinOp(ld, n.op, n.value), st):
                s = s.copy()
                self.assign(n.target, v, s)
                out.append(('next', s, None))
            return out
        if isinstance(n, ast.If):
            out = []
            for s, c in self.branch(n.test, st):
                out += self.block(n.body if c else n.orelse, s)
            return out
        if isinstance(n, ast.For):
            return self.loop(n, st)
        if isinstance(n, ast.Break):
            return [('break', st, None)]
        if isinstance(n, ast.Continue):
            return [('continue', st, None)]
        if isinstance(n, ast.FunctionDef):
            s = st.copy()
            s.env[n.name] = Func(n, s.env, s.env['__glob__'], n.name)
            return [('next', s, None)]
        if isinstance(n, ast.Assert):
            out = []
            for s, c in self.branch(n.test, st):
                out.append(('next', s, None) if c else ('raise', s, 'AssertionError'))
            return out
        if isinstance(n, ast.Raise):
            return [('raise', st, ast.dump(n)[:80])]
        raise Unsupported('statement %s' % type(n).__name__)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Ten) and tm.isc(v.shape[0]):
                v = [self.index(v, ival(i)) for i in range(int(tm.cval(v.shape[0])))]
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, v):
                self.assign(a, b, s)
        elif isinstance(t, ast.Subscript):
            raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment target')

    def branch(self, test, st):
        out = []
        for s, v in self.ev(test, st):
            if isinstance(v, Ten):
                if v.rank:
                    raise Unsupported('truth value of an array')
                v = v.at()
            if isinstance(v, T):
                if v is tm.TRUE or v is tm.FALSE:
                    out.append((s, v is tm.TRUE))
                    continue
                if v.sort != 'B':
                    v = tm.tnot(tm.eq(v, lift(0)))
                d = self.decide(v)
                if d is not None:
                    out.append((s, d))
                    continue
                out.append((s.assume(v), True))
                out.append((s.assume(tm.tnot(v)), False))
            elif isinstance(v, Func) or isinstance(v, Obj):
                out.append((s, True))
            else:
                out.append((s, bool(v)))
        return out

    def decide(self, v):
        if self.facts is None:
            return None
        from .norm import Norm, Giveup, NeedSplit
        try:
            N = Norm(self.facts)
            p = N.nf(v)
            if p is N.ONE:
                return True
            if p is N.ZERO:
                return False
        except Exception:
            pass
        return None

    # ------------------------------------------------------------ loops
    def loop(self, n, st):
        if n.orelse:
            raise Unsupported('for-else')
        out = []
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Range):
                lo, hi = it.lo, it.hi
                if not issym(lo) and not issym(hi):
                    if hi - lo > 64:
                        raise Unsupported('long concrete loop')
                    out += self.unroll(n, s, [i for i in range(lo, hi)])
                    continue
                out += self.cut(n, s, lift(lo), lift(hi))
            elif isinstance(it, (list, tuple, range)):
                out += self.unroll(n, s, list(it))
            else:
                raise Unsupported('iteration over %r' % (type(it),))
        return out

    def unroll(self, n, st, items):
        states, out = [st], []
        for x in items:
            nxt = []
            for s in states:
                s = s.copy()
                self.assign(n.target, x, s)
                for kind, s2, v in self.block(n.body, s):
                    if kind in ('next', 'continue'):
                        nxt.append(s2)
                    elif kind == 'break':
                        out.append(('next', s2, None))
                    else:
                        out.append((kind, s2, v))
            states = nxt
        return out + [('next', s, None) for s in states]

    def cut(self, n, st, lo, hi):
        """Inductive contract of `for v in range(lo, hi)`: see the module text."""
        if not isinstance(n.target, ast.Name):
            raise Unsupported('loop target')
        cnt = tn.simp(tm.sub(hi, lo))
        k = bvar('k', cnt)
        if self.facts is not None:
            self.facts.vbound[k] = VB[k]
        t = tm.add(lo, k)
        assigned = assigned_names(n.body) - {n.target.id}
        carried = [x for x in sorted(assigned) if x in st.env]
        L = Loop(n.target.id, lo, hi, k, n)
        solved, sym = {}, {}
        opaque = {}
        for x in carried:
            opaque[x] = self.opaque('c:%s' % x, st.env[x])
        gh0 = dict(st.ghost)
        gsolved = None
        # ghost state: executed first to learn its closed form
        for rnd in range(len(carried) + 3):
            s = st.copy()
            for x in carried:
                s.env[x] = solved[x](k) if x in solved else opaque[x]
            s.env[n.target.id] = t
            for x in assigned:
                if x not in carried:
                    s.env.pop(x, None)
            if self.effects is not None:
                s.ghost = self.effects.at_iteration(gh0, gsolved, k)
            res = self.block(n.body, s)
            if self.effects is not None and gsolved is None:
                gsolved = self.effects.solve(gh0, [r[1].ghost for r in res if r[0] in ('next', 'continue')], k)
                continue
            progress = False
            for x in carried:
                if x in solved:
                    continue
                r = self.recur(x, opaque[x], st.env[x], res, k, opaque, solved)
                if r is not None:
                    kind, d = r
                    init = st.env[x]
                    if kind == 'acc':
                        L.acc[x] = (init, d)
                        solved[x] = lambda kk, init=init, d=d: self.accum(init, d, k, kk)
                    elif kind == 'min':
                        L.last[x] = (init, d)
                        solved[x] = lambda kk, init=init, d=d: self.minimum(init, d, k, kk)
                    else:
                        L.last[x] = (init, d)
                        solved[x] = lambda kk, init=init, d=d: self.lastval(init, d, k, kk)
                    progress = True
            if all(x in solved for x in carried) and not progress:
                break
            if not progress:
                raise Unsupported('recurrence of %s' % [x for x in carried if x not in solved])
        else:
            raise Unsupported('recurrences')
        # exits; the body has been executed with every carried variable in closed form
        out = []
        conts = [r for r in res if r[0] in ('next', 'continue')]
        others = [r for r in res if r[0] not in ('next', 'continue')]
        npc = len(st.pc)
        ok = [tm.tand(*[x for x in r[1].pc[npc:]]) if r[1].pc[npc:] else True for r in conts]
        if any(isinstance(x, ForAll) for r in res for x in r[1].pc[npc:]):
            raise Unsupported('nested quantified paths')
        stays = None
        if others:
            stays = tm.tor(*[x for x in ok]) if all(isinstance(x, T) for x in ok) else True
        L.closed = solved
        L.stays = stays
        L.exits = others
        hook = self.hooks.get('loop')
        # normal exit
        s = st.copy()
        for x in assigned:
            if x not in carried:
                s.env.pop(x, None)
        repl = hook(self, L, st, res, gsolved) if hook else {}
        for x in carried:
            s.env[x] = repl[x] if x in repl else solved[x](cnt)
        if self.effects is not None:
            s.ghost = self.effects.at_iteration(gh0, gsolved, cnt)
        if stays is not None and stays is not True:
            s.pc = s.pc + (ForAll(k, stays),)
        out.append(('next', s, None))
        for kind, s2, v in others:
            s3 = State(dict(s2.env), st.pc, s2.ghost)
            if stays is not None and stays is not True:
                kk = bvar('j', k)
                s3.pc = s3.pc + (ForAll(kk, tm.subst(stays, {k: kk})),)
            s3.pc = s3.pc + s2.pc[npc:]
            s3.ghost['exit'] = k
            if kind == 'break':
                out.append(('next', s3, None))
            else:
                out.append((kind, s3, v))
        return out

    def opaque(self, name, v):
        if isinstance(v, Ten):
            return Ten(v.shape, lambda *i: tm.rd(name, i, 'R'), v.dtype)
        if isinstance(v, (T, int, float, np.floating, np.integer)):
            return tm.rd(name, (), 'R')
        if isinstance(v, list):
            return v
        raise Unsupported('carried value %r' % (type(v),))

    def recur(self, x, old, init, res, k, opaque, solved):
        """('acc', delta) or ('last', g), each a function of the iteration k; None if not solvable yet"""
        conts = [r for r in res if r[0] in ('next', 'continue')]
        if not conts:
            return ('last', init)
        if isinstance(init, list):
            raise Unsupported('carried list')
        names = {'c:' + y for y in opaque if y not in solved}
        vals = []
        base = len(conts[0][1].pc)
        for r in conts:
            v = r[1].env.get(x)
            vals.append(v)
        ten = [v for v in vals + [init] if isinstance(v, Ten)]
        shape = max((v.shape for v in ten), key=len) if ten else None
        idx = [bvar('i', s) if not tm.isc(s, 1) else ival(0) for s in shape] if shape is not None else []
        if self.facts is not None:
            for i in idx:
                if i.op == 'v':
                    self.facts.vbound[i] = VB[i]
        at = lambda v: (v.at(*tn.bidx(v.shape, idx)) if isinstance(v, Ten) else real(v))
        o = at(old)
        ds, ls = [], []
        for v in vals:
            e = at(v)
            ls.append(e)
            ds.append(strip(e, o))
        conds = [r[1].pc for r in conts]
        common = 0
        while all(len(c) > common for c in conds) and len({c[common] for c in conds}) == 1:
            common += 1
        cs = [[q for q in c[common:]] for c in conds]
        if any(isinstance(q, ForAll) for c in cs for q in c):
            return None

        def combine(es):
            r = es[-1]
            for e, c in zip(es[-2::-1], cs[-2::-1]):
                r = tm.ite(tm.tand(*c), e, r)
            return r
        mins = [minof(e, o) for e in ls]
        clean = lambda t: not mentions_any(t, names | {'c:' + x})
        if all(d is not None and clean(d) for d in ds) and all(clean(q) for c in cs for q in c):
            d = combine(ds)
            return 'acc', self.asten(d, idx, shape)
        if len(mins) == 1 and mins[0] is not None and clean(mins[0]):
            return 'min', self.asten(mins[0], idx, shape)
        if all(clean(e) for e in ls) and all(clean(q) for c in cs for q in c):
            return 'last', self.asten(combine(ls), idx, shape)
        return None

    def asten(self, e, idx, shape):
        if shape is None:
            return e
        return Ten(shape, lambda *i: tm.subst(e, dict((a, b) for a, b in zip(idx, i) if a.op == 'v')), 'float64')

    def accum(self, init, d, k, kk):
        def s(e):
            return tm.big('sum', tn.simp(kk), lambda q: tm.subst(e, {k: q}))
        if isinstance(d, Ten):
            I = init if isinstance(init, Ten) else Ten([], lambda: real(init), 'float64')
            return Ten(d.shape, lambda *i: tm.add(real(I.at(*tn.bidx(I.shape, i))), s(d.at(*i))), 'float64')
        return tm.add(real(init), s(d))

    def minimum(self, init, d, k, kk):
        if isinstance(d, Ten):
            raise Unsupported('array minimum')
        m = tm.neg(tm.big('rmax', tn.simp(kk), lambda q: tm.neg(tm.subst(d, {k: q}))))
        if isinstance(init, float) and init == float('inf'):
            return m          # at least one iteration: a precondition of reading it
        return tm.tmin(real(init), m)

    def lastval(self, init, d, k, kk):
        prev = tm.sub(kk, ival(1))
        c = tm.eq(kk, ival(0))
        if isinstance(d, Ten):
            I = init if isinstance(init, Ten) else Ten([], lambda: real(init), 'float64')
            return Ten(d.shape, lambda *i: tm.ite(c, real(I.at(*tn.bidx(I.shape, i))), tm.subst(d.at(*i), {k: prev})),
                       'float64')
        if not isinstance(d, T):
            return d
        return tm.ite(c, real(init), tm.subst(d, {k: prev}))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        """list of (State, value)"""
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st)

    def evs(self, ns, st):
        out = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in out:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        if not isinstance(v, (list, tuple)):
                            raise Unsupported('star argument')
                        nxt.append((s2, vs + list(v)))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_Constant(self, n, st):
        return [(st, n.value)]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        g = st.env.get('__glob__', {})
        if n.id in g:
            return [(st, g[n.id])]
        if hasattr(builtins, n.id):
            return [(st, getattr(builtins, n.id))]
        raise Unsupported('name %s' % n.id)

    def e_Attribute(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            out.append((s, self.attr(v, n.attr)))
        return out

    def attr(self, v, a):
        if isinstance(v, Ten):
            if a == 'shape':
                return tuple(int(tm.cval(x)) if tm.isc(x) else x for x in v.shape)
            if a == 'size':
                z = tn.size_of(v.shape)
                return int(tm.cval(z)) if tm.isc(z) else z
            if a == 'ndim':
                return v.rank
            if a in ('mean', 'sum', 'max', 'var', 'squeeze', 'dot'):
                f = NP[a]
                return lambda *p, **k: f(v, *p, **k)
            if a in ('copy', 'astype'):
                return lambda *p, **k: v
            raise Unsupported('array attribute %s' % a)
        if isinstance(v, T):
            raise Unsupported('attribute %s of a number' % a)
        if isinstance(v, Obj):
            if a in v.__dict__:
                return v.__dict__[a]
            cls = v.__dict__.get('_cls')
            if cls is not None and hasattr(cls, a):
                f = inspect.getattr_static(cls, a)
                if isinstance(f, staticmethod):
                    f = f.__func__
                    self.funcs.append('%s.%s' % (f.__module__, f.__qualname__))
                    return Func(source(f), {}, f.__globals__, a)
                if isinstance(f, property):
                    raise Unsupported('property %s' % a)
                if isinstance(f, types.FunctionType):
                    self.funcs.append('%s.%s' % (f.__module__, f.__qualname__))
                    return Func(source(f), {}, f.__globals__, a, bound=v)
                if not callable(f):
                    return f
            raise Unsupported('attribute %s' % a)
        return getattr(v, a)

    def e_Subscript(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            for s2, i in self.idx(n.slice, s):
                out.append((s2, self.getitem(v, i)))
        return out

    def idx(self, n, st):
        if isinstance(n, ast.Slice):
            out = []
            for s, (a, b, c) in self.evs([x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)], st):
                out.append((s, slice(a, b, c)))
            return out
        if isinstance(n, ast.Tuple):
            out = [(st, [])]
            for e in n.elts:
                out = [(s2, vs + [v]) for s, vs in out for s2, v in self.idx(e, s)]
            return [(s, tuple(v)) for s, v in out]
        return self.ev(n, st)

    def getitem(self, v, i):
        if not isinstance(v, Ten):
            if deep_sym(i):
                raise Unsupported('symbolic index into %s' % type(v).__name__)
            return v[i]
        items = list(i) if isinstance(i, tuple) else [i]
        if len(items) > v.rank:
            raise Unsupported('too many indices')
        items += [slice(None)] * (v.rank - len(items))
        sh, maps = [], []
        for s, it in zip(v.shape, items):
            if isinstance(it, slice):
                if it.step not in (None, 1):
                    raise Unsupported('slice step')
                lo = self.bound(it.start, s, ival(0))
                hi = self.bound(it.stop, s, s)
                sh.append(tn.simp(tm.sub(hi, lo)))
                maps.append(('s', lo))
            elif it is None or it is Ellipsis:
                raise Unsupported('index')
            else:
                j = lift(it)
                if tm.isc(j) and tm.cval(j) < 0:
                    j = tm.add(s, j)
                maps.append(('i', j))

        def fn(*ix):
            ix = list(ix)
            full = []
            for kind, a in maps:
                full.append(a if kind == 'i' else tm.add(ix.pop(0), a))
            return v.at(*full)
        r = Ten(sh, fn, v.dtype)
        return r.at() if r.rank == 0 else r

    def index(self, v, i):
        return self.getitem(v, i)

    def bound(self, b, size, dflt):
        """A slice bound; it must lie within the axis (a precondition of the slices modelled here)."""
        if b is None:
            return dflt
        b = lift(b)
        if tm.isc(b) and tm.cval(b) < 0:
            return tm.add(size, b)
        if not (tm.isc(b, 0) or tn.same(b, size)):
            self.need(tm.le(b, size))
            self.need(tm.le(ival(0), b))
        return b

    def need(self, c):
        if self.decide(c) is not True:
            raise Unsupported('slice bound not within the axis: %s' % tm.show(c)[:200])

    def e_BinOp(self, n, st):
        out = []
        for s, (x, y) in self.evs([n.left, n.right], st):
            if not deep_sym(x) and not deep_sym(y):
                f = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y,
                     ast.Pow: lambda: x ** y, ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y}.get(type(n.op))
                if f is None:
                    raise Unsupported('operator')
                out.append((s, f()))
                continue
            if isinstance(n.op, ast.Mod) and isinstance(x, str):
                out.append((s, x))
                continue
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                if isinstance(n.op, ast.Add) and type(x) is type(y):
                    out.append((s, x + y))
                    continue
                raise Unsupported('list arithmetic')
            if type(n.op) in ARITH:
                f, rr = ARITH[type(n.op)]
                out.append((s, binop(f, x, y, rr)))
            elif isinstance(n.op, ast.Pow) and y == 2:
                out.append((s, binop(tm.mul, x, x)))
            elif isinstance(n.op, ast.Pow) and y in (0.5, -1):
                out.append((s, un(tm.sqrt)(x) if y == 0.5 else binop(tm.div, 1, x, True)))
            elif isinstance(n.op, ast.FloorDiv) and not isinstance(x, Ten) and not isinstance(y, Ten):
                a, b = lift(x), lift(y)
                if a.sort != 'I' or b.sort != 'I':
                    raise Unsupported('floor division')
                out.append((s, tm.idiv(a, b)))
            else:
                raise Unsupported('operator %s' % type(n.op).__name__)
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, x in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                out.append((s, binop(tm.sub, 0, x) if issym(x) else -x))
            elif isinstance(n.op, ast.Not):
                if isinstance(x, T):
                    out.append((s, tm.tnot(x if x.sort == 'B' else tm.tnot(tm.eq(x, lift(0))))))
                else:
                    out.append((s, not x))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, x))
            else:
                raise Unsupported('unary')
        return out

    def e_Compare(self, n, st):
        out = []
        for s, vs in self.evs([n.left] + n.comparators, st):
            r = None
            for op, x, y in zip(n.ops, vs, vs[1:]):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    c = (x is y) if isinstance(op, ast.Is) else (x is not y)
                elif isinstance(op, (ast.In, ast.NotIn)):
                    if deep_sym(x):
                        raise Unsupported('membership')
                    c = (x in y) if isinstance(op, ast.In) else (x not in y)
                elif not issym(x) and not issym(y):
                    c = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                         ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}[type(op)]()
                else:
                    f = CMP[type(op)]
                    if isinstance(x, Ten) or isinstance(y, Ten):
                        raise Unsupported('array comparison')
                    a, b = lift(x), lift(y)
                    if a.sort != b.sort:
                        a, b = real(a), real(b)
                    if a.op == 'inf' or b.op == 'inf':
                        raise Unsupported('infinite comparison')
                    c = f(a, b)
                if r is None or r is True:
                    r = c
                elif r is False:
                    pass
                else:
                    r = tm.tand(r, c) if isinstance(c, T) else (r if c else False)
            out.append((s, r))
        return out

    def e_BoolOp(self, n, st):
        out = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            for s2, c in self.branch(n.values[i], s):
                stop = (not c) if isinstance(n.op, ast.And) else c
                if stop or i + 1 == len(n.values):
                    out.append((s2, c))
                else:
                    work.append((s2, i + 1))
        return out

    def e_IfExp(self, n, st):
        out = []
        for s, c in self.branch(n.test, st):
            out += self.ev(n.body if c else n.orelse, s)
        return out

    def e_Tuple(self, n, st):
        return [(s, tuple(v)) for s, v in self.evs(n.elts, st)]

    def e_List(self, n, st):
        return [(s, list(v)) for s, v in self.evs(n.elts, st)]

    def e_Dict(self, n, st):
        out = []
        if any(k is None for k in n.keys):
            out = [(st, {})]
            for k, v in zip(n.keys, n.values):
                nxt = []
                for s, d in out:
                    if k is None:
                        nxt += [(s2, dict(d, **{}) if False else merged(d, w)) for s2, w in self.ev(v, s)]
                    else:
                        nxt += [(s2, merged(d, {kv[0]: kv[1]})) for s2, kv in self.evs([k, v], s)]
                out = nxt
            return out
        for s, kv in self.evs(list(n.keys) + list(n.values), st):
            h = len(n.keys)
            out.append((s, dict(zip(kv[:h], kv[h:]))))
        return out

    def e_Lambda(self, n, st):
        return [(st, Func(n, st.env, st.env['__glob__'], 'lambda'))]

    def e_JoinedStr(self, n, st):
        return [(st, 'text')]

    def e_ListComp(self, n, st):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported('comprehension')
        g = n.generators[0]
        out = []
        for s, it in self.ev(g.iter, st):
            if not isinstance(it, (list, tuple, range)):
                raise Unsupported('comprehension over %s' % type(it).__name__)
            acc = [(s, [])]
            for x in it:
                nxt = []
                for s2, vs in acc:
                    s3 = s2.copy()
                    self.assign(g.target, x, s3)
                    nxt += [(s4, vs + [v]) for s4, v in self.ev(n.elt, s3)]
                acc = nxt
            out += acc
        return out

    def e_Call(self, n, st):
        out = []
        for s, f in self.ev(n.func, st):
            for s2, args in self.evs(n.args, s):
                ks = [k.arg for k in n.keywords]
                for s3, kv in self.evs([k.value for k in n.keywords], s2):
                    kw = {}
                    for k, v in zip(ks, kv):
                        if k is None:
                            kw.update(v)
                        else:
                            kw[k] = v
                    out += self.call(f, args, kw, s3)
        return out

    def call(self, f, args, kw, st):
        if isinstance(f, Func):
            return self.apply(f, ([f.bound] if f.bound is not None else []) + args, kw, st)
        if self.effects is not None:
            r = self.effects.call(self, st, f, args, kw)
            if r is not None:
                return r
        if f is print:
            return [(st, None)]
        if f is range or getattr(f, '__name__', '') == 'range':
            if len(args) == 1:
                args = [0] + args
            if len(args) != 2:
                raise Unsupported('range step')
            if not any(issym(a) for a in args):
                return [(st, range(*args))]
            return [(st, Range(*args))]
        if f is len and isinstance(args[0], Ten):
            z = args[0].shape[0]
            return [(st, int(tm.cval(z)) if tm.isc(z) else z)]
        if f in (min, max) and len(args) == 2 and any(issym(a) for a in args):
            return [(st, binop(tm.tmin if f is min else tm.tmax, *args))]
        if f in (float, int, abs) and issym(args[0]):
            if f is int and lift(args[0]).sort != 'I':
                raise Unsupported('int() of a real')
            return [(st, real(args[0]) if f is float else args[0] if f is int else un(tm.tabs)(args[0]))]
        mod = getattr(f, '__module__', None) or ''
        nm = getattr(f, '__name__', '')
        if (isinstance(f, np.ufunc) or mod.split('.')[0] == 'numpy') and (any(deep_sym(a) for a in args)):
            if nm in NP:
                return [(st, NP[nm](*args, **kw))]
            raise Unsupported('numpy function %s' % nm)
        if isinstance(f, types.LambdaType) and mod == __name__:
            return [(st, f(*args, **kw))]
        if isinstance(f, types.FunctionType) and mod.split('.')[0] == 'zhusuan':
            if f.__code__.co_flags & 0x04 and not kw:
                # *args helpers (merge_dicts) move values without looking at them
                return [(st, f(*args))]
            self.funcs.append('%s.%s' % (mod, f.__qualname__))
            return self.apply(Func(source(f), {}, f.__globals__, nm), args, kw, st)
        if isinstance(getattr(f, '__self__', None), str):
            return [(st, 'text')]
        if isinstance(getattr(f, '__self__', None), list) and nm == 'append':
            # contents of grown lists are not modelled: reading them later is Unsupported
            f.__self__.append(POISON)
            return [(st, None)]
        if not any(deep_sym(a) for a in args) and not any(deep_sym(a) for a in kw.values()):
            return [(st, f(*args, **kw))]
        raise Unsupported('call of %s' % (nm or f))


class Poison(object):
    pass


POISON = Poison()


class Range(object):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Raised(object):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'raises %s' % self.what


def merged(a, b):
    r = dict(a)
    r.update(b)
    return r


def assigned_names(body):
    out = set()
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            if isinstance(x, (ast.While, ast.Global, ast.Nonlocal, ast.Try, ast.With)):
                raise Unsupported('statement %s in a loop' % type(x).__name__)
    return out


def mentions_any(t, names):
    from .diff import mentions
    return any(mentions(t, n) for n in names)


def strip(e, old):
    """d such that e = old + d, if e is syntactically a sum containing old once; else None"""
    if e is old:
        return const(0)
    if e.op == 'add':
        a = list(e.args)
        if sum(1 for x in a if x is old) == 1:
            rest = [x for x in a if x is not old]
            return tm.add(*rest) if rest else const(0)
        for i, x in enumerate(a):
            if x.op in ('add', 'ite'):
                d = strip(x, old)
                if d is not None:
                    return tm.add(*(a[:i] + [d] + a[i + 1:]))
        return None
    if e.op == 'ite':
        x, y = strip(e.args[1], old), strip(e.args[2], old)
        if x is not None and y is not None:
            return tm.ite(e.args[0], x, y)
    return None


def minof(e, old):
    """d such that e = min(old, d), else None"""
    if e.op == 'mul' and len(e.args) == 2 and e.args[1] is const(-1) and e.args[0].op == 'max':
        a, b = e.args[0].args
        if a is tm.neg(old):
            return tm.neg(b)
        if b is tm.neg(old):
            return tm.neg(a)
    return None

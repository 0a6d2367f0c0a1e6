"""C17: log_sum_exp / log_mean_exp / merge_dicts."""
import itertools
import numpy as np
from ..case import Case
from .. import terms as tm, tensor as tn
from ..tensor import elementwise, Ten
from ..norm import bvar, VB
from ..prove import prove_eq
from .. import smt
from ..terms import ival, isc

FUNCTIONS = ['zhusuan.utils.log_sum_exp', 'zhusuan.utils.log_mean_exp', 'zhusuan.utils.merge_dicts',
             'zhusuan.variational.*/zhusuan.evaluation callers through the same contracts']
ASSUMPTIONS = ['No-overflow is proved as: the argument of every Exp op in the graph is x_i - max_j x_j <= 0, over the '
               'reals; rounding of that difference is not modelled.',
               'merge_dicts: Python dict operations (update, |, item assignment, iteration visits each key once) have '
               'their documented meaning; the enumeration over 3 keys and up to 3 dictionaries is a replay.',
               'A maximum over a finite non-empty set is attained (used for the Log arguments).']


def axes_of(axis, r):
    if axis is None:
        return list(range(r))
    return [a % r for a in (axis if isinstance(axis, (list, tuple)) else [axis])]


def one(label, seed, tier, fn, shape, axis, keep, mode, dtype='float64', raw=False, kw=True):
    import importlib
    utils = importlib.import_module('zhusuan.utils')
    c = Case(label, seed, mode, trials=5 if tier == 'quick' else 20)
    x = c.ph('x', shape, dtype)
    f = getattr(utils, fn)
    with c.graph.as_default():
        y = f(x, axis, keep) if not kw else f(x, axis=axis, keepdims=keep)
    X = c.ten('x')
    ax = axes_of(axis, len(shape))
    s = tn.reduce(elementwise(tm.exp, X), ax, keep, 'sum' if fn == 'log_sum_exp' else 'mean')
    c.prove('%s = log %s exp' % (fn, fn[4:-4]), y, elementwise(tm.log, s))
    exps, logs = no_overflow(c, y), no_underflow(c, y)
    stable(c, y, fn, ax, keep, 'x', exps and logs)
    c.close()
    return c.obls


def ancestors(t):
    seen, st = set(), [t.op]
    while st:
        o = st.pop()
        if o in seen:
            continue
        seen.add(o)
        st.extend(i.op for i in o.inputs)
    return seen


def no_overflow(c, y):
    """Every Exp op in the graph of y has a non-positive argument, for all inputs."""
    good = True
    ops = sorted((o for o in ancestors(y) if o.type in ('Exp', 'Expm1', 'Cosh', 'Sinh')), key=lambda o: o.name)
    for o in ops:
        ob = c.obl('argument of %s is never positive' % o.type)
        try:
            a = c.ev().ten(o.inputs[0])
            idx = [ival(0) if isc(s, 1) else bvar('i', s) for s in a.shape]
            for v in idx:
                if v.op == 'v':
                    c.facts.vbound[v] = VB[v]
            arg = a.at(*idx)
            ok = le_zero(c, arg, [v for v in idx], ob)
            ob.status = 'proved' if ok else 'unsupported'
            if not ok:
                good = False
                ob.detail = 'argument not bounded by a maximum: %s' % tm.show(arg)[:300]
            ob.backend = 'max lemma + normal form + z3'
        except Exception as e:
            ob.status, ob.detail = 'unsupported', repr(e)
            good = False
    return good and bool(ops)


def no_underflow(c, y):
    """Every Log op in the graph of y has an argument of at least 1/n: it times exp(m) (times n) is the sum of
    exp over the very elements m is the maximum of, and a maximum over a finite non-empty set is attained."""
    ops = sorted((o for o in ancestors(y) if o.type in ('Log', 'Log1p')), key=lambda o: o.name)
    good = bool(ops)
    for o in ops:
        ob = c.obl('argument of %s is at least 1 over the number of elements' % o.type)
        try:
            a = c.ev().ten(o.inputs[0])
            # a constant (log n): decided by its value
            idx = [ival(0) if isc(s, 1) else bvar('i', s) for s in a.shape]
            for v in idx:
                if v.op == 'v':
                    c.facts.vbound[v] = VB[v]
            arg = a.at(*idx)
            if not tm.subterms(arg, lambda t: t.op == 'rd'):
                ob.status, ob.backend = 'proved', 'size: at least 1'
                continue
            ok = attained(c, arg, ob)
            ob.status = 'proved' if ok else 'unsupported'
            if not ok:
                good = False
                ob.detail = 'argument not a sum of exp relative to its maximum: %s' % tm.show(arg)[:300]
            ob.backend = 'attained-max lemma + normal form + z3'
        except Exception as e:
            ob.status, ob.detail = 'unsupported', repr(e)
            good = False
    return good


def attained(c, arg, ob):
    one = tm.const(1)
    if not tm.subterms(arg, lambda t: t.op == 'rmax'):
        r = prove_eq(arg, one, c.facts)          # nothing is reduced: exp(x - x) = 1
        return r.ok and done(r, ob, 'attained_max')
    mx = tm.subterms(arg, lambda t: t.op == 'rmax')
    inner = {m.args[2] for m in mx}
    for m in mx:
        if m in inner:
            continue
        vs, ns, b = [], [], m
        while b.op == 'rmax' and len(vs) < 6:
            vs.append(b.args[0])
            ns.append(b.args[1])
            b = b.args[2]
        s = tm.exp(b)
        for v, n in zip(reversed(vs), reversed(ns)):
            s = tm.mk('sum', (v, n, s), 'R')
        for k in (one, tm.mul(one, *[tm.toR(n) for n in ns])):
            r = prove_eq(tm.mul(arg, k, tm.exp(m)), s, c.facts)
            if r.ok:
                return done(r, ob, 'attained_max')
    return False


def le_zero(c, arg, goal, ob):
    r = prove_eq(arg, tm.const(0), c.facts)
    if r.ok:
        return done(r, ob)
    mx = tm.subterms(arg, lambda t: t.op == 'rmax')
    # an outermost nest of max binders
    inner = {m.args[2] for m in mx}
    for m in mx:
        if m in inner:
            continue
        vs, ns, b = [], [], m
        while b.op == 'rmax' and len(vs) < 6:
            vs.append(b.args[0])
            ns.append(b.args[1])
            b = b.args[2]
        cand = [[g for g in goal if g.op == 'v' and tn.same(VB[g], n)] for n in ns]
        for w in itertools.product(*cand):
            if len(set(w)) < len(w):
                continue
            inst = tm.subst(b, dict(zip(vs, w)))
            # member lemma: b(w) <= max_v b(v);  arg + max = b(w)  =>  arg <= 0
            r = prove_eq(tm.add(arg, m), inst, c.facts)
            if r.ok:
                return done(r, ob)
    return False


def done(r, ob, lemma='le_max'):
    ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
    smt.STATS['goals'] += len(r.goals)
    good = all(ans.get(i) == ['unsat'] for i in range(len(r.goals)))
    smt.STATS['discharged'] += len(r.goals) if good else 0
    ob.used = dict(r.used, **{lemma: 1})
    return good


def stable(c, y, fn, ax, keep, name, shown):
    """No overflow and no underflow: by the two range obligations for all inputs; replayed on the real runtime
    with extreme finite inputs (bounded when a range obligation is not discharged)."""
    d = c.inputs[name]
    ob = c.obl('extreme finite inputs give the exact value')
    ob.kind = 'range'
    rng = np.random.RandomState(7)
    big = 1e300 if d['dtype'] == 'float64' else 1e30
    for t in range(10):
        dims, vals = c.gen(t % 3)
        x = vals[name].astype(float)
        k = t % 5
        if k == 0:
            x = x * 1000.
        elif k == 1:
            x = x * 100. + 5000. * np.sign(rng.normal(size=x.shape[:1] + (1,) * (x.ndim - 1)) if x.ndim else 1.)
        elif k == 2:
            x = np.where(rng.uniform(size=x.shape) < .5, -big, x)
        elif k == 3:
            x = x + rng.uniform(-800, 800, size=x.shape)
        else:
            # rows of very different magnitude along every axis
            off = np.zeros(x.shape)
            for a in range(x.ndim):
                sh = [1] * x.ndim
                sh[a] = x.shape[a]
                off = off + (np.arange(x.shape[a]) * 3000. * (a + 1)).reshape(sh)
            x = x + off
        x = x.astype(d['dtype'])
        vals[name] = x
        got = c.session().run(y, c.feed(vals, dims))
        xf = x.astype(float)
        m = np.max(xf, axis=tuple(ax), keepdims=True) if xf.size else xf
        with np.errstate(all='ignore'):
            s = np.sum(np.exp(xf - m), axis=tuple(ax), keepdims=True)
        n = int(np.prod([xf.shape[a] for a in ax])) if ax else 1
        want = np.log(s / (n if fn == 'log_mean_exp' else 1)) + m
        if not keep:
            want = want.reshape([xf.shape[i] for i in range(xf.ndim) if i not in ax])
        tol = 1e-9 if d['dtype'] == 'float64' else 1e-4
        ob.numeric += 1
        if got.shape != want.shape or not np.all(np.isfinite(got)) or \
                not np.allclose(got, want, rtol=tol, atol=tol * 10):
            ob.status = 'refuted'
            ob.detail = 'finite input, result %s, exact %s' % (got, want)
            ob.cex = dict(kind='value', inputs={name: x.tolist()}, got=repr(got), want=repr(want))
            return
    ob.status = 'bounded'
    if shown:
        ob.status, ob.backend = 'proved', 'every Exp argument <= 0 and every Log argument >= 1/n; replayed at extremes'


def merge(label, seed, tier, ndicts):
    from zhusuan.utils import merge_dicts
    c = Case(label, seed)
    ob = c.obl('later dictionaries take precedence, arguments unchanged')
    keys = ['a', 'b', ('c', 1)]
    subsets = [s for r in range(4) for s in itertools.combinations(keys, r)]
    for combo in itertools.product(subsets, repeat=ndicts):
        vals = [[object() for _ in s] for s in combo]
        # None and falsy values must survive too
        if combo and combo[-1]:
            vals[-1][0] = None
        if combo and combo[0]:
            vals[0][-1] = 0
        ds = [dict(zip(s, v)) for s, v in zip(combo, vals)]
        cp = [dict(d) for d in ds]
        r = merge_dicts(*ds)
        want = {}
        for d in cp:
            for k in d:
                want[k] = d[k]
        ob.numeric += 1
        same = set(r) == set(want) and all(r[k] is want[k] for k in want)
        unch = all(a == b and list(a) == list(b) for a, b in zip(ds, cp))
        fresh = all(r is not d for d in ds)
        if not (same and unch and fresh):
            ob.status = 'refuted'
            ob.detail = 'merge_dicts(%s) = %s' % (cp, r)
            ob.cex = dict(kind='value', inputs=repr(cp), got=repr(r), want=repr(want))
            return c.obls
    ob.status = 'bounded'
    ob.detail = 'exhaustive over %d dictionaries on 3 keys' % ndicts
    return c.obls


def merge_proof(label, seed, tier):
    """merge_dicts for every number of dictionaries and every key; outside the subset the enumeration stands in."""
    from ..case import Obl
    from .. import mapvc
    from zhusuan.utils import merge_dicts
    out, why, v = [], None, None
    try:
        v = mapvc.VC(merge_dicts)
        v.run()
    except mapvc.Unsupported as e:
        why = 'source outside the verified subset: %s' % e
    except Exception as e:
        why = 'engine: %r' % e
    for nm, r, t in (v.obls if v is not None else []):
        o = Obl('%s :: %s' % (label, nm))
        o.time_s, o.backend, o.gv, o.numeric = t, 'z3', 1, 1
        smt.STATS['queries'] += 1
        smt.STATS['time_s'] += t
        smt.STATS['goals'] += 1
        if r == 'unsat' and why is None:
            o.status = 'proved'
            smt.STATS['discharged'] += 1
        else:
            o.status, o.detail = 'bounded', 'z3: %s (the enumeration stands in)' % r
        out.append(o)
    if why:
        o = Obl('%s :: source is within the verified subset' % label)
        o.status, o.numeric, o.detail = 'bounded', 1, why + ' (the enumeration stands in)'
        out.append(o)
    return out


def cases(tier, seed):
    shapes = [[], ['A'], ['B', 'A'], ['S', 'B', 'A'], ['C', 'S', 'B', 'A'], ['B', 1]]
    for fn in ('log_sum_exp', 'log_mean_exp'):
        for sh in shapes:
            r = len(sh)
            axs = [None]
            axs += list(range(-r, r))
            if r >= 2:
                axs += [[0, 1], (0, 1), [-1, 0], [-1, -2], list(range(r))]
            if r >= 3:
                axs += [[0, 2], [1, 2], (1, -1)]
            if r == 4 and tier == 'quick':
                axs = [None, 0, 2, -1, -3, [1, 3], (0, 2, 3)]
            for ax in axs:
                for keep in (False, True):
                    for mode in ('static', 'dynamic', 'unknown'):
                        kw = dict(fn=fn, shape=sh, axis=ax, keep=keep, mode=mode)
                        yield '%s[%s]' % (fn, ','.join('%s=%s' % i for i in list(kw.items())[1:])), one, kw
        for ax in (None, 0, -1, [0, 1]):
            kw = dict(fn=fn, shape=['B', 'A'], axis=ax, keep=False, mode='dynamic', dtype='float32', kw=False)
            yield '%s[float32,%s]' % (fn, ax), one, kw
    yield 'merge_dicts for all dictionaries', merge_proof, {}
    for n in range(0, 4):
        yield 'merge_dicts[%d]' % n, merge, dict(ndicts=n)

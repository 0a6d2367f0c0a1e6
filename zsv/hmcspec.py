"""Contracts of one HMC iteration (C12, C13; reused by C15 and C18): the
leapfrog loop and the step-size search by loop invariant, the rest by value."""
from __future__ import annotations
import math
import numpy as np
from .env import tf
from . import terms as tm, tensor as tn
from .terms import ival, const
from .tensor import Ten, Unsupported, elementwise
from .norm import bvar
from .consts import recognise
from .case import Broken
from .world import StepCase, LJ
from .prove import prove_eq
from .norm import VB

E = elementwise


def add(a, b): return E(tm.add, a, b)
def sub(a, b): return E(tm.sub, a, b)
def mul(a, b): return E(tm.mul, a, b)
def div(a, b): return E(tm.div, a, b)
def sqrt(a): return E(tm.sqrt, a)
def exp(a): return E(tm.exp, a)
def sq(a): return E(tm.square, a)
def k(x): return Ten([], lambda: const(x), 'float32')


def fc(v):
    f = recognise(np.float32(v), 'float32')
    return Ten([], lambda: f, 'float32')


def ic(v):
    return Ten([], lambda: ival(int(v)), 'int32')


def mean(a, axes=None, keep=False):
    return tn.reduce(a, list(range(a.rank)) if axes is None else axes, keep, 'mean')


def where(c, a, b):
    """c is a scalar or prefix-shaped boolean"""
    return Ten(a.shape, lambda *i: tm.ite(c.at(*i[:c.rank]), a.at(*i), b.at(*i)), a.dtype)


def cond(c, a, b):
    return Ten(a.shape, lambda *i: tm.ite(c.at(), a.at(*i), b.at(*i)), a.dtype)


def bcast(a, shape):
    return tn.broadcast_to(a, shape)


def draws(ten):
    """noise arrays a tensor depends on directly"""
    t = ten.at(*[ival(0) if tm.isc(s, 1) else bvar('i', s) for s in ten.shape])
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, tm.T) and x not in seen and x.op != 'app':
            seen.add(x)
            if x.op == 'rd' and x.args[0].startswith('noise:'):
                out.add(x.args[0])
            todo.extend(x.args)
    return sorted(out)


class Duck(object):
    """a model object: observe(**obs).log_joint()"""

    def __init__(self, f):
        self.f = f

    def observe(self, **obs):
        f = self.f

        class R(object):
            def log_joint(self):
                return f(obs)
        return R()


# ------------------------------------------------------------------ dynamics
class Dyn(object):
    """Leapfrog dynamics of an abstract log joint, symbolically and in numbers."""

    def __init__(self, c, lj, dshapes):
        self.c, self.lj, self.dshapes = c, lj, dshapes
        self.expand = self.unfold = False
        self.full = None
        for j in range(len(lj.names)):
            c.apps['LFQ%d' % j] = self._num(j, 0)
            c.apps['LFP%d' % j] = self._num(j, 1)
        c.apps['ISS'] = self._iss

    def lams(self, tens):
        out = []
        for t in tens:
            vs = [bvar('a', s) for s in t.shape]
            out.append(tm.lam(vs, t.at(*vs)))
        return out

    def leap(self, q, p, eps, m, n):
        """positions and momenta after n steps (n: int term, scalar)"""
        if tm.isc(n, 0):
            return list(q), list(p)
        L = self.lams(list(q) + list(p) + list(m))
        Q = [Ten(x.shape, lambda *i, j=j: tm.app('LFQ%d' % j, (n, eps.at()) + i, L), x.dtype) for j, x in enumerate(q)]
        P = [Ten(x.shape, lambda *i, j=j: tm.app('LFP%d' % j, (n, eps.at()) + i, L), x.dtype) for j, x in enumerate(q)]
        if tm.isc(n) and tm.cval(n) <= 3:
            # without a loop contract: the n steps written out
            eq, ep = list(q), list(p)
            for _ in range(int(tm.cval(n))):
                eq, ep = self.step(eq, ep, eps, m)
            pick = lambda a, b: Ten(a.shape, lambda *i: (b if self.expand else a).at(*i), a.dtype)
            Q, P = [pick(a, b) for a, b in zip(Q, eq)], [pick(a, b) for a, b in zip(P, ep)]
        if n is self.full:
            # the code leaves the last step out of the loop: step(n) unfolded once (n >= 1)
            eq, ep = self.step(*(self.leap(q, p, eps, m, tm.add(n, ival(-1))) + (eps, m)))
            last = lambda a, b: Ten(a.shape, lambda *i: (b if self.unfold else a).at(*i), a.dtype)
            Q, P = [last(a, b) for a, b in zip(Q, eq)], [last(a, b) for a, b in zip(P, ep)]
        return Q, P

    def kick(self, q, p, e):
        return [add(p[j], mul(e, self.lj.grad(j, q))) for j in range(len(q))]

    def drift(self, q, p, e, m):
        return [add(q[j], mul(e, div(p[j], m[j]))) for j in range(len(q))]

    def step(self, q, p, eps, m):
        h = mul(k(.5), eps)
        ph = self.kick(q, p, h)
        q1 = self.drift(q, ph, eps, m)
        return q1, self.kick(q1, ph, h)

    def energy(self, q, p, m):
        n = self.lj.nchain
        kin = None
        for x, y in zip(p, m):
            s = tn.reduce(div(sq(x), y), list(range(n, x.rank)), False, 'sum')
            kin = s if kin is None else add(kin, s)
        lp = self.lj.value(q)
        return sub(mul(k(.5), kin), lp), lp

    def accept(self, q, p, q1, p1, m):
        h0, l0 = self.energy(q, p, m)
        h1, l1 = self.energy(q1, p1, m)
        acc = E(lambda a, b: tm.exp(tm.tmin(tm.sub(a, b), const(0))), h0, h1)
        return h0, h1, l0, l1, acc

    def search(self, q, p, eps0, m, target):
        """step size found by the initial search"""
        L = self.lams(list(q) + list(p) + list(m))
        return Ten([], lambda: tm.app('ISS', (eps0.at(), target.at()), L), 'float32')

    # --------------------------------------------------------- numbers
    def _arr(self, lams):
        K = len(self.lj.names)
        sh = list(self.lj.shapes) * 2 + self.dshapes
        a = [np.array([l(*ix) for ix in np.ndindex(*s)], float).reshape(s) for l, s in zip(lams, sh)]
        return a[:K], a[K:2 * K], a[2 * K:]

    def nstep(self, q, p, e, m):
        R = range(len(q))
        p = [p[j] + e / 2 * self.lj._g64(j, q) for j in R]
        q = [q[j] + e * p[j] / m[j] for j in R]
        p = [p[j] + e / 2 * self.lj._g64(j, q) for j in R]
        return q, p

    def _num(self, j, which):
        def f(args, lams, env):
            q, p, m = self._arr(lams)
            key = (int(args[0]), float(args[1])) + tuple(x.tobytes() for x in q + p + m)
            r = self._memo.get(key) if hasattr(self, '_memo') else None
            if r is None:
                for _ in range(int(args[0])):
                    q, p = self.nstep(q, p, float(args[1]), m)
                if not hasattr(self, '_memo') or len(self._memo) > 2000:
                    self._memo = {}
                r = self._memo[key] = (q, p)
            return float(r[which][j][tuple(int(i) for i in args[2:])])
        return f

    def nH(self, q, p, m):
        n = self.lj.nchain
        kin = sum(np.sum(x * x / y, axis=tuple(range(n, np.ndim(x)))) for x, y in zip(p, m))
        return 0.5 * kin - self.lj._f64(q)

    def nacc(self, q, p, s, m):
        q1, p1 = self.nstep(q, p, s, m)
        with np.errstate(all='ignore'):
            a = np.exp(np.minimum(self.nH(q, p, m) - self.nH(q1, p1, m), 0))
        return float(np.mean(np.where(np.isfinite(a), a, 0.)))

    def _iss(self, args, lams, env):
        q, p, m = self._arr(lams)
        s, tg = float(args[0]), float(args[1])
        last = 1.0
        for _ in range(200):
            a = self.nacc(q, p, s, m)
            ns = s / 1.5 if a < tg else s * 1.5
            if (last < tg) != (a < tg):
                return ns
            s, last = ns, a
        return s

    # --------------------------------------------------------- loop contracts
    def _same(self, a, b):
        if a.rank != b.rank:
            return False
        idx = []
        for s, t in zip(a.shape, b.shape):
            if not tn.same(s, t):
                return False
            idx.append(ival(0) if tm.isc(s, 1) else bvar('i', s))
        f = self.c.facts.copy()
        for v in idx:
            if v.op == 'v':
                f.vbound[v] = VB[v]
        try:
            return prove_eq(a.at(*idx), b.at(*idx), f, timeout=20.).ok
        except Exception:
            return False

    def rule(self, ev, L, init):
        sorts = [x.dtype for x in init]
        if any(s == 'bool' for s in sorts):
            return self.search_rule(ev, L, init)
        if sum(s.startswith('int') for s in sorts) == 1:
            return self.leap_rule(ev, L, init)
        return None

    def consts(self, ev, L, ch, known):
        """loop-invariant values: known ones become arbitrary symbols"""
        for o in ev_enters(L):
            try:
                outer = ev.ten(o.inputs[0])
            except Unsupported:
                continue
            for want, sym in known:
                if want is not None and outer.rank == want.rank and outer.dtype == want.dtype and self._same(outer, want):
                    ch.inputs[o.outputs[0].name] = sym
                    break

    def roles(self, init, q, p):
        fl = [i for i, x in enumerate(init) if x.dtype.startswith('float')]
        K = len(q)
        if len(fl) != 2 * K:
            return None
        qi = []
        for x in q:
            m = [i for i in fl if i not in qi and self._same(init[i], x)]
            if not m:
                return None
            qi.append(m[0])
        rest = [i for i in fl if i not in qi]
        pi = []
        for x in p:
            m = [i for i in rest if i not in pi and self._same(init[i], x)]
            pi.append(m[0] if m else None)
        if any(i is None for i in pi):
            pi = rest
        return qi, pi

    def _msym(self, m, sm, j):
        """an arbitrary mass (the same one where the masses are the same)"""
        for i in range(j):
            if self._same(m[i], m[j]):
                return sm[i]
        return Ten(m[j].shape, lambda *i: tm.rd('lf:m%d' % j, i), 'float32')

    def direction(self, ev, L, init, ii, it):
        """-1 for a counter that goes down by one, else 1 (the invariant obligations check it)"""
        try:
            vals = list(init)
            vals[ii] = Ten([], lambda: it, init[ii].dtype)
            ch = ev.child(L, vals)
            nxt = ch.ten(L.nexts[ii].inputs[0])
            f = self.c.facts.copy()
            f.tprop['lf:i'] = {'nonneg', 'int'}
            if prove_eq(nxt.at(), tm.add(it, ival(-1)), f, timeout=20.).ok:
                return -1
        except Exception:
            pass
        return 1

    def leap_rule(self, ev, L, init):
        c = self.c
        q, p, m, eps, n = c.sq, c.sp, c.sm, c.seps, c.sn
        r = self.roles(init, q, p)
        if r is None:
            self.expand = True
            return None
        qi, pi = r
        ii = [i for i, x in enumerate(init) if x.dtype.startswith('int')][0]
        i0 = init[ii].at()
        K = len(q)
        f = c.facts.copy()
        f.tprop['lf:e'] = {'pos'}
        f.tprop['lf:i'] = {'nonneg', 'int'}
        se = Ten([], lambda: tm.rd('lf:e', ()), 'float32')
        sm, A, B = [], [], []
        for j in range(K):
            f.tprop['lf:m%d' % j] = {'pos'}
            sm.append(self._msym(m, sm, j))
            A.append(Ten(q[j].shape, lambda *i, j=j: tm.rd('lf:a%d' % j, i), 'float32'))
            B.append(Ten(q[j].shape, lambda *i, j=j: tm.rd('lf:b%d' % j, i), 'float32'))
        it = tm.rd('lf:i', (), 'I')
        half = mul(k(.5), se)
        kick = lambda a, b: self.kick(a, b, half)
        A1, B1 = self.step(A, B, se, sm)
        Bh, B1h = kick(A, B), kick(A1, B1)
        N = n.at()
        one, zero = ival(1), ival(0)
        d = self.direction(ev, L, init, ii, it)
        count_at = lambda k_: tm.add(i0, tm.mul(ival(d), k_))
        # candidate invariants: state at iteration it (0-based) in terms of the trajectory (A, B) = step j
        #   (name, number of iterations, cases: (guard, counter, state before, state after))
        cands = [
            ('half kick merged into n+1 iterations', tm.add(N, one), lambda: [
                (tm.eq(it, zero), (A, B), (A, Bh)),
                (tm.tand(tm.le(one, it), tm.lt(it, N)), (A, Bh), (A1, B1h)),
                (tm.eq(it, N), (A, Bh), (A1, B1))], (q, p)),
            ('whole steps, n iterations', N, lambda: [
                (tm.tand(tm.le(zero, it), tm.lt(it, N)), (A, B), (A1, B1))], (q, p)),
            ('momentum half a step ahead, n iterations', N, lambda: [
                (tm.tand(tm.le(zero, it), tm.lt(it, N)), (A, Bh), (A1, B1h))], (q, self.kick(q, p, mul(k(.5), eps)))),
            ('momentum half a step ahead, n-1 iterations', tm.add(N, ival(-1)), lambda: [
                (tm.tand(tm.le(zero, it), tm.lt(it, tm.add(N, ival(-1)))), (A, Bh), (A1, B1h))], (q, self.kick(q, p, mul(k(.5), eps)))),
        ]
        for name, count, cases, start in cands:
            obls = []

            def check(what, code, spec, guard=None):
                o = c.obl('leapfrog loop (%s): %s' % (name, what))
                c.obls.pop()
                o.kind = 'loop-invariant'
                if guard is not None:
                    code = Ten(code.shape, lambda *i, x=code: tm.ite(guard, x.at(*i), zero_of(x)), code.dtype)
                    spec = Ten(spec.shape, lambda *i, x=spec: tm.ite(guard, x.at(*i), zero_of(x)), spec.dtype)
                c._prove_ten(o, code, spec, f.copy())
                obls.append(o)
                return o.status == 'proved'
            try:
                ok = all(check('position %d at entry' % j, init[qi[j]], start[0][j]) for j in range(K)) and \
                    all(check('momentum %d at entry' % j, init[pi[j]], start[1][j]) for j in range(K))
                for g, before, after in cases():
                    if not ok:
                        break
                    vals = list(init)
                    vals[ii] = Ten([], lambda: count_at(it), init[ii].dtype)
                    for j in range(K):
                        vals[qi[j]], vals[pi[j]] = before[0][j], before[1][j]
                    ch = ev.child(L, vals)
                    self.consts(ev, L, ch, [(eps, se)] + list(zip(m, sm)))
                    gname = tm.show(g)
                    ok = check('continues exactly while steps remain', Ten([], lambda: ch.ten(L.cond.inputs[0]).at(), 'bool'),
                               Ten([], lambda: tm.lt(it, count), 'bool'), tm.le(it, count))
                    ok = ok and check('counter, case %s' % gname, ch.ten(L.nexts[ii].inputs[0]),
                                      Ten([], lambda: count_at(tm.add(it, one)), init[ii].dtype), g)
                    for j in range(K):
                        ok = ok and check('position %d, case %s' % (j, gname), ch.ten(L.nexts[qi[j]].inputs[0]), after[0][j], g)
                        ok = ok and check('momentum %d, case %s' % (j, gname), ch.ten(L.nexts[pi[j]].inputs[0]), after[1][j], g)
            except Unsupported:
                ok = False
            if not ok:
                c.note('leapfrog invariant "%s" not established: %s' % (
                    name, obls[-1].name + ' ' + obls[-1].detail if obls else ''))
                continue
            c.obls.extend(obls)
            last = name == cands[3][0]
            Q, P = self.leap(q, p, eps, m, count if last else N)
            if last:
                self.unfold = True
            if name in (cands[2][0], cands[3][0]):
                P = self.kick(Q, P, mul(k(.5), eps))
            out = list(init)
            out[ii] = Ten([], lambda: count_at(count), init[ii].dtype)
            for j in range(K):
                out[qi[j]], out[pi[j]] = Q[j], P[j]
            return out
        self.expand = True
        return None

    def search_rule(self, ev, L, init):
        """[step size, last acceptance, go on]"""
        c = self.c
        q, p, m, tg = c.sq, c.sp, c.sm, c.star
        bi = [i for i, x in enumerate(init) if x.dtype == 'bool']
        fl = [i for i, x in enumerate(init) if x.dtype.startswith('float')]
        if len(bi) != 1 or len(fl) != 2 or len(init) != 3:
            return None
        si = [i for i in fl if self._same(init[i], c.seps0)]
        if not si:
            return None
        si, bi = si[0], bi[0]
        li = [i for i in fl if i != si][0]
        f = c.facts.copy()
        f.tprop['ss:s'] = {'pos'}
        f.tprop['ss:t'] = {'unit'}
        f.tprop['ss:x'] = {'nonneg'}
        ss = Ten([], lambda: tm.rd('ss:s', ()), 'float32')
        st = Ten([], lambda: tm.rd('ss:t', ()), 'float32')
        # an acceptance rate at or above the target: target + x
        sl = Ten([], lambda: tm.add(tm.rd('ss:t', ()), tm.rd('ss:x', ())), 'float32')
        K = len(q)
        sm = []
        for j in range(K):
            sm.append(self._msym(m, sm, j))
        sp = [Ten(p[j].shape, lambda *i, j=j: tm.rd('lf:p%d' % j, i), 'float32') for j in range(K)]
        for j in range(K):
            f.tprop['lf:m%d' % j] = {'pos'}
        obls = []

        def check(what, code, spec):
            o = c.obl('step-size search: %s' % what)
            c.obls.pop()
            o.kind = 'loop-invariant'
            c._prove_ten(o, code, spec, f.copy())
            obls.append(o)
            return o.status == 'proved'
        tt = lambda v: Ten([], lambda: v, 'bool')
        try:
            vals = list(init)
            vals[si], vals[li], vals[bi] = ss, sl, tt(tm.TRUE)
            ch = ev.child(L, vals)
            self.consts(ev, L, ch, [(tg, st)] + list(zip(m, sm)) + list(zip(p, sp)))
            q1, p1 = self.step(q, sp, ss, sm)
            acc = mean(self.accept(q, sp, q1, p1, sm)[4])
            low = Ten([], lambda: tm.lt(acc.at(), st.at()), 'bool')
            c15 = const(3) if False else None
            nxt = cond(low, mul(ss, fc(1 / 1.5)), mul(ss, fc(1.5)))
            ok = check('starts with the search on', init[bi], tt(tm.TRUE)) and \
                check('starts from an acceptance rate of one', init[li], k(1)) and \
                check('goes on while told to', ch.ten(L.cond.inputs[0]), tt(tm.TRUE)) and \
                check('step size moves by a factor of 1.5', ch.ten(L.nexts[si].inputs[0]), nxt) and \
                check('remembers the acceptance rate', ch.ten(L.nexts[li].inputs[0]), acc) and \
                check('stops exactly when the rate first falls below the target', ch.ten(L.nexts[bi].inputs[0]),
                      E(tm.tnot, low))
            if ok:
                vals = list(init)
                vals[si], vals[li], vals[bi] = ss, sl, tt(tm.FALSE)
                ok = check('ends when told to', ev.child(L, vals).ten(L.cond.inputs[0]), tt(tm.FALSE))
        except Unsupported as e:
            c.note('step-size search: %s' % e)
            return None
        if not ok:
            c.note('step-size search invariant not established: %s %s' % (obls[-1].name, obls[-1].detail))
            return None
        c.obls.extend(obls)
        out = list(init)
        out[si] = self.search(q, p, c.seps0, m, tg)
        out[bi] = tt(tm.FALSE)
        out[li] = None
        return out


def zero_of(x):
    return tm.FALSE if x.dtype == 'bool' else (ival(0) if x.dtype.startswith('int') else const(0))


def ev_enters(L):
    g = L.cond.graph
    return [o for o in g.get_operations() if o.type in ('Enter', 'RefEnter') and o.get_attr('frame_name').decode() ==
            L.enters[0].get_attr('frame_name').decode() and o not in L.enters]


# ------------------------------------------------------------------ HMC cases
class HmcCase(StepCase):
    def __init__(self, *a, **kw):
        StepCase.__init__(self, *a, **kw)
        self.notes = []

    def note(self, s):
        self.notes.append(s)

    def ev(self):
        # the loop contracts in terms of the real momenta
        if getattr(self, 'full', None) is not None:
            self.sp, self.seps = self.full['p'], self.full['eps used']
        return StepCase.ev(self)


def pick(o, attr, own):
    v = getattr(o, attr, None)
    return v if isinstance(v, tf.Variable) else own[attr]


def documented(ret, names):
    if not isinstance(ret, (tuple, list)) or len(ret) != 2:
        raise Broken('HMC.sample returns %r, documented a pair' % (ret,))
    for a in ('samples', 'acceptance_rate', 'updated_step_size', 'init_momentum', 'orig_hamiltonian', 'hamiltonian', 'orig_log_prob',
              'log_prob'):
        if not hasattr(ret[1], a):
            raise Broken('the info returned by HMC.sample has no .%s' % a)
    for a in ('samples', 'init_momentum'):
        if not isinstance(getattr(ret[1], a), dict) or set(getattr(ret[1], a)) != set(names):
            raise Broken('info.%s is %r, documented a dictionary over the latent names' % (a, getattr(ret[1], a)))


def build(label, seed, tier, shapes, nchain, n=None, adapt=None, mass=None, form='f', hp=(), trials=None, slow=0., step_size=0.25):
    """n: None for an arbitrary n >= 1, or an int.  adapt / mass: None, 'ph' (fed switch) or a bool.
    hp: subset of gamma, t0, kappa, target_acceptance_rate, mass_collect_iters, mass_decay given as placeholders."""
    import zhusuan as zs
    c = HmcCase(label, seed, trials=trials or (4 if tier == 'quick' else 12))
    names = ['w%d' % i for i in range(len(shapes))]
    c.names = names
    dsh = [[1] * nchain + list(s[nchain:]) for s in shapes]
    lj = c.lj = LJ(c, names, shapes, nchain, slow=slow)
    d = c.dyn = Dyn(c, lj, dsh)
    kw, T = {}, {}
    dflt = dict(gamma=.05, t0=100., kappa=.75, target_acceptance_rate=.8, mass_collect_iters=10, mass_decay=.99)
    doms = dict(gamma='pos', t0='pos', kappa='pos', target_acceptance_rate='unit', mass_collect_iters='count', mass_decay='unit')
    hp = dict(hp) if not isinstance(hp, (list, tuple)) else {x: 'ph' for x in hp}
    with c.graph.as_default():
        if n is None:
            kw['n_leapfrogs'] = c.intph('n_leapfrogs', 'NL', lo=1)
            c.sn = c.ten('n_leapfrogs')
        else:
            kw['n_leapfrogs'] = n
            c.sn = ic(n)
        for h, v in dflt.items():
            if hp.get(h) == 'ph':
                kw[h] = c.ph(h, [], 'int32' if h == 'mass_collect_iters' else 'float32', doms[h])
                T[h] = c.ten(h)
            else:
                if h in hp:
                    kw[h] = v = hp[h]
                T[h] = ic(v) if h == 'mass_collect_iters' else fc(v)
        for sw, val in (('adapt_step_size', adapt), ('adapt_mass', mass)):
            if val == 'ph':
                kw[sw] = c.ph(sw, [], 'bool', 'bool')
                T[sw] = c.ten(sw)
            elif val is not None:
                kw[sw] = val
                T[sw] = Ten([], lambda val=val: tm.TRUE if val else tm.FALSE, 'bool')
        vs = [tf.Variable(tf.zeros(s), name=nm) for nm, s in zip(names, shapes)]
        c.qs = vs
        b0 = list(tf.global_variables())
        h = c.hmc = zs.HMC(step_size=step_size, **kw)
        own = {v.op.name.split('/')[-1]: v for v in tf.global_variables() if v not in b0}
        c.xobs = tf.placeholder(tf.float32, [None], name='xobs')
        before = list(tf.global_variables())
        ret = h.sample(lj if form == 'f' else Duck(lj), {'x': c.xobs}, dict(zip(names, vs)))
        documented(ret, names)
        c.sample_op, c.info = ret
        new = [v for v in tf.global_variables() if v not in before]
    i = c.info
    fs = [c.sample_op] + list(i.samples.values()) + [i.acceptance_rate, i.updated_step_size] + \
        list(i.init_momentum.values()) + [i.orig_hamiltonian, i.hamiltonian, i.orig_log_prob, i.log_prob]
    c.begin(fs)
    c.T, c.adapt, c.mass, c.step0 = T, adapt, mass, step_size
    c.loop_rule = d.rule
    c.vt, c.veps = pick(h, 't', own), pick(h, 'step_size', own)
    c.facts.tprop['var:' + c.vt.op.name] = {'nonneg', 'int'}
    c.facts.tprop['var:' + c.veps.op.name] = {'pos'}
    mci = T['mass_collect_iters']
    c.vdom[c.vt.op.name] = lambda rng, sh, tr: np.asarray([3., 0., 9., 4., 8., 10., 1., 2.][tr % 8])
    c.vdom[c.veps.op.name] = lambda rng, sh, tr: np.asarray([.2, .5, .05, .35][tr % 4])
    if mass is not None:
        sc = [v for v in new if v.get_shape().ndims == 0]
        me = [v for v in new if v.op.name.split('/')[-1].split('_')[0] == 'mean']
        va = [v for v in new if v.op.name.split('/')[-1].split('_')[0] == 'var']
        te = [v for v in new if v.op.name.split('/')[-1].split('_')[0] == 't'] or sc
        K = len(names)
        if len(me) != K or len(va) != K:
            r = [v for v in new if v is not te[0]]
            me, va = r[:K], r[K:2 * K]
        c.vet, c.vmean, c.vvar = te[0], me, va
        c.facts.tprop['var:' + c.vet.op.name] = {'nonneg', 'int'}
        c.vdom[c.vet.op.name] = lambda rng, sh, tr: np.asarray([2., 0. if many else 3., 5., 1.][tr % 4])
        many = int(np.prod([1] + list(shapes[0][:nchain]))) > 1
        for v in va:
            c.facts.tprop['var:' + v.op.name] = {'pos'}
            c.vdom[v.op.name] = lambda rng, sh, tr: np.exp(.3 * rng.normal(size=sh))
    if adapt is not None:
        tu = getattr(h, 'step_size_tuner', None)
        c.vstep, c.vleb, c.vhb = pick(tu, 'step', own), pick(tu, 'log_epsilon_bar', own), pick(tu, 'h_bar', own)
        c.facts.tprop['var:' + c.vstep.op.name] = {'nonneg', 'int'}
        c.vdom[c.vhb.op.name] = lambda rng, sh, tr: .02 * rng.normal(size=sh)
        c.vdom[c.vstep.op.name] = lambda rng, sh, tr: np.asarray([2., 0., 7., 1.][tr % 4])
    return c


def spec(c, cutp=False, cutacc=False):
    """The specified state after the step; binds the tensors the loop contracts need.
    cutp / cutacc: in terms of arbitrary initial momenta / acceptance rates."""
    T, d = c.T, c.dyn
    s = c.S = {}
    K = range(len(c.names))
    nch = c.lj.nchain
    q = c.sq = [c.vten(v) for v in c.qs]
    t = c.vten(c.vt)
    t1 = s['t'] = Ten([], lambda: tm.add(t.at(), const(1)), 'float32')
    ti = lambda: tm.toI(t1.at())
    mci = T['mass_collect_iters'] if c.mass is not None else ic(0)
    # mass
    if c.mass is None:
        m = [Ten([ival(x) for x in sh], lambda *i: const(1), 'float32') for sh in c.dyn.dshapes]
    else:
        A, dec = T['adapt_mass'], T['mass_decay']
        et = c.vten(c.vet)
        e1 = add(et, k(1))
        w = div(sub(k(1), dec), sub(k(1), E(tm.powt, dec, e1)))
        s['ewmv t'] = cond(A, e1, et)
        m = []
        for j in K:
            me, va = c.vten(c.vmean[j]), c.vten(c.vvar[j])
            inc = mul(w, sub(q[j], me))
            me1 = add(me, mean(inc, list(range(nch)), True))
            va1 = add(mul(sub(k(1), w), va), mean(mul(inc, sub(q[j], me1)), list(range(nch)), True))
            s['mean', j] = cond(A, me1, me)
            s['var', j] = cond(A, va1, va)
            early = Ten([], lambda: tm.lt(ti(), mci.at()), 'bool')
            m.append(cond(early, Ten(va.shape, lambda *i: const(1), 'float32'), div(k(1), s['var', j])))
    c.sm = m
    # momentum: which draw belongs to which latent
    p = []
    if not hasattr(c, 'pnoise'):
        c.pnoise = []
        for j in K:
            dr = draws(c.ev().fetch(c.info.init_momentum[c.names[j]]))
            c.pnoise.append(dr[0] if len(dr) == 1 else 'noise:?')
    for j in K:
        nm = c.pnoise[j]
        z = Ten(q[j].shape, lambda *i, nm=nm: tm.rd(nm, i), 'float32')
        p.append(mul(z, sqrt(m[j])) if not cutp else Ten(q[j].shape, lambda *i, j=j: tm.rd('cut:p%d' % j, i), 'float32'))
    c.sp = s['p'] = p
    eps0 = c.seps0 = c.vten(c.veps)
    c.star = T['target_acceptance_rate']
    init = Ten([], lambda: tm.tor(tm.eq(t1.at(), const(1)), tm.eq(ti(), mci.at())), 'bool')
    if c.adapt is None:
        eps = eps0
    else:
        eps = cond(init, d.search(q, p, eps0, m, c.star), eps0)
    c.seps = s['eps used'] = eps
    d.full = c.sn.at()
    q1, p1 = d.leap(q, p, eps, m, d.full)
    h0, h1, l0, l1, acc = d.accept(q, p, q1, p1, m)
    if cutacc:
        acc = Ten(acc.shape, lambda *i: tm.rd('cut:acc', i), 'float32')
    us = [o for o in c.hb.order if o.type == 'RandomUniform']
    c.unoise = us
    un = 'noise:' + us[0].name if len(us) == 1 else 'noise:?'
    u = Ten(acc.shape, lambda *i: tm.rd(un, i), 'float32')
    take = Ten(acc.shape, lambda *i: tm.lt(u.at(*i), acc.at(*i)), 'bool')
    s['q'] = [where(take, q1[j], q[j]) for j in K]
    s['h0'], s['h1'], s['l0'], s['acc'] = h0, h1, l0, acc
    s['l1'] = where(take, l1, l0)
    if c.adapt is None:
        s['eps'] = eps0
        return s
    B = T['adapt_step_size']
    fs = Ten([], lambda: tm.ite(init.at(), const(0), const(1)), 'float32')      # 1 - fresh start
    st, hb, leb = c.vten(c.vstep), c.vten(c.vhb), c.vten(c.vleb)
    s1 = add(mul(fs, st), k(1))
    r1 = div(k(1), add(s1, T['t0']))
    a = mean(acc)
    hb1 = add(mul(mul(fs, sub(k(1), r1)), hb), mul(r1, sub(T['target_acceptance_rate'], a)))
    mu = fc(10 * c.step0)
    le = sub(mu, mul(div(sqrt(s1), T['gamma']), hb1))
    rate = E(lambda x, y: tm.powt(x, tm.neg(y)), s1, T['kappa'])
    leb1 = add(mul(rate, le), mul(mul(fs, sub(k(1), rate)), leb))
    s['step'] = cond(B, s1, st)
    s['h_bar'] = cond(B, hb1, hb)
    s['leb'] = cond(B, leb1, leb)
    s['eps'] = cond(B, exp(le), exp(leb))
    return s


def after_p(c):
    """Proofs from here on: initial momenta are arbitrary (their own value is a separate obligation)."""
    S = c.full = c.S
    ge = c.evaluator()
    i = c.info
    for j, n in enumerate(c.names):
        ge.inputs[i.init_momentum[n].name] = Ten(c.sq[j].shape, lambda *x, j=j: tm.rd('cut:p%d' % j, x), 'float32')
    c.S = spec(c, cutp=True)
    try:
        ge.fetch(i.hamiltonian)
    except Exception:
        pass
    if c.dyn.unfold or c.dyn.expand:
        # the trajectory is written another way: state the specification that way
        c.full = spec(c)
        c.S = spec(c, cutp=True)
    return c.S, ge


def after_acc(c):
    """... and acceptance rates are arbitrary numbers."""
    S = c.S
    sp, se = c.sp, c.seps
    ge = c.evaluator()
    c.facts.tprop['cut:acc'] = {'nonneg'}
    ge.inputs[c.info.acceptance_rate.name] = Ten(S['acc'].shape, lambda *x: tm.rd('cut:acc', x), 'float32')
    r = spec(c, cutp=True, cutacc=True)
    c.S = S
    return r, ge

"""Laws of samples: from the extracted sampling graph to the law of its output.

A noise operator's contract gives the joint law of its output array (i.i.d.
standard normal / uniform / ... elements).  For each distribution the sampled
term is shown to be a transformation of that array under which the law is the
one log_prob reports."""
from __future__ import annotations
import itertools
from . import terms as tm
from . import tensor as tn
from .terms import const, ival, isc, add, sub, mul, div, log, exp, neg
from .tensor import Ten, bidx
from .norm import Norm, bvar, VB
from .diff import deriv
from .prove import prove_eq
from . import smt

C = const


class NoMatch(Exception):
    pass


def reads(t):
    return tm.subterms(t, lambda x: x.op == 'rd' and isinstance(x.args[0], str) and x.args[0].startswith('noise:'))


def goal_idx(c, ten):
    idx = [ival(0) if isc(s, 1) else bvar('i', s) for s in ten.shape]
    for v in idx:
        if v.op == 'v':
            c.facts.vbound[v] = VB[v]
    return idx


class Prover(object):
    """Accumulates equalities of one obligation; all must be proved."""

    def __init__(self, c, ob):
        self.c, self.ob = c, ob
        self.goals = []
        self.used = {}
        self.regions = 0

    def eq(self, a, b, what, facts=None):
        r = prove_eq(a, b, facts or self.c.facts, label=what)
        if not r.ok:
            raise NoMatch('%s: %s' % (what, r.detail))
        ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
        smt.STATS['goals'] += len(r.goals)
        if any(ans.get(i) != ['unsat'] for i in range(len(r.goals))):
            raise NoMatch('%s: z3 did not confirm' % what)
        smt.STATS['discharged'] += len(r.goals)
        for k, v in r.used.items():
            self.used[k] = self.used.get(k, 0) + v
        self.regions += len(r.goals)

    def any(self, a, bs, what, facts=None):
        last = None
        for b in bs:
            try:
                return self.eq(a, b, what, facts)
            except NoMatch as e:
                last = e
        raise last

    def lemma(self, n):
        self.used[n] = self.used.get(n, 0) + 1


def canon_reads(c, t):
    """Distinct noise reads of t up to normal form of their indices."""
    N = Norm(c.facts)
    out = {}
    for r in reads(t):
        k = (r.args[0],) + tuple(N.nf(x).id for x in r.args[1:])
        out.setdefault(k, []).append(r)
    return [v for _, v in sorted(out.items(), key=lambda kv: kv[1][0].id)]


def injective(c, read, vs):
    """The index tuple of `read` determines all variables vs (mixed-radix argument)."""
    N = Norm(c.facts)
    for v in vs:
        N.nf(v)
    need = {v.args[0]: v for v in vs if not isc(VB[v], 1)}
    covered = set()
    for x in read.args[1:]:
        p = N.nf(x)
        W = {}
        ok = True
        for m, k in p.items:
            vv = [(a, e) for a, e in m if N.atoms[a].kind == 'v']
            rest = tuple((a, e) for a, e in m if N.atoms[a].kind != 'v')
            if not vv and not (p.free & set(need)):
                continue
            if not vv:
                if N._poly({rest: 1}).free & set(need):
                    ok = False
                continue
            if len(vv) != 1 or vv[0][1] != 1 or (N._poly({rest: 1}).free):
                ok = False
                break
            nm = N.atoms[vv[0][0]].data[0]
            W[nm] = N.padd(W.get(nm, N.ZERO), N.pscale(N._poly({rest: 1}), k))
        if not ok:
            continue
        # weights must be 1, N1, N1*N2, ...
        cur = N.ONE
        left = dict(W)
        while left:
            nxt = [n for n, w in left.items() if w is cur]
            if not nxt or nxt[0] not in need:
                break
            n = nxt[0]
            cur = N.pmul(cur, N.nf(VB[need[n]]))
            del left[n]
        if not left:
            covered |= set(W)
    missing = [n for n in need if n not in covered]
    return missing


def noise_of(c, read):
    for n in c.ev().noises:
        if n.name == read.args[0]:
            return n
    raise NoMatch('unknown noise')


def standard(noise, e, read):
    """log density of one element of a noise array, and the domain of e."""
    if noise.kind == 'normal':
        return neg(add(div(mul(e, e), C(2)), mul(C((1)), div(log(mul(C(2), tm.PI)), C(2))))), None
    if noise.kind == 'uniform':
        return C(0), 'unit'
    if noise.kind == 'gamma':
        a = noise.params['alpha']
        ai = read.args[1 + noise.params['nlead']:]
        al = a.at(*ai)
        return sub(sub(mul(sub(al, C(1)), log(e)), e), tm.lgamma(al)), 'pos'
    raise NoMatch('noise %s has no density contract' % noise.kind)


def breakpoints(g, e, dom, facts):
    """Constant points where sign/abs subterms of g change branch: [(point, [(term, arg, slope)])]."""
    out = {}
    N = Norm(facts)
    for t in tm.subterms(g, lambda x: x.op in ('sign', 'abs')):
        A = t.args[0]
        if e not in tm.subterms(A, lambda x: x is e):
            continue
        a0 = N.isconst(N.nf(tm.subst(A, {e: C(0)})))
        a1 = N.isconst(N.nf(tm.subst(A, {e: C(1)})))
        d = N.isconst(N.nf(deriv(A, e.args[0], [])))
        if a0 is None or d is None or d == 0 or a1 is None or a1 - a0 != d:
            raise NoMatch('kink at a non-constant point')
        k = -a0 / d
        if dom == 'unit' and not (0 < k < 1):
            continue
        out.setdefault(k, []).append((t, A, d))
    return sorted(out.items())


def change_of_variables(c, P, ten, logp_at, vs, idx):
    """One-dimensional law: logp(g(e)) + log|g'(e)| = log density of the noise, g' never zero."""
    a = ten.at(*idx)
    groups = canon_reads(c, a)
    if len(groups) != 1:
        raise NoMatch('%d noise reads in a scalar sampler' % len(groups))
    rs = groups[0]
    e = tm.rd('@e', [])
    g = tm.subst(a, {r: e for r in rs})
    noise = noise_of(c, rs[0])
    ld, dom = standard(noise, e, rs[0])
    f = c.facts.copy()
    f.tprop = dict(f.tprop)
    if dom:
        f.tprop['@e'] = {dom}
    bp = breakpoints(g, e, dom, f)
    if not bp:
        d = deriv(g, '@e', [])
        # the derivative must not vanish: log|0| = -inf would fail the equality
        P.eq(add(logp_at(g, idx), log(tm.tabs(d))), ld, 'change of variables', f)
        P.lemma('change_of_variables')
    elif len(bp) == 1 and dom == 'unit':
        # piecewise smooth: both sides of the kink, continuous there and monotone in one direction
        k, args = bp[0]
        v = tm.rd('@v', [])
        f.tprop['@v'] = {'unit'}
        ends, dirs = [], []
        for side in (-1, 1):
            m = {}
            for t, A, slope in args:
                sg = side if slope > 0 else -side
                m[t] = C(sg) if t.op == 'sign' else mul(C(sg), A)
            gs = tm.subst(g, m)
            ev = mul(C(k), v) if side < 0 else add(C(k), mul(C(1 - k), v))
            d = tm.subst(deriv(gs, '@e', []), {e: ev})
            gv = tm.subst(gs, {e: ev})
            P.eq(add(logp_at(gv, idx), log(tm.tabs(d))), ld, 'change of variables (piece %d)' % side, f)
            try:
                P.eq(tm.tabs(d), d, 'increasing', f)
                dirs.append(1)
            except NoMatch:
                P.eq(tm.tabs(d), neg(d), 'decreasing', f)
                dirs.append(-1)
            ends.append(tm.subst(gs, {e: C(k)}))
        P.eq(ends[0], ends[1], 'continuous at the kink', f)
        if dirs[0] != dirs[1]:
            raise NoMatch('sampler is not monotone')
        P.lemma('change_of_variables')
    else:
        raise NoMatch('%d kinks' % len(bp))
    miss = injective(c, rs[0], vs)
    if miss:
        raise NoMatch('draws share randomness: index map of %s ignores %s' % (rs[0].args[0], miss))


def categorical_read(c, P, read, Lparam, bi, K):
    """The categorical draw `read` has logits row equal (up to a constant) to Lparam at batch index bi."""
    noise = noise_of(c, read)
    if noise.kind != 'categorical':
        raise NoMatch('not a categorical draw')
    L = noise.params['logits']
    row = read.args[1]
    if isc(K) and tm.cval(K) <= 6:
        ks = [ival(j) for j in range(1, int(tm.cval(K)))]
    else:
        ks = [bvar('k', K)]
        c.facts.vbound[ks[0]] = K
    if not tn.same(L.shape[-1], K):
        P.eq(L.shape[-1], K, 'number of categories')
    for k in ks:
        P.eq(sub(L.at(row, k), L.at(row, ival(0))), sub(Lparam(bi, k), Lparam(bi, ival(0))), 'logits row')
    P.lemma('softmax_shift')


def law(c, P, b, ten, nlead):
    """Dispatch: proves the law of the sample tensor `ten` of distribution b.
    nlead = 1 if there is a leading sample axis."""
    name = b.name
    Pn = {a: c.ten(a) for a in b.args}
    nv = len(b.valshape)
    idx = goal_idx(c, ten)
    vs = [v for v in idx if v.op == 'v']
    nb = ten.rank - nlead - nv
    bi = idx[nlead:nlead + nb]
    a = ten.at(*idx)
    par = lambda n, extra=(): Pn[n].at(*(bidx(Pn[n].shape[:Pn[n].rank - len(extra)], bi) + list(extra)))

    def logp_at(g, i):
        from . import dists
        xs = Ten([], lambda: g, b.dtype)
        sv = {n: d for n, d in c.inputs.items()}
        c.inputs = dict(c.inputs)
        for n in b.args:
            c.inputs[n] = dict(sv[n], ten=Ten([], (lambda t: (lambda: t))(par(n)), b.dtype))
        c.inputs['x'] = dict(ten=xs)
        try:
            return dists.spec_logp(b).at()
        finally:
            c.inputs = sv

    def one_read(t, what='sample'):
        g = canon_reads(c, t)
        if len(g) != 1:
            raise NoMatch('%s uses %d draws' % (what, len(g)))
        return g[0][0]

    def inj(read, extra=()):
        miss = injective(c, read, vs + list(extra))
        if miss:
            raise NoMatch('draws share randomness: index map of %s ignores %s' % (read.args[0], miss))

    def sub_reads(t, what):
        """(noise name, all reads)"""
        rs = reads(t)
        nm = {r.args[0] for r in rs}
        if len(nm) != 1:
            raise NoMatch('%s uses %d noise arrays' % (what, len(nm)))
        return rs

    if name in ('Normal', 'Uniform', 'Laplace', 'BinConcrete', 'Gamma', 'InverseGamma'):
        change_of_variables(c, P, ten, logp_at, vs, idx)
        return
    if name == 'FoldNormal':
        r = one_read(a)
        if noise_of(c, r).kind != 'normal':
            raise NoMatch('noise kind')
        s = par('std') if 'std' in Pn else exp(par('logstd'))
        y = add(par('mean'), mul(s, r))
        P.any(a, [tm.tabs(y), tm.tabs(sub(par('mean'), mul(s, r)))], 'sample = |mean + std eps|')
        # density of |Y|
        x = tm.rd('@x', [])
        f = c.facts.copy()
        f.tprop = dict(f.tprop)
        f.tprop['@x'] = {'nonneg'}
        from .dists import normal_lp
        P.eq(exp(logp_at(x, idx)), add(exp(normal_lp(x, par('mean'), s)), exp(normal_lp(neg(x), par('mean'), s))),
             'density of |Y|', f)
        P.lemma('fold')
        inj(r)
        return
    if name == 'Bernoulli':
        r = one_read(a)
        n = noise_of(c, r)
        f = c.facts.copy()
        f.tprop = dict(f.tprop)
        p = div(C(1), add(C(1), exp(neg(par('logits')))))
        if n.kind == 'uniform':
            f.tprop[n.name] = {'unit'}
            q = sub(C(1), p)
            one, z = (C(1), C(0)) if ten.sort == 'R' else (ival(1), ival(0))
            P.any(a, [tm.ite(tm.lt(r, p), one, z), tm.ite(tm.le(r, p), one, z),
                      tm.ite(tm.lt(q, r), one, z), tm.ite(tm.le(q, r), one, z)], 'sample = [u < p]', f)
            P.lemma('threshold')
        elif n.kind == 'categorical':
            P.eq(a, tm.toR(r) if ten.sort == 'R' else r, 'sample')
            categorical_read(c, P, r, lambda b_, k: mul(tm.toR(k), par('logits')), bi, ival(2))
        else:
            raise NoMatch('noise kind')
        inj(r)
        return
    if name == 'Poisson':
        r = one_read(a)
        n = noise_of(c, r)
        if n.kind != 'poisson':
            raise NoMatch('noise kind')
        c.facts.tprop[n.name] = {'nonneg', 'int'}
        P.eq(tm.toR(a), tm.toR(r), 'sample = poisson draw')
        rate = n.params['rate']
        P.eq(rate.at(*r.args[1 + n.params['nlead']:]), par('rate'), 'rate')
        inj(r)
        return
    if name in ('Categorical', 'OnehotCategorical'):
        r = one_read(a)
        K = Pn['logits'].shape[-1]
        c.facts.tprop[r.args[0]] = {'nonneg', 'int'}
        c.facts.tbound[r.args[0]] = K
        if name == 'Categorical':
            P.eq(tm.toR(a), tm.toR(r), 'sample = category')
            inj(r)
        else:
            k = idx[-1]
            if k.op == 'v' and k in r.free:
                raise NoMatch('one-hot entries of one draw use different randomness')
            P.eq(tm.toR(a), tm.ite(tm.eq(r, k), C(1), C(0)), 'sample = one_hot(category)')
            miss = injective(c, r, [v for v in vs if v is not k])
            if miss:
                raise NoMatch('draws share randomness: %s' % miss)
        categorical_read(c, P, r, lambda b_, k: Pn['logits'].at(*(bidx(Pn['logits'].shape[:-1], b_) + [k])), bi, K)
        return
    if name in ('Binomial', 'Multinomial'):
        rs = sub_reads(a, 'sample')
        nm = rs[0].args[0]
        noise = noise_of(c, rs[0])
        if noise.kind != 'categorical':
            raise NoMatch('noise kind')
        K = noise.params['logits'].shape[-1]
        c.facts.tprop[nm] = {'nonneg', 'int'}
        c.facts.tbound[nm] = K
        n = ival(b.n_exp) if isinstance(b.n_exp, int) else tm.dim('NE')
        r = rs[0]
        bound = [s.args[0] for s in tm.subterms(a, lambda t: t.op == 'sum')]
        js = [v for v in r.free if v in bound]
        if isc(n, 1):
            j = None
            body = r
        else:
            if len(js) != 1:
                raise NoMatch('trials are not summed over one axis')
            j = bvar('j', n)
            c.facts.vbound[j] = n
            body = tm.subst(r, {js[0]: j})
        bs = (lambda t: t) if j is None else (lambda t: tm.mk('sum', (j, n, t), 'R'))
        if name == 'Binomial':
            P.any(tm.toR(a), [bs(tm.toR(body)), bs(tm.ite(tm.eq(body, ival(1)), C(1), C(0)))], 'sample = sum of trials')
            inj(body, [j] if j is not None else [])
            categorical_read(c, P, body, lambda b_, k: mul(tm.toR(k), par('logits')), bi, ival(2))
            P.lemma('binomial_sum')
        else:
            k = idx[-1]
            if k.op == 'v' and k in body.free:
                raise NoMatch('counts of one draw use different randomness')
            P.eq(tm.toR(a), bs(tm.ite(tm.eq(body, k), C(1), C(0))), 'sample = counts of the trials')
            miss = injective(c, body, [v for v in vs if v is not k] + ([j] if j is not None else []))
            if miss:
                raise NoMatch('draws share randomness: %s' % miss)
            categorical_read(c, P, body, lambda b_, k_: Pn['logits'].at(*(bidx(Pn['logits'].shape[:-1], b_) + [k_])),
                             bi, Pn['logits'].shape[-1])
            P.lemma('multinomial_sum')
        return
    if name == 'Beta':
        g = canon_reads(c, a)
        if len(g) != 2:
            raise NoMatch('beta sampler uses %d draws' % len(g))
        r1, r2 = g[0][0], g[1][0]
        if r1.args[0] == r2.args[0]:
            raise NoMatch('the two gammas share randomness')
        last = None
        for x, y in ((r1, r2), (r2, r1)):
            try:
                for r, p in ((x, 'alpha'), (y, 'beta')):
                    n = noise_of(c, r)
                    if n.kind != 'gamma':
                        raise NoMatch('noise kind')
                    c.facts.tprop[n.name] = {'pos'}
                    P.eq(n.params['alpha'].at(*r.args[1 + n.params['nlead']:]), par(p), 'gamma shape ' + p)
                P.eq(a, div(x, add(x, y)), 'sample = X/(X+Y)')
                inj(x)
                inj(y)
                P.lemma('gamma_ratio')
                return
            except NoMatch as e:
                last = e
        raise last
    if name == 'Dirichlet':
        rs = sub_reads(a, 'sample')
        n = noise_of(c, rs[0])
        if n.kind != 'gamma':
            raise NoMatch('noise kind')
        c.facts.tprop[n.name] = {'pos'}
        k = idx[-1]
        cand = [r for r in rs if k in r.free] or rs
        r = cand[0]
        K = Pn['alpha'].shape[-1]
        P.eq(n.params['alpha'].at(*r.args[1 + n.params['nlead']:]), par('alpha', [k]), 'gamma shape')
        P.eq(a, div(r, tm.big('sum', K, lambda q: tm.subst(r, {k: q}))), 'sample = X_k / sum X')
        inj(r)
        P.lemma('gamma_normalise')
        return
    if name in ('ExpConcrete', 'Concrete'):
        rs = sub_reads(a, 'sample')
        n = noise_of(c, rs[0])
        if n.kind != 'uniform':
            raise NoMatch('noise kind')
        c.facts.tprop[n.name] = {'unit'}
        k = idx[-1]
        r = ([r for r in rs if k in r.free] or rs)[0]
        K = Pn['logits'].shape[-1]
        t = Pn['temperature'].at()
        alts = []
        for u in (lambda r_: r_, lambda r_: sub(C(1), r_)):
            z = lambda q, u=u: div(sub(par('logits', [q]), log(neg(log(u(tm.subst(r, {k: q}) if k.op == 'v' else r))))), t)
            lse = log(tm.big('sum', K, lambda q: exp(z(q))))
            alts.append(sub(z(k), lse) if name == 'ExpConcrete' else exp(sub(z(k), lse)))
        P.any(a, alts, 'sample = softmax((logits + gumbel)/temperature)')
        inj(r)
        P.lemma('gumbel_softmax')
        return
    if name == 'MultivariateNormalCholesky':
        rs = sub_reads(a, 'sample')
        n = noise_of(c, rs[0])
        if n.kind != 'normal':
            raise NoMatch('noise kind')
        D = Pn['mean'].shape[-1]
        r = rs[0]
        q = bvar('q', D)
        bound = [s.args[0] for s in tm.subterms(a, lambda t: t.op == 'sum')]
        js = [v for v in r.free if v in bound]
        e = (lambda k: tm.subst(r, {js[0]: k})) if js else (lambda k: r)
        P.eq(a, add(par('mean', [idx[-1]]), tm.big('sum', D, lambda k: mul(par('cov_tril', [idx[-1], k]), e(k)))),
             'sample = mean + L eps')
        c.facts.vbound[q] = D
        miss = injective(c, e(q), [v for v in vs if v is not idx[-1]] + ([q] if not isc(D, 1) else []))
        if miss:
            raise NoMatch('draws share randomness: %s' % miss)
        P.lemma('gaussian_affine')
        return
    if name == 'MatrixVariateNormalCholesky':
        rs = sub_reads(a, 'sample')
        n = noise_of(c, rs[0])
        if n.kind != 'normal':
            raise NoMatch('noise kind')
        R, L = Pn['mean'].shape[-2:]
        r = rs[0]
        bound = [s.args[0] for s in tm.subterms(a, lambda t: t.op == 'sum')]
        js = sorted((v for v in r.free if v in bound), key=lambda v: v.id)
        last = NoMatch('noise index')
        # which bound variable runs over rows is decided by the equality
        rv = [v for v in js]
        for perm in itertools.permutations(rv):
            m = list(perm)
            e = lambda p, q: tm.subst(r, dict(zip(m, ([p] if not isc(R, 1) else []) + ([q] if not isc(L, 1) else []))))
            try:
                P.eq(a, add(par('mean', idx[-2:]), tm.big('sum', R, lambda p: tm.big('sum', L, lambda q: mul(
                    par('u_tril', [idx[-2], p]), e(p, q), par('v_tril', [idx[-1], q]))))), 'sample = M + U eps V^T')
                p_, q_ = bvar('p', R), bvar('q', L)
                c.facts.vbound[p_], c.facts.vbound[q_] = R, L
                ex = ([p_] if not isc(R, 1) else []) + ([q_] if not isc(L, 1) else [])
                miss = injective(c, e(p_, q_), [v for v in vs if v not in idx[-2:]] + ex)
                if miss:
                    raise NoMatch('draws share randomness: %s' % miss)
                P.lemma('gaussian_affine')
                return
            except NoMatch as x:
                last = x
        raise last
    raise NoMatch('no law contract for ' + name)

"""C18: AIS and effective sample size compute the estimators they name."""
import inspect
import itertools
import math
import time
import traceback
import numpy as np
from ..case import Case, Obl, js
from ..env import tf
from .. import terms as tm, tensor as tn, smt, npvc, lean
from ..npvc import Interp, Obj, State, ForAll, Raised
from ..terms import ival, const, T
from ..tensor import Ten, Unsupported
from ..norm import bvar, VB, Facts, Norm
from ..diff import deriv
from ..prove import prove_eq
from ..world import StepCase
from ..bnspec import ADist

FUNCTIONS = ['zhusuan.evaluation.AIS.__init__', 'zhusuan.evaluation.AIS.run', 'zhusuan.evaluation.AIS._get_schedule_t',
             'zhusuan.evaluation.AIS._map_t', 'zhusuan.evaluation.AIS._get_lower_bound',
             'zhusuan.diagnostics.effective_sample_size_1d', 'zhusuan.diagnostics.effective_sample_size']
ASSUMPTIONS = [
    'HMC.sample satisfies its contract (C12): running the sample op once at temperature T moves the latent variables from '
    'z to z\', orig_log_prob is log f_T(z) and log_prob is log f_T(z\').',
    'session.run evaluates the fetches of one call together and keeps variables between calls.',
    'n_temperatures >= 1, n_adapt >= 0; chains of at least 2 samples, not constant.',
    'The recorded known finding (lag 0 is counted) is excluded from the sample size contract by name.',
]


def discharge(o, r, extra=None):
    """status of obligation o from an Outcome r"""
    o.regions, o.used = len(r.regions), dict(r.used)
    if r.ok:
        ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
        smt.STATS['goals'] += len(r.goals)
        bad = [i for i in range(len(r.goals)) if ans.get(i) != ['unsat']]
        smt.STATS['discharged'] += len(r.goals) - len(bad)
        if bad:
            o.status, o.detail = 'unsupported', 'z3 did not confirm'
        else:
            o.status, o.backend, o.gv = 'proved', 'symbolic execution of the source, normal form + z3', len(r.goals)
    else:
        o.status, o.detail = ('differs' if r.status == 'differs' else 'unsupported'), r.detail
    return o.status == 'proved'


def goal(c, name, a, b, facts=None):
    o = c.obl(name)
    t0 = time.time()
    try:
        discharge(o, prove_eq(a, b, facts or c.facts, label=o.name))
    except Exception:
        o.status, o.detail = 'unsupported', traceback.format_exc(limit=-2)
    o.time_s = time.time() - t0
    return o


# ------------------------------------------------------------------ effective sample size
def rho_spec(X, n, t):
    """1 - (s2 - c_t) / v"""
    nr = tm.toR(n)
    S = lambda m, f: tm.big('sum', m, f)
    mu = tm.div(S(n, lambda i: X.at(i)), nr)
    dev = lambda i: tm.sub(X.at(i), mu)
    ss = S(n, lambda i: tm.mul(dev(i), dev(i)))
    s2 = tm.div(ss, tm.sub(nr, const(1)))
    v = tm.div(ss, nr)
    m = tm.sub(n, t)
    ct = tm.div(S(tn.simp(m), lambda i: tm.mul(dev(i), dev(tm.add(i, t)))), tm.toR(m))
    return tm.sub(const(1), tm.div(tm.sub(s2, ct), v))


def rho_num(x, t):
    n = len(x)
    mu = x.mean()
    ss = np.sum((x - mu) ** 2)
    return 1 - (ss / (n - 1) - np.mean((x[:n - t] - mu) * (x[t:] - mu))) / (ss / n)


def ess_num(x, start=1):
    s = 0.
    for t in range(start, len(x)):
        r = rho_num(x, t)
        if r < 0:
            break
        s += r
    return len(x) / (1 + 2 * s)


def near(x, start):
    """a decision close to zero: rounding decides"""
    return any(abs(rho_num(x, t)) < 1e-9 for t in range(start, len(x)))


def ess1(label, seed, tier):
    from zhusuan.diagnostics import effective_sample_size_1d as f
    c = Case(label, seed)
    start, bad = ess_start(f, tier)
    o0 = c.obl('equals n / (1 + 2 sum of autocorrelations) on sampled chains')
    o0.kind = 'runtime'
    if start is None:
        o0.status, o0.cex = 'refuted', bad
        o0.detail = 'effective sample size %r, specified %r' % (bad['got'], bad['want'])
        return c.obls
    o0.status, o0.numeric = 'bounded', bad
    ob = c.obl('the sum starts at lag 1')
    ob.kind = 'structural'
    if start == 1:
        ob.status, ob.backend = 'proved', 'see the contract below'
    else:
        x = np.random.RandomState(0).normal(size=40)
        ob.status = 'refuted'
        ob.detail = 'lag 0 is counted: %r for 40 independent samples, specified %r' % (float(f(x)), ess_num(x))
        ob.cex = dict(kind='value', inputs=dict(samples=x.tolist()), got=float(f(x)), want=ess_num(x))
    n = tm.dim('N')
    c.facts.dimlo['N'] = 2
    X = Ten([n], lambda i: tm.rd('x', (i,), 'R'), 'float64')
    try:
        it = Interp(facts=c.facts)
        paths = it.run(f, [X])
    except Unsupported as e:
        o = c.obl('source within the verified subset')
        o.status, o.detail, o.numeric = 'unsupported', str(e), 1
        return c.obls
    spec = lambda t: rho_spec(X, n, t)
    RHO = lambda t: tm.rd('rho', (t,), 'R')
    nsum = [0]

    def isrho(e, t):
        """e equals rho(t), proved"""
        r = prove_eq(e, spec(t), c.facts, label='rho')
        if r.ok:
            nsum[0] += 1
            discharge(c.obl('autocorrelation estimate #%d is 1 - (s2 - c_t) / v' % nsum[0]), r)
        return r.ok

    def sums(e):
        """sums over lags of rho(lag) -> sums over an arbitrary array rho (equal summands)"""
        if not isinstance(e, T):
            return e
        if e.op == 'sum':
            k, m, body = e.args
            if isrho(body, tm.add(k, ival(start))):
                return tm.mk('sum', (k, m, RHO(tm.add(k, ival(start)))), 'R')
            return e
        return tm.mk(e.op, tuple(sums(x) for x in e.args), e.sort)

    def cond(e, t):
        """comparison of rho(t) with zero, over the arbitrary array rho"""
        if e.op in ('not', 'and', 'or'):
            return tm.mk(e.op, tuple(cond(x, t) if isinstance(x, T) else x for x in e.args), e.sort)
        if e.op in ('lt', 'le'):
            d = tm.sub(*e.args)
            pos = tm.big('sum', n, lambda i: tm.square(tm.sub(X.at(i), tm.div(tm.big('sum', n, X.at), tm.toR(n)))))
            for sg in (1, -1):
                for f in (const(1), tm.div(pos, tm.toR(n)), pos):
                    if isrho(tm.div(tm.mul(const(sg), d), f), t):
                        r = tm.mul(const(sg), RHO(t))
                        return tm.mk(e.op, (r, const(0)), 'B')
            raise Unsupported('condition on %s' % tm.show(d)[:300])
        return e
    try:
        for s, v in paths:
            if isinstance(v, Raised):
                o = c.obl('no path raises')
                o.status, o.detail, o.numeric = 'unsupported', repr(v), 1
                continue
            fa = [p for p in s.pc if isinstance(p, ForAll)]
            pc = [p for p in s.pc if not isinstance(p, ForAll)]
            brk = 'exit' in s.ghost
            where = 'first negative lag' if brk else 'no negative lag'
            for h in fa:
                # the loop goes on exactly while the autocorrelation is not negative
                t = tm.add(h.var, ival(start))
                goal(c, '%s: the sum goes on exactly at non-negative lags' % where, ind(cond(h.cond, t)),
                     ind(tm.le(const(0), RHO(t))))
            if len(fa) != 1:
                raise Unsupported('loop conditions %s' % str(fa)[:200])
            if brk:
                k = s.ghost['exit']
                t = tm.add(k, ival(start))
                goal(c, '%s: the sum stops exactly there' % where, ind(cond(tm.tand(*pc), t)), ind(tm.lt(RHO(t), const(0))))
                cnt = k
            else:
                if pc:
                    raise Unsupported('path condition %s' % str(pc)[:200])
                cnt = tm.sub(n, ival(start))
            tot = tm.big('sum', tn.simp(cnt), lambda q: RHO(tm.add(q, ival(start))))
            goal(c, '%s: value' % where, sums(npvc.real(v)), tm.div(tm.toR(n), tm.add(const(1), tm.mul(const(2), tot))))
    except Unsupported as e:
        o = c.obl('source within the verified subset')
        o.status, o.detail, o.numeric = 'unsupported', str(e), 1
    soften(c, o0)
    return c.obls


def ind(b):
    return tm.ite(b, const(1), const(0))


def soften(c, num):
    """An open equality whose runtime comparison held is reported as bounded, not as a violation."""
    for o in c.obls:
        if o.status == 'differs' and num.status == 'bounded':
            o.status, o.numeric = 'unsupported', max(o.numeric, 1)


def chains(tier):
    rng = np.random.RandomState(3)
    for n in list(range(2, 14)) + [20, 33, 60] + ([150] if tier != 'quick' else []):
        for kind in range(6):
            e = rng.normal(size=n)
            if kind == 1:
                e = np.cumsum(e)
            elif kind == 2:
                for i in range(1, n):
                    e[i] = 0.8 * e[i - 1] + e[i]
            elif kind == 3:
                e = e * np.where(np.arange(n) % 2, -1, 1) + 3. * np.where(np.arange(n) % 2, -1, 1)
            elif kind == 4:
                e = np.repeat(e[:(n + 2) // 3], 3)[:n] + 100. + 1e-3 * e
            elif kind == 5:
                e = np.sin(np.arange(n) * 0.7) + 0.1 * e
            yield e


def ess_start(f, tier):
    ok = {0: True, 1: True}
    bad = None
    cnt = 0
    for x in chains(tier):
        got = float(f(x.copy()))
        for st in (0, 1):
            if near(x, 0):
                continue
            w = ess_num(x, st)
            cnt += 1
            if not abs(got - w) <= 1e-7 * max(1, abs(w)):
                ok[st] = False
                bad = dict(kind='value', inputs=dict(samples=x.tolist()), got=got, want=ess_num(x, 1))
    for st in (1, 0):
        if ok[st]:
            return st, cnt
    return None, bad


def ess2(label, seed, tier, burn):
    from zhusuan import diagnostics as dg
    c = Case(label, seed)
    f = dg.effective_sample_size
    f1 = dg.effective_sample_size_1d
    o0 = c.obl('is the smallest per-dimension value after the burn-in, on sampled arrays')
    o0.kind = 'runtime'
    rng = np.random.RandomState(5)
    for trial in range(24):
        d = trial % 5 + 1
        b = 100 if burn is None else burn
        m = b + [2, 3, 7, 20][trial % 4]
        x = rng.normal(size=(m, d))
        x[:b] = 50. * rng.normal(size=(b, d)) if b else x[:b]
        if trial % 3 == 0:
            x = np.cumsum(x, axis=0)
        got = f(x.copy()) if burn is None else f(x.copy(), burn_in=b) if trial % 2 else f(x.copy(), b)
        want = min(float(f1(x[b:, j])) for j in range(d))
        o0.numeric += 1
        if not abs(float(got) - want) <= 1e-9 * abs(want):
            o0.status = 'refuted'
            o0.detail = '%r, specified %r' % (got, want)
            o0.cex = dict(kind='value', inputs=dict(samples=x.tolist(), burn_in=b), got=float(got), want=want)
            return c.obls
    o0.status = 'bounded'
    # all shapes: against the contract of the one-dimensional function
    n, D, B = tm.dim('N'), tm.dim('D'), (ival(100) if burn is None else tm.dim('BB') if burn else ival(0))
    c.facts.dimlo.update(N=2, D=1, BB=0)
    X = Ten([tm.add(n, B), D], lambda i, j: tm.rd('x', (i, j), 'R'), 'float64')

    class Eff(object):
        def at_iteration(self, g, gs, k):
            return g

        def solve(self, g, gs, k):
            return 0

        def call(self, interp, st, fn, args, kw):
            if fn is f1:
                a = args[0]
                if not isinstance(a, Ten) or a.rank != 1 or kw:
                    raise Unsupported('call of effective_sample_size_1d')
                return [(st, ess_app(a))]
    c.facts.posrule = lambda N, p: '+' if is_ess(N, p) else None
    try:
        it = Interp(facts=c.facts, effects=Eff())
        paths = it.run(f, [X], {} if burn is None else {'burn_in': B})
        ok = [(s, v) for s, v in paths if not isinstance(v, Raised)]
        want = tm.neg(tm.big('rmax', D, lambda j: tm.neg(ess_app(Ten([n], lambda i: X.at(tm.add(i, B), j), 'float64')))))
        o = c.obl('no path raises (the one-dimensional value is positive)')
        o.status, o.numeric, o.backend = ('proved' if len(ok) == len(paths) == 1 else 'unsupported'), 1, 'path enumeration'
        o.detail = '' if o.status == 'proved' else str([(s.pc, v) for s, v in paths])[:300]
        for s, v in ok:
            goal(c, 'is the minimum over dimensions of the values after the burn-in', npvc.real(v), want)
    except Unsupported as e:
        o = c.obl('source within the verified subset')
        o.status, o.detail, o.numeric = 'unsupported', str(e), 1
    soften(c, o0)
    return c.obls


def ess_app(a):
    v = bvar('a', a.shape[0])
    return tm.app('ESS1', [a.shape[0]], [tm.lam([v], a.at(v))])


def is_ess(N, p):
    if len(p.items) != 1:
        return False
    m, k = p.items[0]
    return k > 0 and len(m) == 1 and N.atoms[m[0][0]].kind == 'APP' and N.atoms[m[0][0]].data[0] == 'ESS1'


# ------------------------------------------------------------------ annealed importance sampling
class StubHMC(object):
    def __init__(self):
        self.calls = []

    def sample(self, meta_bn, observed, latent):
        from zhusuan.hmc import HMCInfo
        self.calls.append((meta_bn, observed, latent))
        self.op = tf.no_op(name='sample_op')
        ps = [p for p in inspect.signature(HMCInfo).parameters]
        self.stats = {p: tf.placeholder(tf.float32, name='stat_' + p) for p in ps}
        self.info = HMCInfo(**self.stats)
        return self.op, self.info


NT, NA = 7919, 7877


def build(n=NT, adapt=NA, verbose=False):
    """A real AIS object around a stub sampler; the session is the only thing its run() talks to."""
    import zhusuan as zs
    from zhusuan.evaluation import AIS

    @zs.meta_bayesian_net(scope='m', reuse_variables=True)
    def model():
        bn = zs.BayesianNet()
        z = bn.normal('z', tf.zeros([2]), std=1., n_samples=2)
        bn.normal('x', z, std=1.)
        return bn

    @zs.meta_bayesian_net(scope='q', reuse_variables=True)
    def prop():
        bn = zs.BayesianNet()
        bn.normal('z', tf.zeros([2]), std=2., n_samples=2)
        return bn
    hmc = StubHMC()
    z = tf.Variable(tf.zeros([2, 2]), name='zvar')
    ais = AIS(model(), prop(), hmc, {'x': tf.zeros([2])}, {'z': z}, n_temperatures=n, n_adapt=adapt, verbose=verbose)
    return ais, hmc


class FakeSession(object):
    """Mock session: f_T(z_i) are arbitrary numbers, HMC moves from state to state."""

    def __init__(self, ais, hmc, user, shape, rng):
        self.ais, self.hmc, self.user, self.shape, self.rng = ais, hmc, user, shape, rng
        self.epoch, self.step, self.val = -1, 0, {}
        self.amp = 1.
        self.moves = []          # (temperature, state before, state after)
        self.trace = []
        self.err = None

    def F(self, temp, st):
        k = (float(temp),) + st
        if k not in self.val:
            self.val[k] = self.rng.normal(size=self.shape) * 3. * self.amp
        return self.val[k].copy()

    def run(self, fetches, feed_dict=None, **kw):
        flat = []

        def walk(f):
            if isinstance(f, (list, tuple)) and not hasattr(f, '_fields'):
                return [walk(x) for x in f]
            if isinstance(f, dict):
                return {k: walk(v) for k, v in f.items()}
            if hasattr(f, '_fields'):
                return type(f)(*[walk(x) for x in f])
            flat.append(f)
            return ('leaf', f)
        tree = walk(fetches)
        fd = dict(feed_dict or {})
        for k, v in self.user.items():
            if not any(k is q and fd[q] is v for q in fd):
                self.err = 'the caller\'s feed is not passed on'
        temp = None
        for k in fd:
            if k is self.ais.temperature:
                temp = fd[k]
        moving = any(f is self.hmc.op for f in flat)
        ini = any(any(f is g or getattr(g, 'op', None) is f or g is getattr(f, 'op', None) for g in self.ais.init_latent)
                  for f in flat)
        info = {id(v): n for n, v in self.hmc.stats.items()}
        before = (self.epoch, self.step)
        if ini:
            self.epoch, self.step = self.epoch + 1, 0
            self.trace.append(('init',))
            if moving:
                raise RuntimeError('initialised and moved together')
        if moving:
            self.step += 1
            if temp is None:
                raise RuntimeError('temperature not fed')
            self.moves.append((float(temp), before, (self.epoch, self.step)))
            self.trace.append(('move', float(temp)))
        after = (self.epoch, self.step)

        def val(t):
            if isinstance(t, tuple) and len(t) == 2 and t[0] == 'leaf':
                f = t[1]
                if f is self.hmc.op or any(f is g for g in self.ais.init_latent):
                    return None
                if id(f) in info:
                    nm = info[id(f)]
                    if not moving:
                        raise RuntimeError('sampler statistics fetched without a move')
                    if nm == 'orig_log_prob':
                        return self.F(temp, before)
                    if nm == 'log_prob':
                        return self.F(temp, after)
                    if nm == 'acceptance_rate':
                        return np.full(self.shape, 0.5)
                    return self.rng.normal(size=self.shape)
                if f is self.ais.log_fn_val:
                    if moving or ini:
                        raise RuntimeError('density and move in one call')
                    if temp is None:
                        raise RuntimeError('temperature not fed')
                    self.trace.append(('density', float(temp)))
                    return self.F(temp, after)
                return None
            if isinstance(t, list):
                return [val(x) for x in t]
            if isinstance(t, dict):
                return {k: val(v) for k, v in t.items()}
            return type(t)(*[val(x) for x in t])
        return val(tree)


def ais_spec(fs):
    """the estimator on the recorded chain of the last initialisation"""
    ms = [m for m in fs.moves if m[1][0] == fs.epoch]
    w, prev = 0., 0.
    for temp, a, b in ms:
        w = w + fs.F(temp, a) - fs.F(prev, a)
        prev = temp
    w = np.asarray(w, float)
    mx = np.max(w, axis=0)
    return float(np.mean(np.log(np.mean(np.exp(w - mx), axis=0)) + mx)), [m[0] for m in ms]


def temps_ok(ts, n):
    """strictly increasing from 0 to exactly 1 (also as float32, which is what is fed)"""
    if len(ts) != n:
        return '%d temperatures visited, %d configured' % (len(ts), n)
    a = [0.] + list(ts)
    if any(not x < y for x, y in zip(a, a[1:])):
        return 'temperatures not strictly increasing: %s' % a[:12]
    if np.float32(ts[-1]) != np.float32(1):
        return 'last temperature %r' % ts[-1]
    if abs(ts[-1] - 1.) > 1e-12:
        return 'last temperature %r' % ts[-1]
    return ''


def ais_runs(label, seed, tier, shape):
    """Bounded: the real run() against the mock session."""
    c = Case(label, seed)
    o = c.obl('returns the annealed importance estimate of the chain it ran (mock session)')
    o.kind = 'runtime'
    ot = c.obl('temperatures strictly increase from 0 to exactly 1 (float)')
    ot.kind = 'runtime'
    of = c.obl('the chain starts at a proposal sample drawn after adaptation, feeds are passed on')
    of.kind = 'runtime'
    ns = [1, 2, 3, 4, 7, 25] + ([100, 1000] if tier != 'quick' else [100])
    for n in ns:
        for na, wide in ((0, False), (1, False), (4, False), (0, True), (1, True)):
            for verbose in (False, True):
                with c.graph.as_default():
                    ais, hmc = build(n, na, verbose)
                    user = {tf.placeholder(tf.float32): object()}
                    fs = FakeSession(ais, hmc, dict(user), tuple(shape), np.random.RandomState(n + 10 * na))
                    if wide:    # log weights of very different magnitudes in one batch
                        fs.amp = 10. ** (4 * fs.rng.uniform(size=shape))
                    for again in range(2 if n < 10 else 1):     # the same object and session, a second time
                        try:
                            with quiet():
                                got = ais.run(fs, user)
                        except RuntimeError as e:
                            of.status, of.detail = 'refuted', str(e)
                            of.cex = dict(kind='protocol', n_temperatures=n, n_adapt=na, trace=fs.trace[:20], runs=again + 1)
                            return c.obls
                        want, ts = ais_spec(fs)
                        cfg = dict(n_temperatures=n, n_adapt=na, verbose=verbose, shape=shape, runs=again + 1)
                        o.numeric += 1
                        if np.shape(got) != () or not abs(float(got) - want) <= 1e-6 * max(1., abs(want)):
                            o.status = 'refuted'
                            o.detail = 'returned %r, the chain it ran gives %r' % (got, want)
                            o.cex = dict(kind='value', temperatures=ts[:20], got=float(np.mean(got)), want=want, **cfg)
                            return c.obls
                        bad = temps_ok(ts, n)
                        ot.numeric += 1
                        if bad:
                            ot.status, ot.detail, ot.cex = 'refuted', bad, dict(kind='schedule', temperatures=ts[:50], **cfg)
                            return c.obls
                        # fresh start: no move between the last initialisation and the first annealing step
                        ev = [t for t in fs.trace if t[0] != 'density']
                        li = max(i for i, t in enumerate(ev) if t[0] == 'init')
                        of.numeric += 1
                        if fs.err or len(ev) - li - 1 != n or not any(t == ('init',) for t in ev):
                            of.status = 'refuted'
                            of.detail = fs.err or 'annealing of %d steps starts %d steps after the proposal sample' % (
                                n, len(ev) - li - 1 - n)
                            of.cex = dict(kind='protocol', trace=fs.trace[:40], **cfg)
                            return c.obls
    for q in (o, ot, of):
        q.status = 'bounded'
    return c.obls


class quiet(object):
    def __enter__(self):
        import sys, io
        self.o, sys.stdout = sys.stdout, io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o


class Chain(object):
    """Effects of session.run for the symbolic execution: state z = (epoch, step)."""

    def __init__(self, self_obj, real, hmc, user, shape):
        self.o, self.real, self.hmc, self.user, self.shape = self_obj, real, hmc, user, shape
        self.token = Obj('session.run')
        self.bad = []

    def F(self, tau, z):
        e, s = z
        return Ten(self.shape, lambda *i: tm.app('F', [npvc.real(tau), ival(e), s] + list(i)), 'float64')

    # ghost: epoch (int), step (term), moved-temperature
    def at_iteration(self, g, c, k):
        g = dict(g)
        if c is None:
            g['step'] = tm.rd('g:step', (), 'I')
        else:
            g['step'] = tm.add(g['step'], tm.mul(ival(c), k))
        return g

    def solve(self, g, gs, k):
        cs = set()
        for x in gs:
            if x['epoch'] != g['epoch']:
                raise Unsupported('initialisation inside a loop')
            d = npvc.strip(x['step'], tm.rd('g:step', (), 'I'))
            if d is None or not tm.isc(d):
                raise Unsupported('chain step')
            cs.add(int(tm.cval(d)))
        if len(cs) != 1:
            raise Unsupported('chain step differs between paths')
        return cs.pop()

    def call(self, interp, st, f, args, kw):
        if f is not self.token:
            return None
        args = list(args)
        fetches = args[0] if args else kw['fetches']
        fd = args[1] if len(args) > 1 else kw.get('feed_dict')
        fd = fd or {}
        for k, v in self.user.items():
            if not any(k is q and fd[q] is v for q in fd):
                self.bad.append('the caller\'s feed is not passed on')
        tau = None
        for k in fd:
            if k is self.real.temperature:
                tau = fd[k]
        flat = []

        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
            else:
                flat.append(x)
        walk(fetches)
        moving = any(x is self.hmc.op for x in flat)
        ini = any(any(x is y for y in self.real.init_latent) for x in flat)
        info = {id(v): n for n, v in self.hmc.stats.items()}
        s = st.copy()
        z0 = (s.ghost['epoch'], s.ghost['step'])
        if ini and moving:
            raise Unsupported('initialised and moved together')
        if ini:
            s.ghost.update(epoch=s.ghost['epoch'] + 1, step=ival(0), since=0)
        if moving:
            s.ghost['step'] = tm.add(s.ghost['step'], ival(1))
            s.ghost['tau'] = npvc.real(tau)
        z1 = (s.ghost['epoch'], s.ghost['step'])

        def val(x):
            if isinstance(x, (list, tuple)):
                return [val(y) for y in x]
            if isinstance(x, dict):
                return {k: val(v) for k, v in x.items()}
            if x is self.hmc.op or any(x is y for y in self.real.init_latent):
                return None
            if id(x) in info:
                if not moving:
                    raise Unsupported('statistics without a move')
                nm = info[id(x)]
                if nm == 'orig_log_prob':
                    return self.F(tau, z0)
                if nm == 'log_prob':
                    return self.F(tau, z1)
                return Ten(self.shape, lambda *i: tm.rd('stat:' + nm, i, 'R'), 'float64')
            if x is self.real.log_fn_val:
                if moving or ini:
                    raise Unsupported('density and move in one call')
                return self.F(tau, z1)
            raise Unsupported('fetch %r' % (x,))
        return [(s, val(fetches))]


def ais_symbolic(label, seed, tier, shape, verbose):
    """run() for every number of temperatures and adaptation steps: loop contracts."""
    from zhusuan.evaluation import AIS
    c = Case(label, seed)
    c.facts.dimlo.update(N=1, NA=0)
    N, A = tm.dim('N'), tm.dim('NA')
    with c.graph.as_default():
        ais, hmc = build(NT, NA, verbose)
        user = {tf.placeholder(tf.float32): Obj('fed value')}
    sym = [tm.dim(x) for x in shape]
    so = Obj('self', _cls=AIS, **{k: (N if v is not True and isinstance(v, int) and v == NT else
                                      A if v is not True and isinstance(v, int) and v == NA else v)
                                 for k, v in ais.__dict__.items()})
    ch = Chain(so, ais, hmc, user, sym)
    sess = Obj('session', run=ch.token)
    found = {}

    def hook(interp, L, st, res, c1):
        out = {}
        conts = [r for r in res if r[0] in ('next', 'continue')]
        if L.exits or not conts:
            raise Unsupported('early exit')
        taus = {r[1].ghost.get('tau') for r in conts}
        for x, (init, d) in L.acc.items():
            if not isinstance(d, Ten) or d.rank != len(sym):
                continue
            if len(taus) != 1 or c1 != 1 or not tm.isc(L.lo):
                raise Unsupported('temperatures of the loop')
            if not tn.same(st.ghost['step'], ival(0)):
                raise Unsupported('moves between initialisation and annealing')
            tau = taus.pop()
            e = st.ghost['epoch']
            k, cnt = L.t, tn.simp(tm.sub(L.hi, L.lo))
            idx = [bvar('i', q) for q in sym]
            for v in idx:
                c.facts.vbound[v] = VB[v]
            T_ = lambda j: tm.subst(tau, {k: j})                # temperature of iteration j
            Fz = lambda ta, j: tm.app('F', [ta, ival(e), j] + idx)
            inc = lambda j, first: tm.sub(Fz(T_(j), j), Fz(const(0) if first else T_(tm.sub(j, ival(1))), j))
            dk = lambda j: tm.subst(d.at(*idx), {k: j})
            I = init if isinstance(init, Ten) else Ten([], lambda: npvc.real(init), 'float64')
            i0 = npvc.real(I.at(*tn.bidx(I.shape, idx)))
            kk = bvar('m', tm.sub(cnt, ival(2)))                # iterations 1 .. cnt-2
            c.facts.vbound[kk] = VB[kk]
            mid = tm.add(kk, ival(1))
            last = tm.sub(cnt, ival(1))
            F1, Fbig = c.facts.copy(), c.facts.copy()
            F1.dimlo = dict(c.facts.dimlo)
            Fbig.dimlo = dict(c.facts.dimlo, N=2)
            # invariant: W_j = sum_{i<j} inc_i - G_j,  W_cnt = sum inc
            for nm, G in (('log f_t(z_t) pending', lambda j: Fz(T_(tm.sub(j, ival(1))), j)), ('nothing pending', None)):
                g0 = Fz(const(0), ival(0)) if G else const(0)
                Gj = (lambda j: G(j)) if G else (lambda j: const(0))
                goals = [
                    ('holds initially', i0, tm.neg(g0), c.facts),
                    ('single step', sub1(dk(ival(0)), N, 1), sub1(tm.add(inc(ival(0), True), g0), N, 1), c.facts),
                    ('first step', dk(ival(0)), tm.sub(tm.add(inc(ival(0), True), g0), Gj(ival(1))), Fbig),
                    ('middle step', dk(mid), tm.sub(tm.add(inc(mid, False), Gj(mid)), Gj(tm.add(mid, ival(1)))), Fbig),
                    ('last step', dk(last), tm.add(inc(last, False), Gj(last)), Fbig)]
                rs = [(n_, prove_eq(a, b, f, label=n_), a, b, f) for n_, a, b, f in goals]
                if all(r[1].ok for r in rs):
                    for n_, r, a, b, f in rs:
                        discharge(c.obl('weight loop invariant (%s), %s' % (nm, n_)), r)
                    found['tau'] = (tau, k, cnt)
                    out[x] = Ten(sym, lambda *i: tm.rd('W', i, 'R'), 'float64')
                    break
            else:
                bad = [(n_, r.detail) for n_, r, a, b, f in rs if not r.ok]
                found.setdefault('why', str(bad)[:1500])
        return out
    num = c.obl('mock runs')
    num.kind = 'runtime'
    sub = ais_runs(label, seed, 'quick', [2] * len(shape))
    badn = [x for x in sub if x.status == 'refuted']
    if badn:
        num.status, num.detail, num.cex = 'refuted', badn[0].detail, badn[0].cex
    else:
        num.status, num.numeric = 'bounded', sum(x.numeric for x in sub)
    try:
        it = Interp(hooks={'loop': hook}, effects=ch, facts=c.facts)
        attrs = dict(so.__dict__)
        paths = it.run(AIS.run, [sess, user], st=State({}, (), dict(epoch=-1, step=ival(0))), self_obj=so)
        kept = set(attrs) == set(so.__dict__) and all(so.__dict__[k] is v for k, v in attrs.items())
        if not kept:
            raise Unsupported('run() changes the object')
        c.fact('frame: run() leaves the object as it was, so every run is a first run', True, '')
        if 'tau' not in found:
            raise Unsupported('weights: %s' % found.get('why'))
        c.fact('the caller\'s feed reaches every session call', not ch.bad, str(ch.bad[:3]))
        W = Ten(sym, lambda *i: tm.rd('W', i, 'R'), 'float64')
        lme = tn.elementwise(tm.log, tn.reduce(tn.elementwise(tm.exp, W), [0], False, 'mean'))
        want = tn.reduce(lme, list(range(lme.rank)), False, 'mean').at() if lme.rank else lme.at()
        for s, v in paths:
            o = goal(c, 'returns the mean of log mean weight over the first axis', npvc.real(v) if not isinstance(v, Ten)
                     else v.at(), want)
        tau, k, cnt = found['tau']
        schedule(c, tau, k, cnt, N)
    except Unsupported as e:
        o = c.obl('source within the verified subset')
        o.status, o.detail, o.numeric = 'unsupported', str(e), 1
    soften(c, num)
    return c.obls


def sub1(t, N, v):
    return subdim(t, 'N', v)


def subdim(t, name, v, memo=None):
    """replace a dimension by a constant"""
    memo = {} if memo is None else memo

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            if x.op == 'dim' and x.args[0] == name:
                r = ival(v)
            else:
                a = tuple(go(y) for y in x.args)
                r = x if all(p is q for p, q in zip(a, x.args)) else tm.mk(x.op, a, x.sort)
            memo[x] = r
        return r
    return go(t)


def realify(t, k, r):
    """t as a function of a real variable: k -> r, integer casts dropped"""
    if t is k:
        return r
    if not isinstance(t, T):
        return t
    if t.op == 'toR':
        return realify(t.args[0], k, r)
    if t.op == 'add':
        return tm.add(*[realify(x, k, r) for x in t.args])
    if t.op == 'mul':
        return tm.mul(*[realify(x, k, r) for x in t.args])
    if t.op == 'div':
        return tm.div(*[realify(x, k, r) for x in t.args])
    if t.op in ('exp', 'log', 'tanh', 'sigmoid'):
        return tm.f1(t.op, realify(t.args[0], k, r)) if t.op != 'exp' else tm.exp(realify(t.args[0], k, r))
    if t.op == 'pow':
        return tm.powt(*[realify(x, k, r) for x in t.args])
    if t.op == 'c':
        return const(t.args[0])
    if t.op == 'dim':
        return tm.toR(t)
    if k in t.free:
        raise Unsupported('schedule term %s' % t.op)
    return t


def schedule(c, tau, k, cnt, N):
    """tau_0 = 0 < tau_1 < ... < tau_N = 1."""
    c.fact('one temperature per iteration, N iterations', tn.same(cnt, N), 'iterations %s' % cnt)
    goal(c, 'the schedule formula is 0 before the first step', tm.subst(tau, {k: ival(-1)}), const(0), cfacts(c))
    goal(c, 'the last temperature is 1', tm.subst(tau, {k: tm.sub(cnt, ival(1))}), const(1), cfacts(c))
    o = c.obl('the temperature strictly increases with the step (positive derivative)')
    o.numeric = 1
    try:
        f = cfacts(c)
        r = tm.rd('T', (), 'R')
        d = deriv(realify(tau, k, r), 'T', [])
        Nm = Norm(f)
        p = Nm.nf(d)
        ok = Nm.is_pos(p)
        if not ok:
            # product of a positive constant and a positive factor
            mono, q, rest = Nm.content(p)
        o.status = 'proved' if ok else 'unsupported'
        o.detail = '' if ok else str(d)[:300]
        o.backend = 'symbolic derivative, positivity of its normal form'
        o.used = dict(Nm.used, strict_mono_of_deriv_pos=1)
    except Exception:
        o.status, o.detail = 'unsupported', traceback.format_exc(limit=-2)


def cfacts(c):
    """facts extended by the sign of closed constant expressions (evaluated with a margin)"""
    f = c.facts.copy()

    def rule(N, p):
        v = closed(N, p)
        return '+' if v is not None and v > 1e-6 else None
    f.posrule = rule
    return f


def closed(N, p, depth=0):
    """numeric value of a polynomial over constants only, or None"""
    if p is N.NINF or depth > 6:
        return None
    tot = 0.
    for m, q in p.items:
        v = float(q)
        for a, e in m:
            at = N.atoms[a]
            if at.kind == 'EXP':
                x = closed(N, at.data[0], depth + 1)
                x = None if x is None else math.exp(x)
            elif at.kind == 'LOG':
                x = closed(N, at.data[0], depth + 1)
                x = None if x is None or x <= 0 else math.log(x)
            elif at.kind == 'POLY':
                x = closed(N, at.data[0], depth + 1)
            elif at.kind == 'INV':
                x = closed(N, at.data[0], depth + 1)
                x = None if not x else 1. / x
            elif at.kind == 'ROOT':
                x = float(at.data[0])
            else:
                return None
            if x is None or (x < 0 and e.denominator != 1) or (x == 0 and e < 0):
                return None
            v *= x ** (int(e) if e.denominator == 1 else float(e))
        tot += v
    return tot


# ------------------------------------------------------------------ AIS.__init__
class ANode(ADist):
    """An abstract distribution: its log probability is an arbitrary array plus an arbitrary linear dependence on the
    value and on the parent's value; a sample is an arbitrary array plus twice the parent."""

    def __init__(self, w, tag, shape, parent=None):
        self.w, self.zs, self.parent = w, list(shape), parent
        ADist.__init__(self, w, tag)

    def sample(self, n_samples=None):
        self.k += 1
        n = 's_%s_%d' % (self.tag, self.k)
        while n in self.w.case.inputs:
            self.k += 1
            n = 's_%s_%d' % (self.tag, self.k)
        t = self.w.case.ph(n, self.zs, 'float32')
        self.w.samples.setdefault(self.tag, []).append(n)
        return t if self.parent is None else t + 2. * rest(self.parent, t)

    def log_prob(self, given):
        return self.w.lp(self.tag, given, self.parent)


def rest(t, like):
    t = tf.reduce_sum(t, list(range(1, t.get_shape().ndims)))
    return tf.reshape(t, [-1] + [1] * (like.get_shape().ndims - 1))


class IWorld(object):
    def __init__(self, case):
        self.case, self.samples = case, {}

    def inp(self, n, shape):
        if n not in self.case.inputs:
            self.case.ph(n, shape, 'float32')
        return self.case.inputs[n]['tensor']

    def lp(self, tag, given, parent):
        given = tf.convert_to_tensor(given)
        r = self.inp('l_' + tag, [3]) + self.weigh('u_' + tag, given)
        return r if parent is None else r + self.weigh('p_' + tag, tf.convert_to_tensor(parent))

    def weigh(self, u, given):
        sh = given.get_shape().as_list()
        return tf.reduce_sum(self.inp(u, sh[1:]) * given, list(range(1, len(sh))))


def tsum(x):
    return tn.reduce(x, list(range(1, x.rank)), False, 'sum') if x.rank > 1 else x


def plus(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tn.elementwise(tm.add, r, x)
    return r


def times(x, y):
    return tn.elementwise(tm.mul, x, y)


def ais_init(label, seed, tier, form, nlat, nobs, rev):
    """The graph built by the constructor: tempered density, its value at the latent variables, initialisation."""
    import zhusuan as zs
    from zhusuan.evaluation import AIS
    c = StepCase(label, seed, trials=2 if tier == 'quick' else 6)
    shapes = [[3, 2], [3], [3, 2, 2]]
    zn = ['z%d' % i for i in range(nlat)]
    xn = ['x%d' % i for i in range(nobs)]
    zs_ = dict(zip(zn, shapes))
    w = IWorld(c)

    @zs.meta_bayesian_net(scope='q', reuse_variables=True)
    def prop():
        bn = zs.BayesianNet()
        last = None
        for z in zn:
            last = bn.stochastic(z, ANode(w, 'q' + z, zs_[z], last)).tensor
        return bn

    @zs.meta_bayesian_net(scope='m', reuse_variables=True)
    def model():
        bn = zs.BayesianNet()
        last = None
        for n in zn + xn:
            last = bn.stochastic(n, ANode(w, 'm' + n, zs_.get(n, [3, 2]), last)).tensor
        return bn

    def fmodel(obs):
        t = w.inp('l_f', [3])
        for n in zn + xn:
            t = t + w.weigh('u_m' + n, tf.convert_to_tensor(obs[n]))
        return t
    with c.graph.as_default():
        obs = {n: c.ph(n, [3, 2], 'float32') for n in xn}
        order = zn[::-1] if rev else zn
        lat = {z: tf.Variable(tf.zeros(zs_[z]), name='v' + z) for z in order}
        hmc = StubHMC()
        ais = AIS(fmodel if form == 'f' else model(), prop(), hmc, dict(obs), dict(lat))
        ob = c.obl('the sampler is built once, for the same observations and latent variables')
        ob.kind = 'structural'
        ok = len(hmc.calls) == 1 and hmc.calls[0][1] == obs and hmc.calls[0][2] == lat and callable(hmc.calls[0][0])
        ob.status, ob.backend = ('proved' if ok else 'refuted'), 'identity of the arguments'
        if not ok:
            ob.cex = dict(kind='structural', calls=repr(hmc.calls)[:500])
            return c.obls
        ga = {z: c.ph('g_' + z, zs_[z], 'float32') for z in zn}
        fn = hmc.calls[0][0](dict(obs, **ga))
        fn2 = ais.log_fn(dict(obs, **ga))
    T = ais.temperature
    c.inputs['T'] = dict(tensor=T, ten=Ten([], lambda: tm.rd('T', (), 'R'), 'float32'), shape=[], dtype='float32', dom='unit',
                         mode='static', bound=None)
    c.facts.tprop['T'] = {'unit'}

    def logp(tag, val, parent):
        r = plus(c.ten('l_' + tag), tsum(times(c.ten('u_' + tag), val)))
        return r if parent is None else plus(r, tsum(times(c.ten('p_' + tag), parent)))

    def tempered(at):
        q, last = None, None
        for z in zn:
            l = logp('q' + z, at[z], last)
            q, last = (l if q is None else plus(q, l)), at[z]
        if form == 'f':
            m = c.ten('l_f')
            for n in zn + xn:
                m = plus(m, tsum(times(c.ten('u_m' + n), at[n])))
        else:
            m, last = None, None
            for n in zn + xn:
                l = logp('m' + n, at[n], last)
                m, last = (l if m is None else plus(m, l)), at[n]
        t = c.inputs['T']['ten']
        return plus(tn.elementwise(lambda x, a: tm.mul(x, tm.sub(const(1), a)), q, t), times(m, t))
    with c.graph.as_default():
        reads = [tf.identity(v) for v in lat.values()]
    c.begin([fn, fn2, ais.log_fn_val] + reads)
    ov = {n: c.ten(n) for n in xn}
    gv = dict(ov, **{z: c.ten('g_' + z) for z in zn})
    vv = dict(ov, **{z: c.vten(lat[z]) for z in zn})
    c.reports('the density given to the sampler is prior^(1-T) joint^T at the given values', fn, tempered(gv))
    c.reports('log_fn is the same function', fn2, tempered(gv))
    c.reports('log_fn_val is the density at the observations and the latent variables', ais.log_fn_val, tempered(vv))
    c.races()
    c.replay()
    c.pending = []
    with c.graph.as_default():
        ini = tf.group(*ais.init_latent)
    c.begin([ini])
    c.races('initialisation is ordered')
    ev = c.ev()
    done = False
    for first in itertools.product(*[w.samples.get('q' + z, []) for z in zn]):
        # all variables come from one joint proposal sample
        want, last = {}, None
        for z, n in zip(zn, first):
            t = c.ten(n)
            if last is not None:
                r = last if last.rank == 1 else tsum(last)
                t = Ten(t.shape, lambda *i, t=t, r=r: tm.add(t.at(*i), tm.mul(const(2), r.at(i[0]))), 'float32')
            want[z] = last = t
        try:
            ok = all(prove_eq(f.at(*ix), want[z].at(*ix), c.facts).ok for z in zn for f in [ev.final(lat[z].op)]
                     for ix in np.ndindex(*[1] * f.rank) for ix in [[ival(0)] * f.rank])
        except Exception:
            ok = False
        if ok:
            for z in zn:
                c.after('%s is initialised with its own part of one joint proposal sample' % z, lat[z], want[z])
            done = True
            break
    if not done:
        want, last = {}, None
        for z in zn:
            ns = w.samples.get('q' + z, [])
            if not ns:
                break
            t = c.ten(ns[0])
            if last is not None:
                r = last if last.rank == 1 else tsum(last)
                t = Ten(t.shape, lambda *i, t=t, r=r: tm.add(t.at(*i), tm.mul(const(2), r.at(i[0]))), 'float32')
            last = t
            c.after('%s is initialised with its own part of one joint proposal sample' % z, lat[z], t)
    c.replay()
    c.close()
    return c.obls


def cases(tier, seed):
    yield 'lemmas', lean.check, dict(file='Anneal.lean', lemmas=['weight_telescope', 'strict_mono_of_deriv_pos', 'prefix_sum'])
    yield 'effective_sample_size_1d', ess1, {}
    for b in (None, 0, 3, 17):
        yield 'effective_sample_size[burn_in=%s]' % b, ess2, dict(burn=b)
    for shape in ([3], [2, 2], [3, 1], [1, 4], [5, 3]):
        yield 'ais.run[mock,%s]' % shape, ais_runs, dict(shape=shape)
    for shape in (['C'], ['C', 'D'], ['C', 'D', 'E']):
        for v in (False, True):
            yield 'ais.run[all n,%s,verbose=%s]' % (shape, v), ais_symbolic, dict(shape=shape, verbose=v)
    for form in 'fm':
        for nlat in (1, 2, 3):
            for nobs in (0, 1, 2):
                for rev in ((False, True) if nlat > 1 else (False,)):
                    yield ('ais.init[%s,latents=%d,observed=%d,rev=%s]' % (form, nlat, nobs, rev), ais_init,
                           dict(form=form, nlat=nlat, nobs=nobs, rev=rev))

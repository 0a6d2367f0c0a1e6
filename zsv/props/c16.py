"""C16: normalizing flows report the log density of the values they return."""
import itertools
import math
import re
import time
import traceback
import numpy as np
from ..case import Case, js
from ..env import tf
from .. import terms as tm, tensor as tn, lean, smt
from ..terms import ival, const
from ..tensor import Ten, Unsupported
from ..norm import bvar, VB
from ..diff import deriv
from ..prove import prove_eq

FUNCTIONS = ['zhusuan.transform.planar_normalizing_flow', 'zhusuan.transform.inv_autoregressive_flow',
             'zhusuan.transform.linear_ar']
ASSUMPTIONS = [
    'The size d of the transformed axis and the iteration count are Python integers in the code and are enumerated '
    '(quick: d <= 5, n <= 3); all other sizes, all values and all flow parameters are universally quantified.',
    'Inverse autoregressive flow is proved against an abstract network: m and s are arbitrary functions of the row of z '
    'and of hidden; its contract (output j depends on inputs before j, s > 0 for update=normal) is the precondition '
    'and is proved for linear_ar.',
    'w is not the zero vector in the planar flow (the parametrisation divides by w.w).',
    'The step from triangular / rank-one Jacobians and the chain rule to the log determinant is lean/Flow.lean.',
]
SP = lambda x: tm.log(tm.add(tm.exp(x), const(1)))


class FlowCase(Case):
    """A case whose graph holds variables with arbitrary contents."""

    def __init__(self, *a, **kw):
        Case.__init__(self, *a, **kw)
        self.apps = {}

    def apps_num(self):
        return dict(Case.apps_num(self), **self.apps)

    def bind(self):
        self.vars = []
        for op in self.graph.get_operations():
            if op.type in ('VariableV2', 'Variable', 'VarHandleOp'):
                sh = tf.TensorShape(op.get_attr('shape')).as_list()
                nm = 'var:' + op.name
                ten = self.hidden(nm, sh, 'float32', mode='static')
                self.state[op.name] = ten
                self.vars.append((op, nm, sh))
        with self.graph.as_default():
            gv = {v.op.name: v for v in tf.global_variables()}
        self.gv = gv

        def tame(vals, dims, trial):
            # replayed parameter values are kept where single precision resolves the map
            for op, nm, sh in self.vars:
                v = vals[nm]
                vals[nm] = (np.where(v < 0, -1., 1.) * (0.25 + 0.75 * np.abs(np.tanh(v)))).astype(v.dtype)
        self.post_gen.append(tame)

        def load(vals, dims):
            for op, nm, sh in self.vars:
                self.gv[op.name].load(vals[nm].astype(np.float32), self.session())
            return {}
        self.extra_feed.append(load)

    def var(self, pat):
        r = [n for op, n, sh in self.vars if re.search(pat, op.name)]
        return self.ten(r[0]) if len(r) == 1 else None


def dot(n, f, g):
    return tm.big('sum', ival(n), lambda k: tm.mul(f(k), g(k)))


def gv(c, s):
    """universally quantified index of an axis of size s"""
    if tm.isc(s, 1):
        return ival(0)
    v = bvar('r', s)
    c.facts.vbound[v] = VB[v]
    return v


# ------------------------------------------------------------------ planar
def planar_spec(Z, LP, d, prm):
    """z <- z + u tanh(w.z+b); lp <- lp - log(1 + w.u (1 - tanh^2)) with the invertibility trick."""
    zf = lambda *i: Z.at(*i)
    lpf = lambda *r: LP.at(*r)
    for b, aux, w in prm:
        W = lambda k, w=w: w.at(k, ival(0))
        A = lambda k, a=aux: a.at(k, ival(0))
        wa, ww = dot(d, W, A), dot(d, W, W)
        trick = tm.sub(tm.sub(SP(wa), const(1)), wa)
        U = lambda k, A=A, W=W, ww=ww, trick=trick: tm.add(A(k), tm.mul(tm.div(W(k), ww), trick))
        wu = tm.sub(SP(wa), const(1))

        def act(r, zf=zf, W=W, b=b):
            return tm.f1('tanh', tm.add(dot(d, lambda k: zf(*(list(r) + [k])), W), b.at(ival(0))))

        def nz(*i, zf=zf, act=act, U=U):
            return tm.add(zf(*i), tm.mul(U(i[-1]), act(i[:-1])))

        def nlp(*r, lpf=lpf, act=act, wu=wu):
            t = act(r)
            return tm.sub(lpf(*r), tm.log(tm.add(const(1), tm.mul(wu, tm.sub(const(1), tm.mul(t, t))))))
        zf, lpf = memo(nz), memo(nlp)
    return Ten(Z.shape, lambda *i: zf(*i), 'float32'), Ten(LP.shape, lambda *r: lpf(*r), 'float32')


def memo(f):
    m = {}

    def g(*i):
        k = tuple(x.id for x in i)
        if k not in m:
            m[k] = f(*i)
        return m[k]
    return g


def planar(label, seed, tier, lead, d, n, mode, det=False):
    from zhusuan.transform import planar_normalizing_flow
    c = FlowCase(label, seed, mode, trials=3 if tier == 'quick' else 10)
    z, lp = flow_inputs(c, lead, d)
    with c.graph.as_default():
        oz, ol = planar_normalizing_flow(z, lp, n_iters=n)
    c.bind()
    prm = []
    for t in range(n):
        prm.append((c.var(r'param_b_%d($|_)' % t), c.var(r'aux_u_%d($|_)' % t), c.var(r'para_w_%d($|_)' % t)))
    ok = all(x is not None for p in prm for x in p)
    obs = []
    for op, nm, sh in c.vars:
        if 'para_w' in op.name:
            c.facts.tprop[nm] = {'nz'} if d == 1 else set()
            W = c.ten(nm)
            if d > 1:
                c.facts.pos.append(dot(d, lambda k: W.at(k, ival(0)), lambda k: W.at(k, ival(0))))
    if ok:
        sz, sl = planar_spec(c.ten('z'), c.ten('lp'), d, prm)
        obs.append(c.prove('returned samples are the planar map', oz, sz))
        obs.append(c.prove('log density is reduced by sum log(1 + w.u h\')', ol, sl))
    for t, x in (('samples', oz), ('log density', ol)):
        c.static_ok('static shape of the returned %s' % t, x.get_shape(), list(lead) + ([d] if x is oz else []))
    jac(c, oz, ol, lead, d, obs, need=2)
    if det:
        leibniz(c, oz, ol, lead, d)
    rows(c, oz, ol, lead, d)
    asserts_hold(c, oz, ol, prm if ok else [], d)
    c.close()
    return c.obls


def flow_inputs(c, lead, d, mode=None):
    mode = mode or c.mode
    st = None
    if mode in ('dynamic', 'partial', 'lpunknown'):
        st = [None if (mode != 'partial' or i % 2) else (s if isinstance(s, int) else None)
              for i, s in enumerate(lead)] + [d]
    z = c.ph('z', list(lead) + [d], 'float32', static=st)
    lp = c.ph('lp', list(lead), 'float32', mode='unknown' if mode == 'lpunknown' else None)
    return z, lp


# ------------------------------------------------------------------ obligations shared by the flows
def jac(c, oz, ol, lead, d, obs, need, what='log density drops by log |det| of the Jacobian of the returned map'):
    """Exact change of variables.  Follows from the equalities `obs` by lean/Flow.lean; evaluated in double
    precision on the extracted map otherwise (then it decides those equalities)."""
    o = c.obl(what)
    bad = None
    try:
        Z, L, L0 = c.ev().ten(oz), c.ev().ten(ol), c.ten('lp')
        r = len(lead)
        iv = [gv(c, s) for s in Z.shape[:-1]]
        jt = [[deriv(Z.at(*(iv + [ival(i)])), 'z', list(iv) + [ival(k)]) for k in range(d)] for i in range(d)]
        lt = tm.sub(L0.at(*iv), L.at(*iv))
        for trial in range(3 if len(obs) >= need and all(x.status == 'proved' for x in obs) else 12):
            dims, vals = c.gen(trial % 4)
            env, mem = c.env(vals, dims), {}
            sh = [int(tm.evaluate(s, env)) for s in Z.shape[:-1]]
            for ix in itertools.islice(np.ndindex(*sh), 6):
                m = {v: x for v, x in zip(iv, ix) if v.op == 'v'}
                J = np.array([[tm._ev(e, env, m, mem) for e in row] for row in jt], float).reshape(d, d)
                drop = float(tm._ev(lt, env, m, mem))
                sgn, ld = np.linalg.slogdet(J)
                o.numeric += 1
                if not np.isfinite(ld) or np.linalg.cond(J) > 1e9:
                    continue
                if not np.isfinite(drop) or abs(drop - ld) > 1e-6 * (1 + abs(ld)) * max(1, np.linalg.cond(J) / 1e3):
                    bad = dict(kind='jacobian', dims=c.usedims(dims), inputs=js(vals), row=list(ix),
                               log_density_drop=drop, log_abs_det_jacobian=float(ld))
                    break
            if bad:
                break
    except Exception:
        o.status, o.detail = 'unsupported', traceback.format_exc(limit=-3)
        bad = real_jac(c, o, oz, ol, d)
    if bad:
        o.status, o.cex = 'refuted', bad
        o.detail = 'log density drops by %r, log |det J| = %r' % (bad['log_density_drop'], bad['log_abs_det_jacobian'])
        replay(c, oz, ol, bad)
        return o
    if len(obs) >= need and all(x.status == 'proved' for x in obs):
        o.status, o.backend = 'proved', 'from the map and density contracts by lean/Flow.lean'
        o.used = dict(chain_log_det=1)
    elif o.numeric:
        if o.status != 'unsupported':
            o.status = 'bounded'
        for x in obs:
            # another parametrisation of the map with the right density is not a violation
            if x.status == 'differs' or (x.status == 'refuted' and (x.cex or {}).get('kind') == 'value'):
                x.status = 'bounded'
                x.detail = 'another map, density checked on samples: ' + (x.detail or '')
    return o


def real_jac(c, o, oz, ol, d):
    """The same comparison on the runtime alone, by central differences."""
    for trial in range(4):
        dims, vals = c.gen(trial)
        fd = c.feed(vals, dims)
        zv = vals['z']
        run = lambda v: c.session().run([oz, ol], dict(fd, **{c.inputs['z']['tensor']: v}))
        z0, l0 = run(zv)
        rows = zv.reshape(-1, d).shape[0]
        h = 1e-2
        J = np.zeros((rows, d, d))
        for k in range(d):
            e = np.zeros_like(zv)
            e[..., k] = h
            a, b = run(zv + e)[0], run(zv - e)[0]
            J[:, :, k] = ((a.astype(float) - b) / (2 * h)).reshape(rows, d)
        for r in range(rows):
            s, ld = np.linalg.slogdet(J[r])
            drop = float((vals['lp'].astype(float) - l0).reshape(-1)[r])
            o.numeric += 1
            if np.isfinite(ld) and np.linalg.cond(J[r]) < 1e2 and abs(drop - ld) > 0.1 * (1 + abs(ld)):
                return dict(kind='jacobian', dims=c.usedims(dims), inputs=js(vals), row=[r],
                            log_density_drop=drop, log_abs_det_jacobian=float(ld))
    return None


def replay(c, oz, ol, bad):
    """real run at the counterexample"""
    try:
        vals = {k: np.asarray(v, np.float32) for k, v in bad['inputs'].items()}
        fd = c.feed(vals, bad['dims'])
        with c.graph.as_default():
            zr, lr = c.session().run([oz, ol], fd)
        bad['real_log_density_drop'] = (vals['lp'] - lr).tolist()
        bad['real_samples'] = zr.tolist()
    except Exception as e:
        bad['real_run'] = '%s: %s' % (type(e).__name__, str(e)[:300])


def leibniz(c, oz, ol, lead, d):
    """det of the Jacobian of the extracted map, expanded, equals exp(lp_in - lp_out) (up to sign)."""
    o = c.obl('expanded Jacobian determinant equals exp of the log density drop')
    t0 = time.time()
    try:
        Z, L, L0 = c.ev().ten(oz), c.ev().ten(ol), c.ten('lp')
        iv = [gv(c, s) for s in Z.shape[:-1]]
        J = [[deriv(Z.at(*(iv + [ival(i)])), 'z', list(iv) + [ival(k)]) for k in range(d)] for i in range(d)]
        ts = []
        for p in itertools.permutations(range(d)):
            sg = np.linalg.det(np.eye(d)[list(p)])
            ts.append(tm.mul(const(int(round(sg))), *[J[i][p[i]] for i in range(d)]))
        det = tm.add(*ts)
        drop = tm.sub(L0.at(*iv), L.at(*iv))
        for s in (1, -1):
            o2 = type(o)(o.name)
            c._prove_terms(o2, drop, tm.log(tm.mul(const(s), det)), c.facts)
            if o2.status == 'proved':
                break
        o.__dict__.update({k: v for k, v in o2.__dict__.items() if k != 'name'})
    except Exception:
        o.status, o.detail = 'unsupported', traceback.format_exc(limit=-3)
    o.numeric = 1
    if o.status == 'differs':
        # decided by the sampled Jacobian above
        o.status = 'unsupported'
    o.time_s = time.time() - t0


def rows(c, oz, ol, lead, d):
    """Values of one row depend on that row only (the Jacobian is block diagonal)."""
    own_row(c, [('samples', oz, d), ('log density', ol, 0)])


def own_row(c, outs):
    for nm, t, last in outs:
        o = c.obl('%s of a row are computed from that row alone' % nm)
        try:
            X = c.ev().ten(t)
            iv = [gv(c, s) for s in (X.shape[:-1] if last else X.shape)]
            es = [X.at(*(iv + [ival(j)])) for j in range(last)] if last else [X.at(*iv)]
            bad = None
            used, goals = {}, []
            for e in es:
                for rdt in tm.subterms(e, lambda q: q.op == 'rd' and q.args[0] in c.inputs and
                                       not q.args[0].startswith('var:')):
                    for a, b in zip(rdt.args[1:1 + len(iv)], iv):
                        if a is b:
                            continue
                        r = prove_eq(a, b, c.facts)
                        if not r.ok:
                            bad = tm.show(rdt)
                        goals += r.goals
            if bad is None and goals:
                ans = smt.discharge([(i, g) for i, g in enumerate(goals)])
                smt.STATS['goals'] += len(goals)
                smt.STATS['discharged'] += len(goals)
                if any(ans.get(i) != ['unsat'] for i in range(len(goals))):
                    bad = 'z3 did not confirm'
            o.status, o.detail = ('proved', '') if bad is None else ('unsupported', 'reads %s' % bad)
            o.backend = 'index equalities: normal form + z3'
        except Exception:
            o.status, o.detail = 'unsupported', traceback.format_exc(limit=-2)
        if o.status != 'proved':
            probe_rows(c, o, t, last)


def probe_rows(c, o, t, last):
    """undecided: perturb one row of z on the real code"""
    try:
        for trial in range(4):
            dims, vals = c.gen(trial)
            z = vals['z']
            d = z.shape[-1]
            n = z.size // d
            base = np.asarray(c.session().run(t, c.feed(vals, dims)))
            for r in range(min(n, 4)):
                z2 = z.copy().reshape(n, d)
                z2[r] += 1.5
                v2 = dict(vals, z=z2.reshape(z.shape))
                got = np.asarray(c.session().run(t, c.feed(v2, dims)))
                diff = (np.abs(got - base) > 1e-5).reshape(n, -1).any(axis=1)
                o.numeric += 1
                if diff[np.arange(n) != r].any():
                    o.status = 'refuted'
                    o.detail = 'changing row %d changes rows %s' % (r, np.flatnonzero(diff).tolist())
                    o.cex = dict(kind='rows', inputs=js(vals), row=r)
                    return
    except Exception:
        o.detail += traceback.format_exc(limit=-1)


def asserts_hold(c, oz, ol, prm, d):
    """The invertibility assertions of the graph cannot fail: w.u = softplus(w.aux) - 1 > -1."""
    seen, st = set(), [oz.op, ol.op]
    while st:
        op = st.pop()
        if op in seen:
            continue
        seen.add(op)
        st.extend(i.op for i in op.inputs)
        st.extend(op.control_inputs)
    for op in sorted((o for o in seen if o.type == 'Assert'), key=lambda o: o.name):
        try:
            x = op.inputs[0]
            while x.op.type in ('Identity', 'Switch'):
                x = x.op.inputs[0]
            cond = c.ev().ten(x).at()
        except Exception:
            continue
        cm = tm.subterms(cond, lambda t: t.op in ('le', 'lt') and any(a.sort == 'R' for a in t.args))
        for m in cm:
            o = c.obl('assertion %s cannot fail' % op.name)
            o.numeric = 1
            o.status, o.detail = 'unsupported', tm.show(m)[:300]
            for b, aux, w in prm:
                W = lambda k, w=w: w.at(k, ival(0))
                wa = dot(d, W, lambda k: aux.at(k, ival(0)))
                o2 = type(o)(o.name)
                c._prove_terms(o2, tm.sub(m.args[1], m.args[0]), SP(wa), c.facts)
                if o2.status == 'proved':
                    o.__dict__.update({k: v for k, v in o2.__dict__.items() if k not in ('name', 'numeric')})
                    o.used = dict(o.used, softplus_pos=1)
                    break
                o.detail = o2.detail


# ------------------------------------------------------------------ inverse autoregressive flow
class Net(object):
    """autoregressive_nn as an uninterpreted function of (id, row of z, row of hidden)."""

    def __init__(self, c, lead, d):
        self.c, self.lead, self.d = c, lead, d
        self.calls = []
        self.toks = {}
        c.abstract['PyFunc'] = self.sym
        c.apps['NNm'] = lambda args, lams, env: self.num(0, args, lams)
        c.apps['NNs'] = lambda args, lams, env: self.num(1, args, lams)

    def __call__(self, name, id, z, hidden=None):
        self.calls.append((name, id, z, hidden))
        k = len(self.calls) - 1
        ins = [z] + ([hidden] if hidden is not None else [])
        out = []
        for w in (0, 1):
            y = tf.py_func(lambda *a, _w=w: self.run(_w, k, *a), ins, tf.float32)
            y.set_shape(z.get_shape())
            self.toks[y.op.name] = (w, k)
            out.append(y)
        return out[0], out[1]

    def f(self, w, k, zrow, hrow):
        out = []
        for j in range(self.d):
            a = sum(math.cos(1 + 3 * i + j + 5 * k + 7 * w) * zrow[i] for i in range(j))
            a += sum(math.sin(2 + i + 2 * j + k + w) * hrow[i] for i in range(len(hrow))) if hrow is not None else 0.3 * j
            out.append(math.exp(0.5 * math.tanh(a)) if w else 0.7 * math.sin(a + 0.2 * j))
        return out

    def run(self, w, k, z, h=None):
        zz = np.asarray(z, float).reshape(-1, self.d)
        hh = None if h is None else np.asarray(h, float).reshape(-1, self.d)
        r = [self.f(w, k, zz[i], None if hh is None else hh[i]) for i in range(len(zz))]
        return np.asarray(r, np.float32).reshape(np.shape(z))

    def num(self, w, args, lams):
        k, j = int(args[0]), int(args[1])
        z = [float(lams[0](i)) for i in range(self.d)]
        h = [float(lams[1](i)) for i in range(self.d)] if len(lams) > 1 else None
        return self.f(w, k, z, h)[j]

    def val(self, w, k, xs):
        Z = xs[0]

        def fn(*i):
            lams = []
            for x in xs:
                v = bvar('a', ival(self.d))
                lams.append(tm.lam([v], x.at(*(list(i[:-1]) + [v]))))
            return tm.app('NNs' if w else 'NNm', [ival(k), i[-1]], lams)
        return Ten(Z.shape, fn, 'float32')

    def sym(self, ev, op):
        if op.name not in self.toks:
            raise Unsupported('foreign py_func')
        w, k = self.toks[op.name]
        return [self.val(w, k, [ev.ten(t) for t in op.inputs])]


def iaf_spec(Z, LP, H, net, n, update, d):
    z, lp = Z, LP
    for k in range(n):
        xs = [z] + ([H] if H is not None else [])
        m, s = net(0, k, xs), net(1, k, xs)
        if update == 'gru':
            s = tn.elementwise(tm.sigmoid, s)
            nz = tn.elementwise(lambda a, b, e: tm.add(tm.mul(a, b), tm.mul(tm.sub(const(1), a), e)), s, z, m)
        else:
            nz = tn.elementwise(lambda a, b, e: tm.add(tm.mul(a, b), e), s, z, m)
        ls = tn.reduce(tn.elementwise(tm.log, s), [s.rank - 1], False, 'sum')
        lp = tn.elementwise(tm.sub, lp, ls)
        z = Ten(nz.shape, lambda *i, nz=nz: nz.at(*(list(i[:-1]) + [tn.simp(tm.sub(ival(d - 1), i[-1]))])), 'float32')
    return z, lp


def tfnet(d, weights):
    """A nonlinear autoregressive network made of plain operations (its Jacobian can be extracted)."""
    def nn(name, id, z, hidden=None):
        def lin(w):
            M = np.triu(weights[id][w], 1).astype(np.float32)
            x = tf.tensordot(z, tf.constant(M), [[-1], [0]]) if False else tf.reduce_sum(
                tf.expand_dims(z, -1) * tf.constant(M), -2)
            return x
        m = tf.tanh(lin(0)) + 0.3
        s = tf.exp(0.5 * tf.tanh(lin(1)))
        if hidden is not None:
            m = m + hidden
            s = s * (1. + tf.square(hidden))
        return m, s
    return nn


def iaf(label, seed, tier, lead, d, n, mode, update, hid, det=False, default=False):
    from zhusuan.transform import inv_autoregressive_flow
    kw = {} if default else dict(update=update)
    # (1) against the abstract network
    c = FlowCase(label, seed, mode, trials=3 if tier == 'quick' else 10)
    z, lp = flow_inputs(c, lead, d)
    h = c.ph('h', list(lead) + [d], 'float32') if hid else None
    net = Net(c, lead, d)
    with c.graph.as_default():
        oz, ol = inv_autoregressive_flow(z, h, lp, net, n, **kw)
    c.bind()
    ids = [x[1] for x in net.calls]
    c.fact('the network is called once per iteration, with distinct ids', len(ids) == n and len(set(ids)) == n,
           'ids %s for %d iterations' % (ids, n))
    c.fact('the network is given the hidden input', all((x[3] is None) == (h is None) for x in net.calls),
           'hidden not passed on')
    for t, x in (('samples', oz), ('log density', ol)):
        c.static_ok('static shape of the returned %s' % t, x.get_shape(), list(lead) + ([d] if x is oz else []))
    H = c.ten('h') if hid else None
    sz, sl = iaf_spec(c.ten('z'), c.ten('lp'), H, net.val, n, update, d)
    obs = [c.prove('returned samples are the autoregressive map', oz, sz),
           c.prove('log density is reduced by the sum of log scales', ol, sl)]
    c.close()
    out = c.obls
    # (2) the exact change of variables for two networks
    nets = ['linear', 'tanh']
    for kind in nets:
        if kind == 'linear' and hid:
            continue
        c2 = FlowCase(label + '[%s]' % kind, seed, mode, trials=2)
        z, lp = flow_inputs(c2, lead, d)
        h = c2.ph('h', list(lead) + [d], 'float32') if hid else None
        from zhusuan.transform import linear_ar
        nn = linear_ar if kind == 'linear' else tfnet(d, [
            [c2.rng.normal(size=(d, d)) for _ in range(2)] for _ in range(max(n, 1) + 2)])
        with c2.graph.as_default():
            oz, ol = inv_autoregressive_flow(z, h, lp, nn, n, **kw)
        c2.bind()
        ob2 = [x for x in obs]
        jac(c2, oz, ol, lead, d, ob2 if kind == nets[-1] or hid else ob2, need=2)
        if kind == 'linear':
            if det:
                leibniz(c2, oz, ol, lead, d)
            rows(c2, oz, ol, lead, d)
            num = c2.obl('runs at the declared shapes')
            runs(c2, num, oz, ol)
        c2.close()
        out += c2.obls
    return out


def runs(c, o, oz, ol):
    for trial in range(2):
        dims, vals = c.gen(trial)
        try:
            with c.graph.as_default():
                a, b = c.session().run([oz, ol], c.feed(vals, dims))
        except Exception as e:
            o.status, o.detail = 'refuted', str(e)[:300]
            o.cex = dict(kind='runtime-error', inputs=js(vals), error=str(e)[:500])
            return
        o.numeric += 1
        if a.shape != vals['z'].shape or b.shape != vals['lp'].shape:
            o.status, o.detail = 'refuted', 'shapes %s %s' % (a.shape, b.shape)
            o.cex = dict(kind='shape', inputs=js(vals), got=[a.shape, b.shape])
            return
    o.status = 'bounded'
    o.kind = 'runtime'
    why = wellformed(c, [(oz, c.ten('z').shape), (ol, c.ten('lp').shape)])
    if why is None:
        o.status, o.kind, o.backend = 'proved', 'shape', 'operator shape contracts: every operation, all sizes'
    else:
        o.detail = why


def wellformed(c, outs):
    """Every operation the outputs need satisfies its shape contract for all sizes and every assertion holds; the
    outputs have the given shapes.  Returns what is missing, or None."""
    from .c06 import ancestors
    ev = c.ev()
    for t, shape in outs:
        try:
            r = ev.ten(t)
            if r.rank != len(shape) or not all(tn.same(a, b) for a, b in zip(r.shape, shape)):
                return '%s has shape %s' % (t.name, r.shape)
            for op in ancestors(t):
                if op.type == 'Assert':
                    p = prove_eq(tm.ite(ev.ten(op.inputs[0]).at(), tm.const(1), tm.const(0)), tm.const(1), c.facts)
                    if not p.ok:
                        return 'assertion %s' % op.name
                    ans = smt.discharge([(i, g) for i, g in enumerate(p.goals)])
                    if not all(ans.get(i) == ['unsat'] for i in range(len(p.goals))):
                        return 'assertion %s' % op.name
                    smt.STATS['goals'] += len(p.goals)
                    smt.STATS['discharged'] += len(p.goals)
                elif op.type in ('Switch', 'Merge') or op._get_control_flow_context() is not None:
                    return 'control flow'
                elif op.outputs and not all(x.name in ev.inputs for x in op.outputs):
                    ev.ten(op.outputs[0])
        except Exception as e:
            return '%s: %s' % (type(e).__name__, str(e)[:200])
    return None


def linear(label, seed, tier, lead, d, mode, id):
    from zhusuan.transform import linear_ar
    c = FlowCase(label, seed, mode, trials=3)
    z, _ = flow_inputs(c, lead, d)
    with c.graph.as_default():
        m, s = linear_ar('net', id, z)
    c.bind()
    Z = c.ten('z')
    mw, sw = c.var('m_w'), c.var('s_w')
    if mw is not None and sw is not None:
        up = lambda w: lambda *i: tm.big('sum', ival(d), lambda k: tm.mul(
            Z.at(*(list(i[:-1]) + [k])), tm.ite(tm.lt(k, i[-1]), w.at(k, i[-1]), const(0))))
        for nm, t, sp in (('m', m, Ten(Z.shape, up(mw), 'float32')),
                          ('s', s, Ten(Z.shape, lambda *i: tm.exp(up(sw)(*i)), 'float32'))):
            o = c.prove('%s is the masked linear map' % nm, t, sp)
            if o.status == 'differs' or (o.status == 'refuted' and o.cex.get('kind') == 'value'):
                # the property is autoregressivity, decided below
                o.status, o.detail = 'bounded', 'another linear map: ' + (o.detail or '')
    auto(c, m, s, d)
    own_row(c, [('m', m, d), ('s', s, d)])
    positive(c, s, d)
    c.close()
    return c.obls


def auto(c, m, s, d):
    """d m_j / d z_k = d s_j / d z_k = 0 for every k >= j."""
    M = {'m': c.ev().ten(m), 's': c.ev().ten(s)}
    for nm, X in M.items():
        iv = [gv(c, q) for q in X.shape[:-1]]
        for j in range(d):
            for k in range(j, d):
                o = c.obl('%s[%d] does not depend on z[%d]' % (nm, j, k))
                dd = deriv(X.at(*(iv + [ival(j)])), 'z', list(iv) + [ival(k)])
                c._prove_terms(o, dd, const(0), c.facts)
                decide_zero(c, o, dd, iv)


def decide_zero(c, o, dd, iv):
    if o.status == 'proved':
        return
    for trial in range(6):
        dims, vals = c.gen(trial % 4)
        env = c.env(vals, dims)
        mp = {v: ival(0) for v in iv if v.op == 'v'}
        x = float(tm.evaluate(tm.subst(dd, mp), env))
        o.numeric += 1
        if abs(x) > 1e-9:
            o.status = 'refuted'
            o.detail = 'derivative is %r' % x
            o.cex = dict(kind='derivative', inputs=js(vals), derivative=x)
            return
    o.status = 'bounded'


def positive(c, s, d):
    """s is an exponential."""
    S = c.ev().ten(s)
    iv = [gv(c, q) for q in S.shape[:-1]]
    for j in range(d):
        o = c.obl('s[%d] is positive' % j)
        t = S.at(*(iv + [ival(j)]))
        if t.op == 'exp' or t.op in ('sigmoid', 'softplus') or (tm.isc(t) and tm.cval(t) > 0):
            o.status, o.backend = 'proved', 'exp is positive'
            continue
        for trial in range(6):
            dims, vals = c.gen(trial % 4)
            x = float(tm.evaluate(tm.subst(t, {v: ival(0) for v in iv if v.op == 'v'}), c.env(vals, dims)))
            o.numeric += 1
            if not x > 0:
                o.status, o.detail = 'refuted', 's = %r' % x
                o.cex = dict(kind='value', inputs=js(vals), s=x)
                break
        else:
            o.status = 'bounded'


# ------------------------------------------------------------------ rejection
def reject(label, seed, tier, flow, zs, ls, static, what, n=1):
    """An ill-shaped pair is refused when the graph is built or when either result is computed."""
    from zhusuan import transform as tr
    c = Case(label, seed)
    o = c.obl('%s is rejected' % what)
    o.kind = 'runtime'
    nn = lambda name, id, z, hidden=None: (tf.zeros_like(z), tf.ones_like(z))
    with c.graph.as_default():
        try:
            if static == 'static':
                z, l = tf.placeholder(tf.float32, zs), tf.placeholder(tf.float32, ls)
            elif static == 'rank':
                z = tf.placeholder(tf.float32, [None] * (len(zs) - 1) + [zs[-1]])
                l = tf.placeholder(tf.float32, [None] * len(ls))
            elif static == 'zrank':
                z = tf.placeholder(tf.float32, [None] * (len(zs) - 1) + [zs[-1]])
                l = tf.placeholder(tf.float32, None)
            else:
                z, l = tf.placeholder(tf.float32, None), tf.placeholder(tf.float32, None)
            if flow == 'planar':
                oz, ol = tr.planar_normalizing_flow(z, l, n)
            else:
                oz, ol = tr.inv_autoregressive_flow(z, None, l, nn, n)
            init = tf.global_variables_initializer()
        except ValueError as e:
            o.status, o.numeric, o.backend = 'proved', 1, 'raised when the graph is built'
            return c.obls
        except tf.errors.InvalidArgumentError:
            o.status, o.numeric, o.backend = 'proved', 1, 'raised when the graph is built'
            return c.obls
        except IndexError:
            o.status, o.numeric, o.backend = 'proved', 1, 'raised when the graph is built'
            return c.obls
        with tf.Session(graph=c.graph) as sess:
            sess.run(init)
            fd = {z: np.ones(zs), l: np.ones(ls)}
            for nm, t in (('samples', oz), ('log density', ol)):
                try:
                    r = sess.run(t, fd)
                except (tf.errors.InvalidArgumentError, ValueError):
                    o.numeric += 1
                    continue
                o.status = 'refuted'
                o.detail = '%s of shape %s with log density of shape %s: %s returned, shape %s' % (
                    'samples', zs, ls, nm, np.shape(r))
                o.cex = dict(kind='accepted', z_shape=zs, lp_shape=ls, static=static)
                return c.obls
    o.status = 'bounded'
    from .c06 import definite
    from ..norm import Facts
    bind = {}
    for x, sh in ((z, zs), (l, ls)):
        bind[x.name] = Ten([ival(k) for k in sh], (lambda nm: lambda *i: tm.rd(nm, i, 'R'))('arg_' + x.op.name), 'float32')
    try:
        why = [definite(t, bind, Facts()) for t in (oz, ol)]
    except Exception as e:
        why = [None]
    if all(why):
        o.status, o.backend, o.detail = 'proved', 'operator shape contracts + z3', why[0]
    return c.obls


FAMS = [(['3'], ['P'], 'samples of rank 1'), (['3'], [], 'samples of rank 1'),
        (['A', '3'], ['B', 'C'], 'log_probs of the rank of samples'), (['A', '3'], [], 'log_probs of rank 0'),
        (['A', 'B', '3'], ['C'], 'log_probs of rank 1 for samples of rank 3'),
        (['A', 'B', 'C', '3'], ['D', 'E'], 'log_probs of rank 2 for samples of rank 4'),
        (['A', 'B', '3'], ['C', 'D', 'E'], 'log_probs of rank 3 for samples of rank 3'),
        (['P', '3'], ['Q'], 'mismatched leading axis'), (['P', '3'], ['1'], 'log_probs to be broadcast'),
        (['1', '3'], ['P'], 'samples to be broadcast'), (['A', 'P', '3'], ['B', 'Q'], 'mismatched second axis'),
        (['P', 'A', '3'], ['Q', 'B'], 'mismatched first axis'), (['A', 'P', '3'], ['A', '1'], 'log_probs to be broadcast'),
        (['P', 'A', '3'], ['1', 'A'], 'log_probs to be broadcast'), (['A', '1', '3'], ['A', 'P'], 'samples to be broadcast'),
        (['1', 'A', '3'], ['P', 'A'], 'samples to be broadcast')]


def reject_all(label, seed, tier, flow, zs, ls, mode, n=1):
    """Every pair of the family is refused whatever the sizes (and, for iaf, whatever the network returns of
    the samples' shape)."""
    from zhusuan import transform as tr
    from .c06 import all_sizes
    c = Case(label, seed)
    nn = lambda name, id, z, hidden=None: (tf.zeros_like(z), tf.ones_like(z))
    phs = {}
    with c.graph.as_default():
        zsh = None if mode == 'unknown' else [None] * (len(zs) - 1) + [3]
        phs['z'] = tf.placeholder(tf.float32, zsh, name='arg_z')
        phs['l'] = tf.placeholder(tf.float32, None if mode in ('unknown', 'zrank') else [None] * len(ls), name='arg_l')
        try:
            if flow == 'planar':
                outs = tr.planar_normalizing_flow(phs['z'], phs['l'], n)
            else:
                outs = tr.inv_autoregressive_flow(phs['z'], None, phs['l'], nn, n)
            init = tf.global_variables_initializer()
        except (ValueError, tf.errors.InvalidArgumentError, IndexError) as e:
            o = c.obl('refused for all sizes')
            o.kind, o.status, o.backend, o.numeric = 'rejection', 'proved', 'raised when the graph is built', 1
            return c.obls
    shp = {'z': zs, 'l': ls}
    for nm, t in zip(('samples', 'log density'), outs):
        o = c.obl('%s: refused for all sizes' % nm)
        o.kind, t0 = 'rejection', time.time()
        try:
            why = all_sizes(t, shp, phs)
        except Exception:
            why, o.detail = [], traceback.format_exc(limit=-3)
        if len(why) == 2:
            o.status, o.backend, o.detail = 'proved', 'operator shape contracts + z3', why[0]
        else:
            o.status = 'unsupported'
        for trial in range(4):
            r = c.rng
            dims = {x: int(r.randint(1, 4)) for s in shp.values() for x in s}
            dims['P'] = int(r.randint(2, 5))
            dims['Q'] = dims['P'] + int(r.randint(1, 3))
            if trial % 2:
                dims['P'], dims['Q'] = dims['Q'], dims['P']
            sz = {a: [int(x) if x.isdigit() else dims[x] for x in s] for a, s in shp.items()}
            with tf.Session(graph=c.graph) as sess:
                sess.run(init)
                try:
                    v = sess.run(t, {phs[a]: np.ones(sz[a]) for a in sz})
                except (tf.errors.InvalidArgumentError, ValueError):
                    o.numeric += 1
                    continue
            o.status, o.detail = 'refuted', 'samples of shape %s with log density of shape %s: %s returned, shape %s' % (
                sz['z'], sz['l'], nm, np.shape(v))
            o.cex = dict(kind='accepted', z_shape=sz['z'], lp_shape=sz['l'], mode=mode)
            break
        o.time_s = time.time() - t0
    return c.obls


def argtype(label, seed, tier, flow, n):
    from zhusuan import transform as tr
    c = Case(label, seed)
    o = c.obl('n_iters=%r is rejected' % (n,))
    o.kind = 'runtime'
    nn = lambda name, id, z, hidden=None: (tf.zeros_like(z), tf.ones_like(z))
    with c.graph.as_default():
        z, l = tf.placeholder(tf.float32, [2, 3]), tf.placeholder(tf.float32, [2])
        try:
            if flow == 'planar':
                tr.planar_normalizing_flow(z, l, n)
            else:
                tr.inv_autoregressive_flow(z, None, l, nn, n)
            o.status, o.detail = 'refuted', 'accepted'
            o.cex = dict(kind='accepted', n_iters=repr(n))
        except (ValueError, TypeError):
            o.status, o.numeric, o.backend = 'proved', 1, 'raised when the graph is built'
    return c.obls


def arrays(label, seed, tier, flow, what):
    """samples and log_probs given as numpy arrays, lists, variables or float32 stochastic tensors."""
    import zhusuan
    from zhusuan import transform as tr
    c = Case(label, seed)
    o = c.obl('%s arguments give the values of the same tensors' % what)
    o.kind, o.status = 'runtime', 'bounded'
    r = c.rng
    zv, lv, hv = r.normal(size=(4, 3)).astype('float32'), r.normal(size=4).astype('float32'), r.normal(size=(4, 3)).astype('float32')

    def call(conv, tag):
        if flow == 'planar':
            return tr.planar_normalizing_flow(conv(zv), conv(lv), 2)
        nn = lambda name, id, z, hidden=None: (tf.cumsum(z, axis=-1, exclusive=True) * hidden,
                                               tf.exp(tf.cumsum(z, axis=-1, exclusive=True)) + hidden * 0.)
        return tr.inv_autoregressive_flow(conv(zv), conv(hv), conv(lv), nn, 2)
    bn = []

    def stoch(x):
        if not bn:
            bn.append(zhusuan.BayesianNet())
        return zhusuan.framework.bn.StochasticTensor(bn[0], 'n%d' % id(x), zhusuan.distributions.Normal(tf.zeros(x.shape), std=1.),
                                                     observation=x)
    conv = dict(numpy=lambda x: x, list=lambda x: x.tolist(), variable=lambda x: tf.Variable(x), stochastic=stoch)[what]
    try:
        with c.graph.as_default():
            a = call(tf.constant, 'a')
            va = tf.global_variables()
            b = call(conv, 'b')
            vb = [v for v in tf.global_variables() if v not in va]
            vb = [v for v in vb if 'planar_flow' in v.op.name] if flow == 'planar' else []
            s = c.session()
            s.run(tf.global_variables_initializer())
            if flow == 'planar':
                for x, y in zip(va, vb):
                    y.load(s.run(x) * 40. + .1, s), x.load(s.run(x) * 40. + .1, s)
            ra, rb = s.run(a), s.run(b)
        o.numeric += 1
        if not all(x.shape == y.shape and np.allclose(x, y, 1e-5, 1e-6) for x, y in zip(ra, rb)):
            o.status, o.detail = 'refuted', 'values differ'
            o.cex = dict(kind='value', got=[x.tolist() for x in rb], want=[x.tolist() for x in ra])
    except Exception as e:
        o.status, o.detail = 'refuted', '%s: %s' % (type(e).__name__, str(e)[:300])
        o.cex = dict(kind='exception', error=str(e)[:500], arguments=what)
    return c.obls


def cases(tier, seed):
    full = tier != 'quick'
    yield 'lemmas', lean.check, dict(file='Flow.lean', lemmas=[
        'planar_det', 'planar_pos', 'ar_det', 'chain_log_det', 'softplus_pos'])
    modes = ['dynamic', 'static', 'partial', 'lpunknown']
    L = [['A'], ['B', 'A'], ['S', 'B', 'A'], [1, 'A']]
    k = 0
    ds = [1, 2, 3, 5] if not full else [1, 2, 3, 4, 5, 6, 8]
    for d in ds:
        for n in ([0, 1, 2, 3] if not full else [0, 1, 2, 3, 4, 5]):
            for li, lead in enumerate(L):
                for mode in modes:
                    k += 1
                    if not full and not (li == 0 and n < 2) and k % 5:
                        continue
                    if not full and d == 5 and n == 3:
                        continue
                    det = d <= (2 if not full else 3) and n == 1
                    yield ('planar[d=%d,n=%d,lead=%s,%s]' % (d, n, lead, mode), planar,
                           dict(lead=lead, d=d, n=n, mode=mode, det=det))
    k = 0
    for update in ('normal', 'gru'):
        for d in ds:
            for n in ([0, 1, 2, 3] if not full else [0, 1, 2, 3, 4]):
                for li, lead in enumerate(L):
                    for mode in modes:
                        for hid in (False, True):
                            k += 1
                            if not full and not (li == 0 and n < 2 and mode == 'dynamic') and k % 7:
                                continue
                            det = d <= 3 and n == 1 and not hid
                            yield ('iaf[%s,d=%d,n=%d,lead=%s,%s,hidden=%s]' % (update, d, n, lead, mode, hid), iaf,
                                   dict(lead=lead, d=d, n=n, mode=mode, update=update, hid=hid, det=det))
    yield 'iaf[default update]', iaf, dict(lead=['A'], d=3, n=2, mode='dynamic', update='normal', hid=False, default=True)
    for d in (ds + [4] if not full else ds):
        for li, lead in enumerate(L):
            for mode in ('dynamic', 'static'):
                yield ('linear_ar[d=%d,lead=%s,%s]' % (d, lead, mode), linear,
                       dict(lead=lead, d=d, mode=mode, id=li))
    bad = [([3], [3], 'samples of rank 1'), ([3], [], 'samples of rank 1'), ([2, 3], [2, 3], 'log_probs of the rank of samples'),
           ([2, 3], [], 'log_probs of too small rank'), ([4, 2, 3], [2], 'log_probs of too small rank'),
           ([4, 2, 3], [4], 'log_probs of too small rank'),
           ([2, 3], [4], 'mismatched leading axis'), ([2, 3], [1], 'log_probs to be broadcast'),
           ([1, 3], [2], 'samples to be broadcast'), ([4, 2, 3], [4, 3], 'mismatched second axis'),
           ([4, 2, 3], [2, 4], 'transposed leading axes'), ([4, 2, 3], [1, 2], 'log_probs to be broadcast'),
           ([4, 1, 3], [4, 2], 'samples to be broadcast'), ([4, 2, 3], [1, 4, 2], 'log_probs of too large rank')]
    for flow in ('planar', 'iaf'):
        for zs, ls, what in bad:
            for st in ('static', 'rank', 'zrank') + (('unknown',) if flow == 'iaf' else ()):
                if st == 'zrank' and len(zs) < 2:
                    continue
                yield 'reject[%s,%s,%s,%s]' % (flow, zs, ls, st), reject, dict(flow=flow, zs=zs, ls=ls, static=st, what=what)
        for zs, ls, what in FAMS:
            for st in ('rank',) + (('zrank',) if len(zs) > 1 else ()) + (('unknown',) if flow == 'iaf' else ()):
                for n in (1, 2):
                    yield 'reject_all[%s,%s,%s,%s,n=%d]' % (flow, zs, ls, st, n), reject_all, dict(
                        flow=flow, zs=zs, ls=ls, mode=st, n=n)
        for what in ('numpy', 'list', 'variable', 'stochastic'):
            yield 'arguments[%s,%s]' % (flow, what), arrays, dict(flow=flow, what=what)
        for n in (1.0, '1', None, [1]):
            yield 'n_iters[%s,%r]' % (flow, n), argtype, dict(flow=flow, n=n)

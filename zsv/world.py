"""Step worlds (C11-C15): an abstract differentiable log joint, variables with
arbitrary contents, arbitrary noise; obligations about the state after one step."""
from __future__ import annotations
import time
import traceback
import numpy as np
from .env import tf
from . import terms as tm, tensor as tn
from .terms import ival, isc
from .tensor import Ten, Unsupported, ShapeError, sort_of
from .norm import bvar
from .case import Case, js, mismatch
from .step import HB, StepEval, describe, isref, WRITE

_TOK = {}


def _token(op):
    return op.get_attr('token').decode() if isinstance(op.get_attr('token'), bytes) else op.get_attr('token')


def _registered():
    try:
        @tf.RegisterGradient('ZsvLJ')
        def _grad(op, dy):
            lj = _TOK[_token(op)][1]
            return lj.grads(list(op.inputs), dy)
    except KeyError:
        pass


_registered()


class LJ(object):
    """log joint: an arbitrary function of the latent values, one number per
    chain; its gradient functions G_k are arbitrary too.  At run time it is a
    smooth concrete function."""

    def __init__(self, case, names, shapes, nchain, dtype='float32', obs=(), slow=0.):
        self.c, self.names, self.shapes, self.nchain, self.dtype = case, list(names), shapes, nchain, dtype
        self.calls = []
        self.slow = slow
        self.nonfinite = self.nongrad = None
        case.apps['LJ'] = self._num_lj
        case.apps['FIN'] = lambda args, lams, env: 1.0 if np.isfinite(args[0]) else 0.0
        for k in range(len(self.names)):
            case.apps['G%d' % k] = self._num_g(k)
        case.abstract['PyFunc'] = self._sym

    # ------------------------------------------------------- as a TF function
    def __call__(self, obs):
        self.calls.append(dict(obs))
        qs = [obs[n] for n in self.names]
        with tf.get_default_graph().gradient_override_map({'PyFunc': 'ZsvLJ'}):
            y = tf.py_func(self._f, qs, getattr(tf, self.dtype))
        _TOK[_token(y.op)] = ('lj', self)
        y.set_shape(self.shapes[0][:self.nchain])
        return y

    def grads(self, qs, dy):
        out = []
        for k in range(len(qs)):
            g = tf.py_func(lambda *a, _k=k: self._gf(_k, *a), qs + [dy], getattr(tf, self.dtype))
            _TOK[_token(g.op)] = ('g', self, k)
            g.set_shape(qs[k].get_shape())
            out.append(g)
        return out

    # ------------------------------------------------------- numbers
    def _f64(self, qs):
        """sum over data of a coupled smooth function, per chain"""
        n = self.nchain
        tot = 0.
        S = []
        for k, q in enumerate(qs):
            q = np.asarray(q, np.float64)
            ax = tuple(range(n, q.ndim))
            w = 0.3 + 0.2 * np.cos(np.arange(q[(0,) * n].size if q.ndim > n else 1)).reshape(q.shape[n:])
            tot = tot + np.sum(-0.5 * w * q ** 2 + 0.1 * np.sin(q + k), axis=ax)
            S.append(np.sum(w * q, axis=ax))
        tot = tot + 0.3 * np.sin(sum(S)) + 0.05 * sum(S)
        return tot

    def _g64(self, k, qs):
        n = self.nchain
        S = []
        W = []
        for j, q in enumerate(qs):
            q = np.asarray(q, np.float64)
            ax = tuple(range(n, q.ndim))
            w = 0.3 + 0.2 * np.cos(np.arange(q[(0,) * n].size if q.ndim > n else 1)).reshape(q.shape[n:])
            W.append(w)
            S.append(np.sum(w * q, axis=ax))
        s = 0.3 * np.cos(sum(S)) + 0.05
        q = np.asarray(qs[k], np.float64)
        s = np.asarray(s).reshape(np.shape(s) + (1,) * (q.ndim - n))
        return -W[k] * q + 0.1 * np.cos(q + k) + s * W[k]

    def _f(self, *qs):
        if self.slow:
            time.sleep(self.slow)
        r = np.asarray(self._f64(qs), self.dtype)
        if self.nonfinite is not None:
            r = np.asarray(self.nonfinite(qs, r), self.dtype)
        return r

    def _gf(self, k, *a):
        if self.slow:
            time.sleep(self.slow)
        dy = np.asarray(a[-1], np.float64)
        q = a[k]
        r = np.asarray(self._g64(k, a[:-1]) * dy.reshape(dy.shape + (1,) * (np.ndim(q) - self.nchain)), self.dtype)
        if self.nongrad is not None:
            r = np.asarray(self.nongrad(a[:-1], r), self.dtype)
        return r

    def _arrays(self, lams):
        return [np.array([l(*ix) for ix in np.ndindex(*s)], float).reshape(s) for l, s in zip(lams, self.shapes)]

    def _num_lj(self, args, lams, env):
        return float(np.asarray(self._f64(self._arrays(lams)))[tuple(int(a) for a in args)])

    def _num_g(self, k):
        def f(args, lams, env):
            qs = self._arrays(lams[:-1])
            cs = self.shapes[0][:self.nchain]
            dy = np.array([lams[-1](*ix) for ix in np.ndindex(*cs)], float).reshape(cs)
            g = self._g64(k, qs)
            g = g * dy.reshape(dy.shape + (1,) * (g.ndim - self.nchain))
            return float(g[tuple(int(a) for a in args)])
        return f

    # ------------------------------------------------------- symbols
    def _lams(self, tens):
        out = []
        for t in tens:
            vs = [bvar('a', s) for s in t.shape]
            out.append(tm.lam(vs, t.at(*vs)))
        return out

    def _sym(self, ev, op):
        xs = [ev.ten(t) if not isref(t) else ev._version(t, op) for t in op.inputs]
        tok = _TOK.get(_token(op))
        if tok is None or tok[1] is not self:
            raise Unsupported('foreign py_func')
        g = {}
        for x in xs:
            g.update(x.guards)
        if tok[0] == 'lj':
            r = self.value(xs)
        else:
            r = self.grad(tok[2], xs[:-1], xs[-1])
        r.guards = g
        return [r]

    def value(self, tens):
        lams = self._lams(tens)
        return Ten([ival(s) for s in self.shapes[0][:self.nchain]], lambda *c: tm.app('LJ', c, lams), self.dtype)

    def grad(self, k, tens, dy=None):
        if dy is None:
            dy = Ten([ival(s) for s in self.shapes[0][:self.nchain]], lambda *c: tm.const(1), self.dtype)
        lams = self._lams(list(tens) + [dy])
        return Ten([ival(s) for s in self.shapes[k]], lambda *i: tm.app('G%d' % k, i, lams), self.dtype)


class StepCase(Case):
    """A case about the effect of running an op once."""

    def __init__(self, label, seed=1, trials=2, mode='static', **kw):
        Case.__init__(self, label, seed, mode, trials=trials, **kw)
        self.apps = {}
        self.vdom = {}          # variable op name -> generator(rng, shape, trial)
        self.hb = None
        self._fetches = []
        self.inter = 1

    def apps_num(self):
        d = dict(Case.apps_num(self))
        d.update(self.apps)
        return d

    # ------------------------------------------------------- set-up
    def variable(self, name, shape, dtype='float32'):
        with self.graph.as_default():
            return tf.Variable(tf.zeros(shape, getattr(tf, dtype)), name=name)

    def begin(self, fetches):
        """fetches: everything run together in one step."""
        self._fetches = [f._variable if hasattr(f, '_variable') else f for f in fetches]
        self.hb = HB(self._fetches)
        for v in self.hb.variables():
            self._bind(v)
        self.ge = None
        return self.hb

    def _bind(self, v):
        if v.name in self.state:
            return
        sh = tf.TensorShape(v.get_attr('shape')).as_list()
        dtp = v.outputs[0].dtype.base_dtype.name
        sort = sort_of(dtp)
        nm = 'var:' + v.name
        self.state[v.name] = Ten([ival(s) for s in sh], lambda *i: tm.rd(nm, i, sort), dtp)

    def vten(self, v):
        op = v.op if hasattr(v, 'op') else v
        self._bind(op)
        return self.state[op.name]

    def ev(self):
        if self.ge is None:
            self.ge = self.evaluator()
        return self.ge

    def evaluator(self):
        ge = StepEval(self.hb, {d['tensor'].name: d['ten'] for d in self.inputs.values()
                                if d['tensor'] is not None}, self.state, self.abstract)
        ge.loop_rule = getattr(self, 'loop_rule', None)
        return ge

    # ------------------------------------------------------- obligations
    def races(self, name='accesses are ordered with the write that replaces the value'):
        obs = []
        bad, n = self.hb.races()
        by = {}
        for r in bad:
            by.setdefault(r[0].name, []).append(r)
        for v in self.hb.variables():
            if not self.hb.writes(v):
                continue
            o = self.obl('%s: %s' % (v.name, name))
            o.kind = 'happens-before'
            o.backend = 'happens-before closure over %d control-flow valuations' % len(self.hb.worlds)
            o.regions = len(self.hb.worlds)
            rs = by.get(v.name, [])
            if rs:
                o.status = 'differs'
                o.detail = '; '.join(describe(r) for r in rs[:3])
                o.cex = dict(kind='schedule', races=[describe(r) for r in rs[:10]])
            else:
                o.status = 'proved'
            obs.append((o, rs))
        return obs, n

    def after(self, name, v, spec, **kw):
        """Obligation: variable v holds `spec` after the step."""
        op = v.op if hasattr(v, 'op') else v
        return self._ob(name, lambda ge: ge.final(op), spec, ('var', op), **kw)

    def reports(self, name, t, spec, **kw):
        """Obligation: the fetched tensor t has the value `spec`."""
        t = t._variable if hasattr(t, '_variable') else t
        return self._ob(name, lambda ge: ge.fetch(t), spec, ('fetch', t), **kw)

    def _ob(self, name, f, spec, what, alts=(), noise=None, rtol=None, atol=None, facts=None, cut=None):
        """cut: (evaluator, spec) in which some intermediate values are arbitrary; tried first."""
        o = self.obl(name)
        t0 = time.time()
        if cut is not None:
            try:
                self._prove_ten(o, f(cut[0]), cut[1], (facts or self.facts).copy())
            except Exception as e:
                o.status, o.detail = 'unsupported', repr(e)[:200]
            if o.status == 'proved':
                o.time_s = time.time() - t0
                self.pending.append((o, spec, what, rtol, atol))
                return o
            o.status, o.detail = 'open', ''
        try:
            ten = f(self.ev())
            self._prove_ten(o, ten, spec, facts or self.facts)
            for lemma, sp in alts:
                if o.status == 'proved':
                    break
                o2 = self.obl(name)
                self.obls.pop()
                self._prove_ten(o2, ten, sp, facts or self.facts)
                if o2.status == 'proved':
                    o.status, o.detail, o.regions, o.backend, o.gv = o2.status, '', o2.regions, o2.backend, o2.gv
                    o.used = dict(o2.used, **{lemma: 1})
        except Unsupported as e:
            o.status, o.detail = 'unsupported', 'Unsupported: %s' % e
        except ShapeError as e:
            o.status, o.detail = 'differs', 'ill-shaped graph: %s' % e
        except Exception:
            o.status, o.detail = 'unsupported', 'engine: %s' % traceback.format_exc(limit=-3)
        o.time_s = time.time() - t0
        self.pending.append((o, spec, what, rtol, atol))
        return o

    pending = None

    def obl(self, name):
        if self.pending is None:
            self.pending = []
        return Case.obl(self, name)

    # ------------------------------------------------------- replay
    def set_vars(self, trial):
        vals = {}
        for v in self.hb.variables():
            sh = tf.TensorShape(v.get_attr('shape')).as_list()
            dtp = v.outputs[0].dtype.base_dtype.name
            g = self.vdom.get(v.name)
            if g is None:
                x = self.rng.normal(size=sh) if dtp.startswith('float') else self.rng.randint(0, 6, size=sh)
            else:
                x = g(self.rng, sh, trial)
            vals[v.name] = np.asarray(x).astype(dtp)
        return vals

    def load(self, sess, vals):
        for v in self.hb.variables():
            a = self.graph.get_operation_by_name(v.name + '/Assign')
            sess.run(a, {a.inputs[1]: vals[v.name]})

    def noise_ops(self):
        out = []
        for o in self.hb.order:
            if o.type in ('RandomStandardNormal', 'RandomUniform', 'TruncatedNormal'):
                out.append(o)
        return out

    def run_once(self, trial, tweak=None):
        dims, vals = self.gen(trial)
        sv = self.set_vars(trial)
        if tweak:
            tweak(vals, sv)
        fd = self.feed(vals, dims)
        noise = {}
        self.graph.is_feedable = lambda t: True
        env = self.env(vals, dims, {'var:' + k: v for k, v in sv.items()})
        for o in self.noise_ops():
            t = o.outputs[0]
            sh = t.get_shape()
            if sh.is_fully_defined():
                s = sh.as_list()
            else:
                try:
                    s = [int(tm.evaluate(x, env)) for x in self.ev().ten(t).shape]
                except Exception:
                    from tensorflow.python.framework import tensor_util
                    s = [int(x) for x in np.atleast_1d(self.session().run(o.inputs[0], fd))]
            x = self.rng.normal(size=s) if o.type != 'RandomUniform' else self.rng.uniform(0.001, .999, size=s)
            x = x.astype(t.dtype.base_dtype.name)
            fd[t] = x
            noise['noise:' + o.name] = x
        return dims, vals, sv, noise, fd

    def execute(self, sess, sv, fd, extra=()):
        with self.graph.as_default():
            self.load(sess, sv)
            got = sess.run(list(self._fetches) + list(extra), fd, options=tf.RunOptions(timeout_in_ms=90000))
            post = {v.name: sess.run(v.outputs[0]) for v in self.hb.variables()}
        return got, post

    def replay(self, tweak=None, skip=None):
        """Runs the real step and compares every pending obligation."""
        if not self.pending:
            return
        pend = list(self.pending)
        fet = {}
        for i, f in enumerate(self._fetches):
            if hasattr(f, 'value_index'):
                fet[f] = i
        extra = []
        for o, spec, what, rt, at in pend:
            if what[0] == 'fetch' and what[1] not in fet:
                fet[what[1]] = len(self._fetches) + len(extra)
                extra.append(what[1])
        for trial in range(self.trials):
            try:
                dims, vals, sv, noise, fd = self.run_once(trial, tweak)
            except Exception:
                for p in pend:
                    p[0].detail += ' [gen failed: %s]' % traceback.format_exc(limit=-2)
                return
            try:
                got, post = self.execute(self.session(), sv, fd, extra)
            except Exception as e:
                for o, spec, what, rt, at in pend:
                    o.status = 'refuted'
                    o.detail = 'the real code fails at run time: %s' % str(e)[:300]
                    o.cex = dict(kind='runtime-error', error=str(e)[:600], state=js(sv), inputs=js(vals))
                return
            env = self.env(vals, dims, dict({'var:' + k: v for k, v in sv.items()}, **noise))
            for o, spec, what, rt, at in pend:
                if o.status == 'refuted':
                    continue
                try:
                    want = self.spec_array(spec, dims, env)
                except Exception as e:
                    o.detail += ' [spec evaluation failed: %r]' % (e,)
                    continue
                g = post[what[1].name] if what[0] == 'var' else np.asarray(got[fet[what[1]]])
                dtp = spec.dtype if sort_of(spec.dtype) == 'R' else 'int'
                r0, a0 = self.tol(dtp)
                if tuple(g.shape) != tuple(want.shape):
                    o.status, o.detail = 'refuted', 'shape %s, specified %s' % (g.shape, want.shape)
                    o.cex = dict(kind='shape', got=list(g.shape), want=list(want.shape))
                    continue
                o.numeric += 1
                if spec.dtype == 'float32':
                    with np.errstate(all='ignore'):
                        want = want.astype(np.float32).astype(float)
                bad = mismatch(g, want, rt if rt is not None else r0, at if at is not None else a0)
                if bad is not None:
                    o.status = 'refuted'
                    o.detail = 'real code gives %r, specified %r at index %s' % (g[bad], want[bad], bad)
                    o.cex = dict(kind='value', index=list(bad), got=repr(g[bad]), want=repr(want[bad]),
                                 inputs=js(vals), state=js(sv), noise=js(noise))
    def session(self):
        if self.sess is None:
            cfg = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=self.inter)
            cfg.graph_options.rewrite_options.disable_meta_optimizer = True
            cfg.graph_options.optimizer_options.opt_level = -1
            self.sess = tf.Session(graph=self.graph, config=cfg)
        return self.sess

"""A verification case: one configuration of the real code, its universally
quantified inputs, and the obligations proved about the graph it builds."""
from __future__ import annotations
import hashlib
import math
import time
import traceback
import numpy as np
from .env import tf
from . import terms as tm
from . import tensor as tn
from . import smt
from .terms import ival, isc, cval
from .tensor import Ten, Unsupported, ShapeError, simp, same, sort_of
from .norm import Facts, bvar, VB
from .graph import GraphEval
from .prove import prove_eq

DIMS = {'A': 2, 'B': 3, 'C': 2, 'K': 3, 'S': 2, 'R': 2, 'N': 2, 'D': 3, 'M': 3, 'L': 2}


class Broken(Exception):
    """The real code returned something without the documented interface."""


class Obl(object):
    """Result of one obligation."""

    def __init__(self, name):
        self.name = name
        self.status = 'open'
        self.detail = ''
        self.cex = None
        self.regions = 0
        self.used = {}
        self.kind = 'vc'
        self.backend = ''
        self.time_s = 0.0
        self.numeric = 0
        self.gv = 0

    def as_dict(self):
        return dict(self.__dict__)


class Case(object):
    def __init__(self, label, seed=1, mode='dynamic', trials=4, dims=None, concrete=None):
        self.label = label
        self.mode = mode
        self.concrete = mode == 'static' if concrete is None else concrete
        self.rng = np.random.RandomState(
            (int(hashlib.md5(label.encode()).hexdigest()[:8], 16) + 7919 * seed) % (2 ** 31))
        self.graph = tf.Graph()
        self.inputs = {}       # name -> dict(tensor, ten, shape, dtype, dom)
        self.facts = Facts()
        self.obls = []
        self.trials = trials
        self.dims = dict(DIMS, **(dims or {}))
        self.state = {}
        self.abstract = {}
        self.ge = None
        self.sess = None
        self.rawnums = {}
        self.extra_feed = []   # fn(vals, dims) -> dict tensor->array
        self.post_gen = []     # fn(vals, dims): adjust generated values in place

    # ------------------------------------------------------------ inputs
    def cdim(self, s, mode=None):
        """symbolic dim of a shape entry"""
        if isinstance(s, int):
            return ival(s)
        if self.concrete or mode == 'static':
            return ival(self.dims[s])
        return tm.dim(s)

    def ph(self, name, shape, dtype='float64', dom='real', mode=None, static=None, bound=None):
        mode = mode or self.mode
        if static is None:
            if mode == 'static':
                static = [s if isinstance(s, int) else self.dims[s] for s in shape]
            elif mode == 'unknown':
                static = None
            elif mode == 'partial':
                static = [None if i % 2 == 0 else (s if isinstance(s, int) else None)
                          for i, s in enumerate(shape)]
            else:
                static = [None] * len(shape)
        with self.graph.as_default():
            t = tf.placeholder(getattr(tf, dtype), shape=static, name=name)
        sort = sort_of(dtype)
        key = name
        ten = Ten([self.cdim(s, mode) for s in shape], lambda *i: tm.rd(key, i, sort), dtype)
        self.inputs[name] = dict(tensor=t, ten=ten, shape=list(shape), dtype=dtype, dom=dom, mode=mode,
                                 bound=bound)
        self._facts(name, dom, bound, mode)
        return t

    def hidden(self, name, shape, dtype='float64', dom='real', bound=None, mode=None):
        """A universally quantified array that is not fed itself (derived inputs use it)."""
        sort = sort_of(dtype)
        ten = Ten([self.cdim(s, mode) for s in shape], lambda *i: tm.rd(name, i, sort), dtype)
        self.inputs[name] = dict(tensor=None, ten=ten, shape=list(shape), dtype=dtype, dom=dom,
                                 mode=mode or self.mode, bound=bound)
        self._facts(name, dom, bound, mode or self.mode)
        return ten

    def derived(self, name, shape, dtype, ten, mode=None):
        """A placeholder whose value is the given expression over other inputs."""
        t = self.ph(name, shape, dtype, mode=mode)
        self.inputs[name]['ten'] = ten
        self.inputs[name]['dom'] = 'derived'
        return t

    def intph(self, name, sym, dtype='int32', lo=1):
        """scalar integer placeholder whose value is the symbolic dimension `sym`."""
        with self.graph.as_default():
            t = tf.placeholder(getattr(tf, dtype), shape=[], name=name)
        d = tm.dim(sym)
        self.facts.dimlo[sym] = lo
        self.inputs[name] = dict(tensor=t, ten=Ten([], lambda: d, dtype), shape=[], dtype=dtype,
                                 dom='dim', dimname=sym, mode='dynamic', lo=lo)
        return t

    def _facts(self, name, dom, bound, mode):
        if dom in ('pos',):
            self.facts.tprop[name] = {'pos'}
        elif dom == 'unit':
            self.facts.tprop[name] = {'unit'}
        elif dom in ('count', 'posint'):
            self.facts.tprop[name] = {'nonneg', 'int'}
        elif dom == 'binary':
            self.facts.tprop[name] = {'nonneg', 'int'}
        elif dom == 'nonneg':
            self.facts.tprop[name] = {'nonneg'}
        elif dom == 'category':
            self.facts.tprop[name] = {'nonneg', 'int'}
            self.facts.tbound[name] = self.cdim(bound, mode) if not isinstance(bound, tm.T) else bound

    def ten(self, name):
        return self.inputs[name]['ten']

    # ------------------------------------------------------------ symbolic run
    def ev(self):
        if self.ge is None:
            self.ge = GraphEval({d['tensor'].name: d['ten'] for d in self.inputs.values()
                                 if d['tensor'] is not None},
                                self.state, self.abstract)
        return self.ge

    # ------------------------------------------------------------ numeric run
    def gen(self, trial):
        dims = {}
        for n in self.dims:
            dims[n] = int(self.rng.randint(1, 5)) if not self.concrete else self.dims[n]
        if trial == 0:
            dims = dict(self.dims)
        names = sorted(n for n in dims)
        if trial == 1 and not self.concrete:
            # pairwise distinct sizes expose axis mix-ups
            p = self.rng.permutation(len(names))
            for i, n in enumerate(names):
                dims[n] = 2 + int(p[i]) % 4
        for d in self.inputs.values():
            if d['dom'] == 'dim':
                dims[d['dimname']] = int(self.rng.randint(d['lo'], d['lo'] + 4))
        for n, lo in self.facts.dimlo.items():
            if dims.get(n, lo) < lo:
                dims[n] = lo
        vals = {}
        scale = [1.0, 1.0, 3.0, 0.3, 10.0][trial % 5]
        for name, d in self.inputs.items():
            if d['dom'] != 'derived':
                vals[name] = self.gen_one(d, dims, scale, trial)
        for f in self.post_gen:
            f(vals, dims, trial)
        for name, d in self.inputs.items():
            if d['dom'] == 'derived':
                vals[name] = self.spec_array(d['ten'], dims, tm.Env(dims, vals, self.apps_num())).astype(d['dtype'])
        return dims, vals

    def gen_one(self, d, dims, scale, trial):
        r = self.rng
        dm = self.dims if self.concrete else dims
        shape = [s if isinstance(s, int) else dm[s] for s in d['shape']]
        dom = d['dom']
        if dom == 'dim':
            return np.asarray(dims[d['dimname']], d['dtype'])
        if dom == 'real':
            v = r.normal(size=shape) * scale
        elif dom == 'pos':
            v = np.exp(r.normal(size=shape) * min(scale, 1.0))
        elif dom == 'nonneg':
            v = np.abs(r.normal(size=shape)) * scale
        elif dom == 'unit':
            v = r.uniform(0.02, 0.98, size=shape)
        elif dom == 'count':
            v = r.randint(0, 6, size=shape)
        elif dom == 'posint':
            v = r.randint(1, 6, size=shape)
        elif dom == 'binary':
            v = r.randint(0, 2, size=shape)
        elif dom == 'category':
            b = d['bound'] if isinstance(d['bound'], int) else dm[d['bound']]
            v = r.randint(0, b, size=shape)
        elif dom == 'bool':
            v = r.randint(0, 2, size=shape).astype(bool)
        else:
            raise ValueError(dom)
        return np.asarray(v).astype(d['dtype'])

    def session(self):
        if self.sess is None:
            cfg = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
            # the graph as built, not as rewritten by the optimiser
            cfg.graph_options.rewrite_options.disable_meta_optimizer = True
            cfg.graph_options.optimizer_options.opt_level = -1
            self.sess = tf.Session(graph=self.graph, config=cfg)
        return self.sess

    def feed(self, vals, dims):
        fd = {self.inputs[n]['tensor']: v for n, v in vals.items()
              if n in self.inputs and self.inputs[n]['tensor'] is not None}
        for f in self.extra_feed:
            fd.update(f(vals, dims))
        return fd

    def env(self, vals, dims, extra=None):
        dd = dict(dims)
        return tm.Env(dd, dict(vals, **(extra or {})), dict(self.apps_num()))

    def apps_num(self):
        return APPS

    # ------------------------------------------------------------ obligations
    def obl(self, name):
        o = Obl('%s :: %s' % (self.label, name))
        self.obls.append(o)
        return o

    def prove(self, name, code, spec, rtol=None, numeric=True, noise=False, atol=None, facts=None,
              alts=()):
        """Obligation: forall inputs, tensor `code` equals symbolic tensor `spec`
        (same shape, same elements).  `code` may be a tf tensor or a Ten."""
        o = self.obl(name)
        t0 = time.time()
        ten = None
        try:
            ten = self.ev().ten(code) if not isinstance(code, Ten) else code
            self._prove_ten(o, ten, spec, facts or self.facts)
            for lemma, sp in alts:
                # `sp` equals `spec` by a lemma schema proved in lean/
                if o.status == 'proved':
                    break
                o2 = Obl(o.name)
                self._prove_ten(o2, ten, sp, facts or self.facts)
                if o2.status == 'proved':
                    o.status, o.detail, o.regions, o.used, o.backend, o.gv = (
                        o2.status, '', o2.regions, dict(o2.used, **{lemma: 1}), o2.backend, o2.gv)
        except Unsupported as e:
            o.status, o.detail = 'unsupported', 'Unsupported: %s' % e
        except ShapeError as e:
            o.status, o.detail = 'differs', 'ill-shaped graph: %s' % e
        except Exception as e:
            o.status, o.detail = 'unsupported', 'engine: %s' % traceback.format_exc(limit=-3)
        if numeric and not isinstance(code, Ten):
            self.numeric(o, code, spec, ten, rtol, atol)
        o.time_s = time.time() - t0
        return o

    def _prove_ten(self, o, ten, spec, facts):
        if ten.rank != spec.rank:
            o.status, o.detail = 'differs', 'rank %d, specified %d' % (ten.rank, spec.rank)
            return
        for a, b in zip(ten.shape, spec.shape):
            if not same(a, b):
                r = prove_eq(a, b, facts)
                if not r.ok:
                    o.status, o.detail = 'differs', 'shape %s, specified %s' % (ten.shape, spec.shape)
                    return
        if any(isc(s, 0) for s in spec.shape):
            o.status, o.backend = 'proved', 'shape equality (no elements)'
            return
        idx = []
        for s in spec.shape:
            idx.append(ival(0) if isc(s, 1) else bvar('i', s))
        for v in idx:
            if v.op == 'v':
                facts.vbound[v] = VB[v]
        a, b = ten.at(*idx), spec.at(*idx)
        self._prove_terms(o, a, b, facts)

    def _prove_terms(self, o, a, b, facts):
        r = prove_eq(a, b, facts, label=o.name)
        o.regions = len(r.regions)
        o.used = r.used
        if r.ok:
            ans = smt.discharge([(i, g) for i, g in enumerate(r.goals)])
            bad = [i for i in range(len(r.goals)) if ans.get(i) != ['unsat']]
            smt.STATS['goals'] += len(r.goals)
            smt.STATS['discharged'] += len(r.goals) - len(bad)
            if bad or not (r.goals or r.regions):
                o.status, o.detail = 'unsupported', 'z3 did not confirm: %s %s' % (
                    [ans.get(i) for i in bad], ans.get('__errors__', ''))
            else:
                o.status, o.backend = 'proved', 'normal form + z3 (%d regions)' % len(r.goals)
                o.gv = len(r.goals)
        elif r.status == 'differs':
            o.status, o.detail = 'differs', r.detail
        else:
            o.status, o.detail = 'unsupported', 'giveup: ' + r.detail

    def prove_terms(self, name, a, b, facts=None):
        o = self.obl(name)
        t0 = time.time()
        try:
            self._prove_terms(o, a, b, facts or self.facts)
        except Exception as e:
            o.status, o.detail = 'unsupported', 'engine: %s' % traceback.format_exc(limit=-3)
        o.time_s = time.time() - t0
        return o

    def fact(self, name, ok, detail='', kind='structural'):
        """A decided structural obligation (no arithmetic left)."""
        o = self.obl(name)
        o.kind = kind
        o.status = 'proved' if ok else 'refuted'
        o.backend = 'evaluated on the extracted graph'
        o.detail = '' if ok else detail
        if not ok:
            o.cex = dict(kind='structural', detail=detail)
        return o

    def graph_int(self, x):
        if isinstance(x, (int, np.integer)):
            return int(x)
        with self.graph.as_default():
            return int(self.session().run(x))

    def static_ok(self, name, static, spec):
        """Static shape `static` (tf.TensorShape) does not contradict the shape `spec`
        (entries: ints or dimension names), for any sizes."""
        bad = ''
        if static.ndims is not None:
            if static.ndims != len(spec):
                bad = 'static rank %s, shape %s' % (static, spec)
            else:
                for d, s in zip(static.as_list(), spec):
                    if d is None:
                        continue
                    want = s if isinstance(s, int) else (self.dims[s] if self.concrete else None)
                    if want != d:
                        bad = 'static shape %s, actual shape %s' % (static, spec)
        return self.fact(name, not bad, bad)

    def tol(self, dtype):
        return {'float64': (1e-7, 1e-9), 'float32': (2e-3, 2e-4), 'float16': (5e-2, 5e-2)}.get(dtype, (0, 0))

    def spec_array(self, spec, dims, env):
        shape = [int(tm.evaluate(s, env)) for s in spec.shape]
        out = np.zeros(shape, dtype=object)
        memo = {}
        for ix in np.ndindex(*shape):
            out[ix] = tm._ev(spec.at(*[ival(i) for i in ix]), env, {}, memo)
        s = sort_of(spec.dtype)
        return out.astype({'R': float, 'I': int, 'B': bool}[s])

    def numeric(self, o, tensor, spec, ten=None, rtol=None, atol=None):
        """Replays the obligation on the real runtime; a mismatch is a counterexample."""
        for trial in range(self.trials):
            try:
                dims, vals = self.gen(trial)
                env0 = self.env(vals, dims)
            except Exception:
                o.detail += ' [gen failed: %s]' % traceback.format_exc(limit=-2)
                return
            noise = {}
            fd = self.feed(vals, dims)
            fetch = {'out': tensor}
            if self.ge is not None:
                for n in self.ge.noises:
                    fetch[n.name] = n.tensor
            try:
                with self.graph.as_default():
                    got = self.session().run(fetch, fd)
            except Exception as e:
                o.status = 'refuted'
                o.cex = dict(kind='runtime-error', dims=self.usedims(dims), inputs=js(vals),
                             error='%s: %s' % (type(e).__name__, str(e)[:400]))
                o.detail = 'the real code fails at run time: %s' % str(e)[:200]
                return
            env = self.env(vals, dims, {k: v for k, v in got.items() if k != 'out'})
            try:
                want = self.spec_array(spec, dims, env)
            except Exception as e:
                o.detail += ' [spec evaluation failed: %r]' % (e,)
                return
            g = np.asarray(got['out'])
            if tuple(g.shape) != tuple(want.shape):
                o.status = 'refuted'
                o.cex = dict(kind='shape', dims=self.usedims(dims), inputs=js(vals), got=list(g.shape),
                             want=list(want.shape))
                o.detail = 'shape %s, specified %s' % (g.shape, want.shape)
                return
            o.numeric += 1
            rt, at = self.tol(spec.dtype if sort_of(spec.dtype) == 'R' else 'int')
            rt, at = rtol if rtol is not None else rt, atol if atol is not None else at
            bad = mismatch(g, want, rt, at)
            if bad is not None:
                o.status = 'refuted'
                o.cex = dict(kind='value', dims=self.usedims(dims), inputs=js(vals), index=list(bad),
                             got=repr(g[bad]), want=repr(want[bad]),
                             noise=js({k: v for k, v in got.items() if k.startswith('noise:')}))
                o.detail = 'real code gives %r, specified %r at index %s' % (g[bad], want[bad], bad)
                return

    def usedims(self, dims):
        used = set()
        for d in self.inputs.values():
            used |= {s for s in d['shape'] if isinstance(s, str)}
            if d['dom'] == 'dim':
                used.add(d['dimname'])
        return {k: v for k, v in dims.items() if k in used}

    def close(self):
        if self.sess is not None:
            self.sess.close()


def _trisolve(lower):
    def f(args, lams, env):
        n, r = int(args[0]), int(args[1])
        L = np.array([[lams[0](i, j) if (j <= i if lower else j >= i) else 0.0 for j in range(n)]
                      for i in range(n)], dtype=float).reshape(n, n)
        y = np.array([lams[1](i) for i in range(n)], dtype=float)
        return float(np.linalg.solve(L, y)[r])
    return f


APPS = {'trisolve_L': _trisolve(True), 'trisolve_U': _trisolve(False)}


def js(vals):
    return {k: np.asarray(v).tolist() for k, v in vals.items()}


def mismatch(g, w, rt, at):
    """index of a differing element or None"""
    if w.dtype == bool or g.dtype == bool:
        d = g.astype(bool) != w.astype(bool)
    else:
        gf, wf = g.astype(float), w.astype(float)
        with np.errstate(all='ignore'):
            d = np.abs(gf - wf) > at + rt * np.maximum(np.abs(wf), 1.0 if rt else 0.0)
            d = d | (np.isnan(gf) != np.isnan(wf))
            infm = np.isinf(gf) | np.isinf(wf)
            d = np.where(infm, gf != wf, d)
            d = np.where(np.isnan(gf) & np.isnan(wf), False, d)
    ix = np.argwhere(d)
    if len(ix) == 0:
        return None
    return tuple(int(i) for i in ix[0])

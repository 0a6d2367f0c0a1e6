"""C08: observe() binds exactly the given observations, to its own net only."""
from __future__ import annotations
import contextlib
import itertools
import warnings
import numpy as np
from ..env import tf
from .. import hist
from ..bnspec import Reg, ADist, add, zs, StochasticTensor
from ..case import Obl
from zhusuan.framework.meta_bn import Local
from zhusuan.framework.bn import BayesianNet

FUNCTIONS = ['zhusuan.framework.meta_bn:' + f for f in (
    'Local.__getattr__', 'Local.__setattr__', 'MetaBayesianNet.__init__', 'MetaBayesianNet.log_joint',
    'MetaBayesianNet._run_with_observations', 'MetaBayesianNet.observe', 'meta_bayesian_net')] + [
    'zhusuan.framework.utils:Context.__enter__', 'zhusuan.framework.utils:Context.__exit__',
    'zhusuan.framework.utils:Context.get_contexts', 'zhusuan.framework.utils:Context.get_context',
    'zhusuan.framework.utils:reuse_variables',
    'zhusuan.framework.bn:_BayesianNet.__init__', 'zhusuan.framework.bn:_BayesianNet._get_observation',
    'zhusuan.framework.bn:_BayesianNet._log_joint', 'zhusuan.framework.bn:StochasticTensor.__init__']
ASSUMPTIONS = [
    'model functions are well bracketed (they may raise, nest observe() calls, and touch nets of outer calls)',
    'single-threaded graph construction, as TensorFlow 1 requires',
    'nesting: observe() is executed on a context stack of unknown content (an abstract list that reports any access '
    'below the part pushed by the call), bodies nest up to three levels; induction over the nesting gives all depths']


class Bottom(Exception):
    pass


class AbsList(list):
    """A list with an unknown (arbitrary) part below the known elements."""

    def __init__(self):
        list.__init__(self)
        self.touched = []

    def _t(self, what):
        self.touched.append(what)

    def pop(self, *a):
        if len(a) and a[0] not in (-1,) or not list.__len__(self):
            self._t('pop')
        return list.pop(self, *a)

    def __getitem__(self, i):
        if not isinstance(i, int) or i >= 0 or -i > list.__len__(self):
            self._t('getitem')
        return list.__getitem__(self, i)

    def __setitem__(self, i, v):
        self._t('setitem')
        return list.__setitem__(self, i, v)

    def __delitem__(self, i):
        if not isinstance(i, int) or i >= 0 or -i > list.__len__(self):
            self._t('delitem')
        return list.__delitem__(self, i)

    def __len__(self):
        self._t('len')
        return list.__len__(self)

    def __bool__(self):
        if not list.__len__(self):
            self._t('bool')
        return list.__len__(self) > 0

    def __iter__(self):
        self._t('iter')
        return list.__iter__(self)

    def clear(self):
        self._t('clear')
        list.clear(self)

    def insert(self, *a):
        self._t('insert')
        list.insert(self, *a)

    def remove(self, *a):
        self._t('remove')
        list.remove(self, *a)


class Boom(Exception):
    pass


NAMES = ('a', 'b', 'c', 'd')
OBSSETS = [(), ('a',), ('b', 'c', 'd'), ('a', 'b', 'c', 'd', 'zz')]


def leafs():
    return [(m, ()) for m in (0, 1, 2)]


def trees(tier):
    t1 = leafs()
    t2 = [(m, ch) for m in (0, 1, 2) for k in range(3) for ch in itertools.product(t1, repeat=k)]
    t3 = [(m, (x,)) for m in (0, 1, 2) for x in t2] + [
        (m, (x, y)) for m in (0, 1, 2) for x in (t2 if tier == 'thorough' else t2[::3]) for y in t1]
    out = []
    for t in t2 + t3:
        if t not in out:
            out.append(t)
    return out


class Run(object):
    """Executes one body tree and checks every net at every point."""

    def __init__(self, label, seed, shift):
        self.reg = Reg(label, seed)
        self.bad = []
        self.calls = 0
        self.shift = shift
        self.metas = {}

    def chk(self, net, name, callid, obs, where):
        node = net.stochastic(name, ADist(self.reg, '%s@%s' % (name, where)))
        want = name in obs
        if node.is_observed() != want:
            self.bad.append('node %r %s: is_observed() is %s, given observations %s' % (
                name, where, node.is_observed(), sorted(obs)))
            return
        v = self.reg.val(node.tensor)
        if want and v != ('obs', callid, name):
            self.bad.append('node %r %s holds %r instead of the value given to this observe()' % (name, where, v))
        if not want and v[:2] != ('sample', '%s@%s' % (name, where)):
            self.bad.append('unobserved node %r %s holds %r' % (name, where, v))

    def old(self, net, name):
        w = StochasticTensor(None, name, ADist(self.reg, 'w'))
        if net.nodes.get(name) is not w:
            self.bad.append('an old-style node is not registered in the net of the innermost `with` block')

    def run(self, tree, depth, parent):
        """runs observe() for this subtree; returns nothing; raises Boom when it propagates"""
        mode, children = tree
        cid = self.calls
        self.calls += 1
        obs = OBSSETS[(cid + self.shift) % len(OBSSETS)]
        given = {n: self.reg.fresh(('obs', cid, n)) for n in obs}
        me = self

        def f(x, y=None):
            if x is not me.arg or y is not me.kw:
                me.bad.append('the model function does not get the original arguments')
            net = BayesianNet()
            me.chk(net, 'a', cid, obs, 'in call %d before nested calls' % cid)
            if parent is not None:
                pnet, pcid, pobs, pn = parent
                if pn:
                    me.chk(pnet, pn.pop(), pcid, pobs, 'of outer call %d, added during call %d' % (pcid, cid))
            late = ['d']
            # the nested calls may be made inside an old-style `with net:` block
            inside = (cid + me.shift) % 3 == 1
            with net if inside else contextlib.nullcontext():
                for i, ch in enumerate(children):
                    if ch[0] == 2:
                        me.run(ch, depth + 1, (net, cid, obs, late))
                    else:
                        try:
                            me.run(ch, depth + 1, (net, cid, obs, late))
                        except Boom:
                            pass
                    n2 = BayesianNet()
                    me.chk(n2, 'a', cid, obs, 'in call %d after nested call' % cid)
                    me.chk(n2, 'b', cid, obs, 'in call %d after nested call' % cid)
                    if inside:
                        me.old(net, 'v%d.%d' % (cid, i))
            me.chk(net, 'b', cid, obs, 'in call %d after nested calls' % cid)
            with net:
                me.old(net, 'w%d' % cid)
                n3 = BayesianNet()
                me.chk(n3, 'a', cid, obs, 'of another net built in the `with` block of call %d' % cid)
                if BayesianNet.get_context() is not net:
                    me.bad.append('BayesianNet.get_context() in the `with` block of a net is another object')
                if mode:
                    raise Boom()
            return net
        # the same meta net may be observed again by a nested call
        key = cid % 2 if depth else 0
        m = zs.MetaBayesianNet(f, args=[self.arg], kwargs=dict(y=self.kw))
        ret = m.observe(**given)
        if mode:
            self.bad.append('the exception of the model function is swallowed')
        if not isinstance(ret, BayesianNet):
            self.bad.append('observe() returns %r' % type(ret))
            return
        self.chk(ret, 'c', cid, obs, 'added after observe() call %d returned' % cid)

    def top(self, tree):
        self.arg, self.kw = object(), object()
        with self.reg.case.graph.as_default(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            before = BayesianNet()
            outer = BayesianNet(observed={'w0': self.reg.fresh(('obs', 'outer', 'w0'))})
            try:
                with outer if self.shift % 4 == 3 else contextlib.nullcontext():
                    self.run(tree, 0, None)
                    if self.shift % 4 == 3:
                        self.old(outer, 'w0')
                        self.chk(BayesianNet(), 'a', None, (), 'of a net built in an outer `with` block')
            except Boom:
                if not tree[0] and not any(propagates(c) for c in tree[1]):
                    self.bad.append('unexpected exception')
            self.chk(before, 'a', None, (), 'of a net created before')
            n = BayesianNet()
            self.chk(n, 'a', None, (), 'of a net created afterwards')
            try:
                BayesianNet.get_context()
                self.bad.append('a net is left on the context stack')
            except RuntimeError:
                pass
        self.reg.close()


def propagates(t):
    return t[0] == 2 or any(propagates(c) for c in t[1])


def abstract_stack(ts, label, seed):
    """contract of observe() on an arbitrary outer stack: the outer part is never touched and the
    part pushed is popped again"""
    probs, n = [], 0
    if not isinstance(getattr(Local, '_contexts', None), list):
        Local.get_contexts()
    if not isinstance(getattr(Local, '_contexts', None), list):
        return None, 0
    saved = Local.__dict__.get('_contexts')
    if saved is None:
        return None, 0
    try:
        for shift, t in ts:
            a = AbsList()
            type.__setattr__(Local, '_contexts', a)
            if Local.get_contexts() is not a:
                return None, 0
            r = Run(label, seed, shift)
            r.arg, r.kw = object(), object()
            with r.reg.case.graph.as_default(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    r.run(t, 0, None)
                except Boom:
                    pass
            if list.__len__(a):
                probs.append('%d contexts left on the stack after %s' % (list.__len__(a), t))
            if a.touched:
                probs.append('touches the outer stack: %s after %s' % (a.touched[:3], t))
            probs += r.bad
            r.reg.close()
            n += 1
            if probs:
                break
    finally:
        type.__setattr__(Local, '_contexts', saved)
    return probs, n


def run_trees(label, seed, tier, part, parts):
    ts = [(i, t) for i, t in enumerate(trees(tier)) if i % parts == part]
    o = Obl('%s :: every net holds its own observe()\'s observations, at every point of every nesting' % label)
    o.kind = 'induction step'
    probs, n = abstract_stack(ts, label, seed)
    abs_ok = probs is not None and not probs
    bad = None
    for i, t in ts:
        r = Run(label, seed, i)
        r.top(t)
        if r.bad:
            bad = (t, r.bad)
            break
    o.regions = len(ts)
    if bad:
        o.status, o.detail = 'refuted', '; '.join(bad[1])[:500]
        o.cex = dict(kind='history', nesting=repr(bad[0]), legend='(mode, children): mode 0 returns, 1 raises (caught by '
                     'the caller), 2 raises (propagates)', problems=bad[1][:5])
    elif abs_ok:
        o.status = 'proved'
        o.backend = 'symbolic execution on a context stack of arbitrary content, %d bodies' % n
    else:
        o.status, o.numeric = 'bounded', len(ts)
        o.detail = 'nesting depth <= 3 only; arbitrary outer stack not decided: %s' % (probs,)
    return [o]


# ---------------------------------------------------------------------- falsy and odd observations
def run_values(label, seed, tier):
    out = []
    vals = [('0', 0, tf.int32), ('0.0', 0.0, tf.float32), ('False', False, tf.bool), ('numpy zeros',
            np.zeros([3], np.float32), tf.float32), ('empty list', [], tf.float32), ('empty array',
            np.zeros([0], np.float32), tf.float32), ('1.5', 1.5, tf.float32), ('list', [0., 1., 0.], tf.float32),
            ('float64 list', [0., 2.], tf.float64)]
    for nm, v, dt in vals:
        for via in ('observe', 'observed='):
            o = Obl('%s :: observation %s via %s is held exactly' % (label, nm, via))
            o.kind = 'structural'
            reg = Reg(label, seed)
            with reg.case.graph.as_default(), warnings.catch_warnings():
                warnings.simplefilter('ignore')

                class D(ADist):
                    def _get_batch_shape(self):
                        return tf.TensorShape(None)

                def f():
                    bn = BayesianNet(observed={'x': v}) if via != 'observe' else BayesianNet()
                    bn.stochastic('x', D(reg, 'x', dt))
                    bn.stochastic('y', D(reg, 'y', dt))
                    return bn
                m = zs.MetaBayesianNet(f)
                bn = m.observe(x=v) if via == 'observe' else f()
                ok = bn['x'].is_observed() and not bn['y'].is_observed()
                if ok:
                    with tf.Session() as s:
                        got = s.run(bn['x'].tensor)
                    w = np.asarray(v, dt.as_numpy_dtype)
                    ok = got.dtype == w.dtype and got.shape == w.shape and np.array_equal(got, w)
            o.status = 'proved' if ok else 'refuted'
            o.backend = 'evaluated'
            if not ok:
                o.detail = 'observation %s (%s) is not the value of the node' % (nm, via)
                o.cex = dict(kind='value', observation=repr(v), via=via, is_observed=bn['x'].is_observed())
            reg.close()
            out.append(o)
    # several observations at once, given and taken in any order; names absent from the net
    for names in itertools.permutations(('a', 'b', 'q')):
        o = Obl('%s :: observations given in the order %s' % (label, names))
        o.kind = 'structural'
        reg = Reg(label, seed)
        bad = []
        with reg.case.graph.as_default():
            given = {n: reg.fresh(('obs', n)) for n in names}

            def f():
                bn = BayesianNet()
                for n in ('b', 'c', 'a'):
                    bn.stochastic(n, ADist(reg, n))
                bn.deterministic('q', reg.fresh(('det', 'q')))
                return bn
            m = zs.MetaBayesianNet(f)
            g0 = dict(given)
            bn = m.observe(**given)
            for n in ('a', 'b'):
                if reg.val(bn[n].tensor) != ('obs', n):
                    bad.append('node %r holds %r' % (n, reg.val(bn[n].tensor)))
            if bn['c'].is_observed() or reg.val(bn['c'].tensor)[0] != 'sample':
                bad.append('unobserved node c is not sampled')
            if reg.val(bn['q']) != ('det', 'q'):
                bad.append('a deterministic node named in the observations changed')
            if set(bn.nodes) != {'a', 'b', 'c', 'q'}:
                bad.append('nodes %s' % sorted(bn.nodes))
            if given != g0:
                bad.append('the observations were modified')
        reg.close()
        o.status = 'refuted' if bad else 'proved'
        o.detail = '; '.join(bad)
        o.cex = dict(kind='history', problems=bad) if bad else None
        out.append(o)
    return out


# ---------------------------------------------------------------------- arguments
def run_args(label, seed, tier):
    out = []

    def ob(name, bad):
        o = Obl('%s :: %s' % (label, name))
        o.kind = 'structural'
        o.status = 'refuted' if bad else 'proved'
        o.detail = str(bad or '')
        o.cex = dict(kind='history', problem=bad) if bad else None
        out.append(o)
    for deco in (False, True):
        for nargs in range(3):
            for kws in ((), ('k',), ('k', 'l')):
                for mut in (False, True):
                    seen = []
                    args = [object() for _ in range(nargs)]
                    kwargs = {k: object() for k in kws}
                    a0, k0 = list(args), dict(kwargs)

                    def f(*a, **k):
                        seen.append((list(a), dict(k)))
                        k['k'] = 'changed by the model'
                        k['new'] = 1
                        return BayesianNet()
                    with tf.Graph().as_default():
                        if deco:
                            m = zs.meta_bayesian_net()(f)(*args, **kwargs)
                        else:
                            m = zs.MetaBayesianNet(f, args=args, kwargs=kwargs)
                        if mut:
                            args.append('later')
                            if nargs:
                                args[0] = 'later'
                            kwargs['k'] = 'later'
                        m.observe(x=1)
                        m.observe()
                        m.observe(y=2)
                    bad = [s for s in seen if s != (a0, k0)]
                    ob('model function sees its original %d args and kwargs %s on every observe() (%s%s)' % (
                        nargs, list(kws), 'decorator' if deco else 'class', ', caller mutates its own' if mut else ''),
                       'saw %r' % (bad[0],) if bad or len(seen) != 3 else None)
    for args, kwargs in ((None, None), (None, {}), ((), None)):
        bad = None
        try:
            with tf.Graph().as_default():
                r = zs.MetaBayesianNet(lambda: 'ret', args=args, kwargs=kwargs).observe(x=1)
                if r != 'ret':
                    bad = 'returned %r' % (r,)
        except Exception as e:
            bad = '%s: %s' % (type(e).__name__, e)
        ob('observe() works with args=%r kwargs=%r' % (args, kwargs), bad)
    return out


# ---------------------------------------------------------------------- overridden log joint
class OWorld(object):
    """Two meta nets, override set / changed / removed at any time, nets built and queried at any time."""

    def __init__(self, label, seed, slots, vals):
        self.slots, self.vals = slots, vals
        self.reg = Reg(label, seed)
        self.over = {0: None, 1: None}
        self.metas = {}
        self.nets = {}      # (i, j) -> dict(net, state)
        with self.reg.case.graph.as_default():
            for i in (0, 1):
                self.metas[i] = zs.MetaBayesianNet(self.model(i))
            self.plain = BayesianNet()
            self.plain.stochastic('x', ADist(self.reg, 'plain'))
        self.fs = {k: self.fn(k) for k in ('f', 'g')}
        self.c = hist.Canon(self.atom, skip=('_f',))

    def model(self, i):
        def f():
            bn = BayesianNet()
            bn.stochastic('x', ADist(self.reg, 'm%d' % i))
            return bn
        return f

    def fn(self, k):
        def h(bn):
            self.called = bn
            return self.reg.fresh(('over', k, self.who(bn)))
        h.__qualname__ = 'override_' + k
        return h

    def who(self, bn):
        for k, d in self.nets.items():
            if d['net'] is bn:
                return k
        return 'unknown'

    def close(self):
        self.reg.close()

    def atom(self, o):
        if isinstance(o, (tf.Tensor, tf.Variable)):
            return ('tensor', self.reg.val(o))
        if isinstance(o, ADist):
            return ('dist', o.tag, o.k)
        if isinstance(o, Reg):
            return ('const',)
        if isinstance(o, tf.DType):
            return ('dtype', o.name)
        return None

    def canon(self):
        return (self.c.of([self.metas, {k: d['net'] for k, d in sorted(self.nets.items())}, self.plain]),
                repr(self.over), repr({k: (d['q'], sorted(d['may'], key=str)) for k, d in sorted(self.nets.items())}))

    def ops(self):
        out = []
        for i in (0, 1):
            if not any(a == i for a, b in self.slots):
                continue
            out += [('override set to f', i), ('override removed', i)]
            if i == 0 and 'g' in self.vals:
                out.append(('override set to g', i))
            if 'bad' in self.vals:
                out.append(('override set to a non-callable', i))
            for j in [b for a, b in self.slots if a == i]:
                out.append(('observe', i, j) if (i, j) not in self.nets else ('log_joint', i, j))
                if (i, j) == (0, 0) and (i, j) in self.nets and 'z' not in self.nets[(i, j)]['net'].nodes:
                    out.append(('node added later', i, j))
        if len(self.slots) == 1:
            out.append(('log_joint of an unrelated net',))
        return out

    def step(self, op):
        p = []
        with self.reg.case.graph.as_default(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                self.do(p, op)
            except Exception as e:
                p.append('raises %s: %s' % (type(e).__name__, str(e)[:200]))
        return p

    def do(self, p, op):
        k = op[0]
        if k.startswith('override'):
            i = op[1]
            v = {'f': 'f', 'g': 'g', 'removed': None, 'non-callable': 'bad'}[k.split()[-1]]
            self.metas[i].log_joint = self.fs[v] if v in self.fs else ('not callable' if v else None)
            if v in self.fs and self.metas[i].log_joint is not self.fs[v]:
                p.append('the property does not return the function set')
            self.over[i] = v
            for (a, b), d in self.nets.items():
                if a == i and d['q']:
                    d['may'] = {v, d['cached']}     # queried before: the cached or the current value
                elif a == i:
                    d['may'] = {v}
        elif k == 'observe':
            net = self.metas[op[1]].observe()
            self.nets[op[1:]] = dict(net=net, q=False, may={self.over[op[1]]}, cached=None)
        elif k == 'node added later':
            d = self.nets[op[1:]]
            d['net'].stochastic('z', ADist(self.reg, 'z%d%d' % op[1:]))
            d['q'] = False
            d['may'] = {self.over[op[1]]}
        elif k == 'log_joint':
            d = self.nets[op[1:]]
            net = d['net']
            ok = []
            for v in d['may']:
                if v is None:
                    ok.append(add([('num', 0.)] + [('lp', n.dist.tag, self.reg.val(n.tensor))
                                                  for n in net.nodes.values()]))
                elif v in ('f', 'g'):
                    ok.append(('over', v, op[1:]))
                else:
                    ok.append('TypeError')
            try:
                r = self.reg.val(net.log_joint())
            except TypeError:
                r = 'TypeError'
            if r not in ok:
                p.append('log_joint() is %r, expected one of %r (overrides %s)' % (r, ok, self.over))
            elif r != 'TypeError':
                d['q'] = True
                d['cached'] = r[1] if r[0] == 'over' else None
                d['may'] = {d['cached'], self.over[op[1]]}
        else:
            r = self.reg.val(self.plain.log_joint())
            if r[:2] != ('lp', 'plain'):
                p.append('log_joint() of an unrelated net is %r' % (r,))


def run_over(label, seed, tier, slots, vals):
    lim = 2500 if tier == 'quick' else 20000
    return hist.explore(label, lambda: OWorld(label, seed, slots, vals), lambda w: w.ops(), lambda w, o: w.step(o),
                        lambda w: w.canon(), max_states=lim)


# ---------------------------------------------------------------------- scope and reuse
def run_scope(label, seed, tier):
    out = []

    def ob(name, bad):
        o = Obl('%s :: %s' % (label, name))
        o.kind = 'structural'
        o.status = 'refuted' if bad else 'proved'
        o.detail = str(bad or '')
        o.cex = dict(kind='history', problem=bad) if bad else None
        out.append(o)

    def model(reg, boom=None, inner=None):
        def f():
            bn = BayesianNet()
            w = tf.get_variable('w', [2], tf.float32)
            bn.deterministic('w', tf.identity(w))
            bn.w = w
            bn.stochastic('x', ADist(reg, 'x'))
            if inner:
                bn.inner = inner()
            if boom and boom.pop():
                raise Boom()
            return bn
        return f
    for build in ('class', 'decorator'):
        def mk(f, **k):
            if build == 'class':
                return zs.MetaBayesianNet(f, **k)
            return zs.meta_bayesian_net(**k)(f)()
        for outer in (None, 'outer'):
            pre = 'outer/' if outer else ''

            def scope():
                return tf.variable_scope(outer) if outer else tf.name_scope('n')
            with tf.Graph().as_default():
                reg = Reg(label, seed)
                reg.case.graph = tf.get_default_graph()
                m1 = mk(model(reg), scope='s', reuse_variables=True)
                m2 = mk(model(reg), scope='t', reuse_variables=True)
                with scope():
                    a, b, c = m1.observe(), m2.observe(), m1.observe(x=reg.fresh(('obs', 'x')))
                bad = None
                if a.w is not c.w:
                    bad = 'two observe() calls create different variables %s %s' % (a.w.name, c.w.name)
                elif a.w is b.w:
                    bad = 'meta nets of different scopes share a variable'
                elif len(tf.global_variables()) != 2:
                    bad = 'variables: %s' % [v.name for v in tf.global_variables()]
                elif 's/' not in a.w.name or 't/' not in b.w.name:
                    bad = 'variables outside their scope: %s %s' % (a.w.name, b.w.name)
                elif a is c or c['x'].is_observed() is not True or a['x'].is_observed():
                    bad = 'reused nets mix up observations'
                ob('%s, scope + reuse_variables%s: variables are created once and shared by all observe() calls' % (
                    build, ' inside another scope' if outer else ''), bad)
            with tf.Graph().as_default():
                reg = Reg(label, seed)
                reg.case.graph = tf.get_default_graph()
                m = mk(model(reg), scope='s')
                bad = None
                with scope():
                    a = m.observe()
                    if a.w.name != pre + 's/w:0':
                        bad = 'variable %s is not in the scope' % a.w.name
                    try:
                        b = m.observe()
                        bad = bad or 'second observe() without reuse shares or shadows variables: %s %s' % (
                            a.w.name, b.w.name)
                    except ValueError:
                        pass
                    if tf.get_variable_scope().name != (outer or ''):
                        bad = 'the variable scope is not restored after an exception'
                    try:
                        BayesianNet()
                        if BayesianNet().stochastic('x', ADist(reg, 'x')).is_observed():
                            bad = 'observations leak'
                    except Exception as e:
                        bad = repr(e)
                ob('%s, scope without reuse%s: variables live in the scope and are not silently shared' % (
                    build, ' inside another scope' if outer else ''), bad)
            with tf.Graph().as_default():
                reg = Reg(label, seed)
                reg.case.graph = tf.get_default_graph()
                m = mk(model(reg))
                with scope():
                    a = m.observe()
                bad = None if a.w.name == pre + 'w:0' else 'variable %s' % a.w.name
                ob('%s, no scope%s: variables are the model\'s own' % (build, ' inside another scope' if outer else ''),
                   bad)
        bad = None
        with tf.Graph().as_default():
            try:
                mk(lambda: None, reuse_variables=True)
                bad = 'accepted'
            except ValueError:
                pass
        ob('%s, reuse_variables without scope is rejected' % build, bad)
        # an exception during a reused model leaves it usable, with the right observations
        with tf.Graph().as_default():
            reg = Reg(label, seed)
            reg.case.graph = tf.get_default_graph()
            m = mk(model(reg, boom=[False, True, False]), scope='s', reuse_variables=True)
            bad = None
            x1 = reg.fresh(('obs', 1))
            a = m.observe()
            try:
                m.observe(x=x1)
                bad = 'exception swallowed'
            except Boom:
                pass
            except Exception as e:
                bad = repr(e)[:200]
            m2 = zs.MetaBayesianNet(model(reg), scope='u')
            if m2.observe()['x'].is_observed():
                bad = 'observations of a failed observe() leak into another meta net'
            ob('%s, failed observe() of a reused model leaves nothing behind' % build, bad)
    # the helper of the public API
    with tf.Graph().as_default():
        @zs.reuse_variables('sc')
        def g(k):
            return tf.get_variable('v', [k])
        a, b = g(2), g(2)
        ob('reuse_variables(scope): calls share variables inside the scope',
           None if a is b and a.name == 'sc/v:0' else '%s %s' % (a.name, b.name))
    # metadata of the decorated function is kept
    @zs.meta_bayesian_net()
    def documented(x):
        "doc"
    ob('meta_bayesian_net keeps the function\'s name and doc',
       None if documented.__name__ == 'documented' and documented.__doc__ == 'doc' else documented.__name__)
    return out


def cases(tier, seed):
    parts = 6
    out = [('override, nets of two meta nets', run_over, dict(slots=((0, 0), (1, 0)), vals='f')),
           ('override, two nets of one meta net', run_over, dict(slots=((0, 0), (0, 1)), vals='f'))]
    out.append(('override, one net, two functions', run_over, dict(slots=((0, 0),), vals='f g bad')))
    if tier == 'thorough':
        out.append(('override, three nets', run_over, dict(slots=((0, 0), (0, 1), (1, 0)), vals='f g')))
    out += [('nesting %d/%d' % (i + 1, parts), run_trees, dict(part=i, parts=parts)) for i in range(parts)]
    out += [('values', run_values, {}), ('arguments', run_args, {}), ('scopes', run_scope, {})]
    return out

"""C07: log_joint of a net is the sum over its stochastic nodes after any history."""
from __future__ import annotations
import warnings
from ..env import tf
from .. import hist
from .. import terms as tm
from ..bnspec import Reg, ADist, add, zs, StochasticTensor
from ..tensor import Ten, elementwise
from ..case import Obl

FUNCTIONS = ['zhusuan.framework.bn:' + f for f in (
    'StochasticTensor.__init__', 'StochasticTensor._check_observation', 'StochasticTensor.tensor',
    'StochasticTensor.cond_log_p', '_BayesianNet.__init__', '_BayesianNet.nodes', '_BayesianNet._get_observation',
    '_BayesianNet.stochastic', '_BayesianNet.deterministic', '_BayesianNet._check_name_exist',
    '_BayesianNet._check_names_exist', '_BayesianNet.get', '_BayesianNet.cond_log_prob', '_BayesianNet._log_joint',
    '_BayesianNet.log_joint', '_BayesianNet.__getitem__', '_BayesianNet.__setitem__', 'BayesianNet.__init__',
    'BayesianNet.outputs', 'BayesianNet.local_log_prob', 'BayesianNet.query')]
ASSUMPTIONS = [
    'nets are parametric in node names and tensors: names are only compared for equality, tensors are never inspected '
    'beyond dtype and static shape (two names, three in the thorough tier, represent all)',
    'Distribution is used through its contract: sample() yields a new value, log_prob(x) is a function of x']


class World(object):
    def __init__(self, label, names, obs, via, other, seed):
        self.reg = Reg(label, seed)
        self.names, self.via = names, via
        self.g = self.reg.case.graph
        self.spec = {}              # name -> dict(kind, obj, val, ns)
        self.obs = {}
        self.k = {}
        with self.g.as_default():
            for n in obs:
                self.obs[n] = self.reg.fresh(('obs', n))
            if other:
                # another net with the same names, queried before
                o = zs.BayesianNet()
                for n in names:
                    o.stochastic(n, ADist(self.reg, 'other:' + n))
                o.log_joint()
            box = {}

            def model():
                box['net'] = zs.BayesianNet(observed=dict(self.obs)) if via == 'arg' else zs.BayesianNet()
                return box['net']
            if via == 'meta':
                m = zs.MetaBayesianNet(model, args=[], kwargs={})
                self.net = m.observe(**self.obs)
            else:
                self.net = model()
        self.canon_ = hist.Canon(self.atom)

    def close(self):
        self.reg.close()

    def atom(self, o):
        if isinstance(o, (tf.Tensor, tf.Variable)):
            return ('tensor', self.reg.val(o))
        if isinstance(o, ADist):
            return ('dist', o.tag, o.k)
        if isinstance(o, Reg) or isinstance(o, zs.MetaBayesianNet):
            return ('const', type(o).__name__)
        if isinstance(o, tf.DType):
            return ('dtype', o.name)
        if isinstance(o, tf.Graph):
            return ('graph',)
        return None

    def canon(self):
        sp = tuple((n, s['kind'], s['val'], s['tag']) for n, s in self.spec.items())
        return (self.canon_.of(self.net), sp, tuple(sorted(self.live().items())))

    def live(self):
        """objects already handed out to the caller, whose value must stay"""
        return {n: (s['val'],) for n, s in self.spec.items()}

    # ---------------------------------------------------------------- ops
    def ops(self):
        out = []
        for n in self.names:
            out += [('stochastic', n), ('stochastic(n_samples=7)', n), ('deterministic', n), ('failing deterministic', n),
                    ('node value', n), ('cond_log_prob', n), ('get', n), ('replace', n)]
            if self.via != 'meta':
                out += [('old-style node', n), ('outputs', n), ('local_log_prob', n), ('query', n)]
            if n in self.obs:
                out += [('stochastic with mismatched observation', n)]
                if self.via != 'meta':
                    out += [('old-style node with mismatched observation', n)]
        out += [('get all',), ('cond_log_prob all',), ('log_joint',), ('bad names',)]
        return out

    def step(self, op):
        p = []
        with self.g.as_default(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                getattr(self, 'op_' + {'stochastic': 'S', 'stochastic(n_samples=7)': 'S7', 'deterministic': 'D',
                                       'failing deterministic': 'BD', 'node value': 'T', 'cond_log_prob': 'P',
                                       'get': 'G', 'replace': 'X', 'old-style node': 'W', 'outputs': 'O',
                                       'local_log_prob': 'LP', 'query': 'Q',
                                       'stochastic with mismatched observation': 'BS',
                                       'old-style node with mismatched observation': 'BW', 'get all': 'GA',
                                       'cond_log_prob all': 'PA', 'log_joint': 'L', 'bad names': 'BN'}[op[0]])(p, *op[1:])
            except Exception as e:
                p.append('raises %s: %s' % (type(e).__name__, str(e)[:200]))
            if not p:
                self.registered(p)
        return p

    def tag(self, n):
        self.k[n] = self.k.get(n, 0) + 1
        return n

    def registered(self, p):
        nd = self.net.nodes
        if set(nd) != set(self.spec):
            p.append('net contains %s, expected %s' % (sorted(nd), sorted(self.spec)))
            return
        for n, s in self.spec.items():
            if nd[n] is not s['obj'] or self.net[n] is not s['obj']:
                p.append('name %r no longer returns the node registered under it' % n)

    def raises(self, p, what, exc, f):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            p.append('%s raises %s, not %s' % (what, type(e).__name__, exc))
            return
        p.append('%s is accepted (returns %r)' % (what, type(r).__name__))

    def value(self, n):
        """specified value of stochastic node n: the observation, else one fixed sample"""
        s = self.spec[n]
        if s['val'] is None:
            s['val'] = ('obs', n) if s['observed'] else None
        return s['val']

    def see(self, p, n, v, what):
        s = self.spec[n]
        want = self.value(n)
        if want is None:
            if not (v[0] == 'sample' and v[1] == s['tag'] and v[3] == s['ns']):
                p.append('%s of unobserved node %r is %r, not a sample of its own distribution with its n_samples' % (
                    what, n, v))
            else:
                s['val'] = v
        elif v != want:
            p.append('%s of node %r is %r, must be %r' % (what, n, v, want))

    def see_lp(self, p, n, v, what):
        s = self.spec[n]
        if not (v[0] == 'lp' and v[1] == s['tag']):
            p.append('%s of node %r is %r' % (what, n, v))
            return
        self.see(p, n, v[2], what + ' (point)')

    def create(self, p, n, f, ns=None):
        d = ADist(self.reg, n)
        if n in self.spec:
            self.raises(p, 'duplicate name', ValueError, lambda: f(d))
            return
        node = f(d)
        if not isinstance(node, StochasticTensor):
            p.append('returns %s' % type(node).__name__)
            return
        if node.name != n or node.dist is not d or node.bn is not self.net:
            p.append('node has the wrong name, distribution or net')
        ob = n in self.obs
        if node.is_observed() != ob:
            p.append('is_observed() is %s, observed: %s' % (node.is_observed(), ob))
        self.spec[n] = dict(kind='S', obj=node, val=None, tag=n, ns=repr(ns), observed=ob)

    def op_S(self, p, n):
        self.create(p, n, lambda d: self.net.stochastic(n, d))

    def op_S7(self, p, n):
        self.create(p, n, lambda d: self.net.stochastic(n, d, n_samples=7), 7)

    def op_W(self, p, n):
        def f(d):
            with self.net:
                return StochasticTensor(None, n, d)
        self.create(p, n, f)

    def op_D(self, p, n):
        t = self.reg.fresh(('det', n))
        if n in self.spec:
            self.raises(p, 'duplicate name', ValueError, lambda: self.net.deterministic(n, t))
            return
        r = self.net.deterministic(n, t)
        if self.reg.val(r) != ('det', n):
            p.append('returns %r' % (self.reg.val(r),))
        self.spec[n] = dict(kind='D', obj=self.net[n], val=('det', n), tag=n, ns='None', observed=False)

    def op_BD(self, p, n):
        self.raises(p, 'a value that is no tensor', (TypeError, ValueError),
                    lambda: self.net.deterministic(n, object()))

    def op_BS(self, p, n):
        self.raises(p, 'observation of another dtype', (ValueError, TypeError),
                    lambda: self.net.stochastic(n, ADist(self.reg, n, tf.int32)))

    def op_BW(self, p, n):
        def f():
            with self.net:
                return StochasticTensor(None, n, ADist(self.reg, n, tf.int32))
        self.raises(p, 'observation of another dtype', (ValueError, TypeError), f)

    def op_T(self, p, n):
        if n not in self.spec:
            self.raises(p, 'unknown name', ValueError, lambda: self.net[n])
            return
        r = self.net[n]
        if self.spec[n]['kind'] == 'D':
            if self.reg.val(r) != ('det', n):
                p.append('deterministic node is %r' % (self.reg.val(r),))
        else:
            self.see(p, n, self.reg.val(r.tensor), 'value')

    def op_G(self, p, n):
        if n not in self.spec:
            self.raises(p, 'unknown name', ValueError, lambda: self.net.get(n))
            return
        if self.net.get(n) is not self.spec[n]['obj']:
            p.append('get returns another object')
        r = self.net.get([n])
        if not isinstance(r, list) or len(r) != 1 or r[0] is not self.spec[n]['obj']:
            p.append('get([name]) is not a list of that node')

    def op_GA(self, p):
        if any(n not in self.spec for n in self.names):
            self.raises(p, 'unknown name in list', ValueError, lambda: self.net.get(list(self.names)))
            return
        r = self.net.get(list(reversed(self.names)))
        if not isinstance(r, list) or [id(x) for x in r] != [id(self.spec[n]['obj']) for n in reversed(self.names)]:
            p.append('get(list) does not return the nodes in the order asked')

    def lp_ok(self, n):
        return n in self.spec and self.spec[n]['kind'] == 'S'

    def op_P(self, p, n, f=None):
        f = f or self.net.cond_log_prob
        if not self.lp_ok(n):
            self.raises(p, 'unknown or deterministic name', ValueError, lambda: f(n))
            return
        self.see_lp(p, n, self.reg.val(f(n)), 'log density')

    def op_LP(self, p, n):
        self.op_P(p, n, self.net.local_log_prob)

    def op_PA(self, p):
        if not all(self.lp_ok(n) for n in self.names):
            self.raises(p, 'unknown or deterministic name', ValueError,
                        lambda: self.net.cond_log_prob(list(self.names)))
            return
        r = self.net.cond_log_prob(list(reversed(self.names)))
        if not isinstance(r, list) or len(r) != len(self.names):
            p.append('cond_log_prob(list) returns %r' % (r,))
            return
        for n, t in zip(reversed(self.names), r):
            self.see_lp(p, n, self.reg.val(t), 'log density')

    def op_O(self, p, n):
        if n not in self.spec:
            self.raises(p, 'unknown name', ValueError, lambda: self.net.outputs(n))
        elif self.spec[n]['kind'] == 'S':
            self.see(p, n, self.reg.val(self.net.outputs(n)), 'outputs')

    def op_Q(self, p, n):
        if n not in self.spec:
            self.raises(p, 'unknown name', ValueError, lambda: self.net.query(n, outputs=True))
            return
        if self.spec[n]['kind'] != 'S':
            return
        self.raises(p, 'query without options', ValueError, lambda: self.net.query(n))
        a = self.net.query(n, outputs=True, local_log_prob=True)
        b = self.net.query([n], outputs=True, local_log_prob=True)
        if len(a) != 2 or len(b) != 1 or len(b[0]) != 2:
            p.append('query has the wrong structure')
            return
        for x in (a, b[0]):
            self.see(p, n, self.reg.val(x[0]), 'query output')
            self.see_lp(p, n, self.reg.val(x[1]), 'query log density')

    def op_X(self, p, n):
        t = self.reg.fresh(('repl', n))
        def f():
            self.net[n] = t
        self.raises(p, 'replacement of a node', TypeError, f)

    def op_BN(self, p):
        self.raises(p, 'net[3]', (TypeError, ValueError), lambda: self.net[3])
        self.raises(p, 'get([3])', (TypeError, ValueError), lambda: self.net.get([3]))
        self.raises(p, 'cond_log_prob([3])', (TypeError, ValueError), lambda: self.net.cond_log_prob([3]))

    def op_L(self, p):
        r = self.net.log_joint()
        v = self.reg.val(r)
        S = [n for n, s in self.spec.items() if s['kind'] == 'S']
        # every node's own value is what its density is evaluated at
        want = []
        for n in S:
            x = self.net[n].tensor
            self.see(p, n, self.reg.val(x), 'value')
            want.append(('lp', self.spec[n]['tag'], self.spec[n]['val']))
        if p:
            return
        if v != add([('num', 0.0)] + want):
            q = self.prove_sum(r, want)
            if q:
                p.append(q)

    def prove_sum(self, r, want):
        """general route: any tensor expression equal to the sum for all values of the terms"""
        c = self.reg.case
        if not isinstance(r, tf.Tensor):
            r = tf.convert_to_tensor(r)
        by = {}
        for t, role in self.reg.role.items():
            if role[0] == 'lp':
                by.setdefault(role, []).append(t)
        if any(w not in by for w in want):
            return 'log_joint() is %r, not the sum of %r' % (self.reg.val(r), want)
        # all tensors with the same symbolic value carry the same array
        tens = {}
        for role, ts in by.items():
            base = c.inputs[ts[0].op.name]['ten']
            for t in ts:
                c.inputs[t.op.name]['ten'] = base
                c.inputs[t.op.name]['dom'] = 'derived' if t is not ts[0] else c.inputs[t.op.name]['dom']
            tens[role] = base
        spec = None
        for w in want:
            spec = tens[w] if spec is None else elementwise(tm.add, spec, tens[w])
        if spec is None:
            return 'log_joint() of a net without stochastic nodes is %r' % (self.reg.val(r),)
        o = c.prove('log_joint', r, spec)
        if o.status == 'proved':
            return None
        if o.status == 'unsupported' and o.numeric:
            return None
        return 'log_joint() is %r, specified sum of %r: %s' % (self.reg.val(r), want, o.detail[:200])


def run(label, seed, tier, names, obs, via, other):
    lim = 1500 if tier == 'quick' else 6000
    return hist.explore(label, lambda: World(label, names, obs, via, other, seed), lambda w: w.ops(),
                        lambda w, op: w.step(op), lambda w: w.canon(), max_states=lim)


def cases(tier, seed):
    out = []
    names = ('a', 'b')
    for via, obs, other in (('none', (), False), ('none', (), True), ('arg', ('a',), False), ('arg', ('a', 'b'), True),
                            ('meta', ('a',), False), ('meta', ('a', 'b'), True), ('meta', (), False)):
        out.append(('history names=2 observed=%s via %s%s' % (','.join(obs) or '-', via, ', second net' if other else ''),
                    run, dict(names=names, obs=obs, via=via, other=other)))
    if tier == 'thorough':
        for via, obs in (('none', ()), ('arg', ('a',)), ('meta', ('a', 'c'))):
            out.append(('history names=3 observed=%s via %s' % (','.join(obs) or '-', via), run,
                        dict(names=('a', 'b', 'c'), obs=obs, via=via, other=False)))
    return out

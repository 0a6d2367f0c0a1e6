"""Abstract models and posteriors for the objective contracts (C10, C11): every
log probability is an arbitrary array, the model is an arbitrary function of
the values it is given."""
from __future__ import annotations
import warnings
import numpy as np
from .env import tf
from . import terms as tm, tensor as tn
from .tensor import Ten, elementwise
from .case import Case
from .bnspec import Reg, ADist

warnings.filterwarnings('ignore')
import zhusuan as zs  # noqa: E402


class World(object):
    """One configuration: case, registry of roles, builders."""

    def __init__(self, label, seed, mode, lshape, trials, dtype='float64', qshape=None, cls=Case):
        self.reg = Reg(label, seed)
        self.c = self.reg.case = cls(label, seed, mode=mode, trials=trials)
        self.lshape, self.dtype = list(lshape), dtype
        self.qshape = list(qshape) if qshape is not None else self.lshape
        self.lp = {}            # role -> input name
        self.k = 0
        self.calls = []

    def logp(self, role, shape):
        if role not in self.lp:
            n = 'l%d' % len(self.lp)
            t = self.c.ph(n, shape, self.dtype)
            self.reg.role[t] = role
            self.lp[role] = n
        return self.c.inputs[self.lp[role]]['tensor']

    def value(self, role, dtype='float32'):
        n = 'v%d' % self.k
        self.k += 1
        with self.c.graph.as_default():
            t = tf.placeholder(getattr(tf, dtype), [None], name=n)
        self.reg.role[t] = role
        return t

    def dist(self, tag, shape):
        w = self

        class D(ADist):
            def sample(self, n_samples=None):
                self.k += 1
                return w.value(('sample', tag, self.k))

            def log_prob(self, given):
                return w.logp(('lp', tag, w.reg.val(given)), shape)
        with self.c.graph.as_default():
            return D(self.reg, tag)

    def spec_sum(self, roles):
        t = None
        for r in roles:
            if r not in self.lp:
                return None
            x = self.c.ten(self.lp[r])
            t = x if t is None else elementwise(tm.add, t, x)
        return t


def build(w, form, nlat, extras):
    """Returns (model, observed, latent, variational, p_roles, q_roles, expected)
    where expected maps model node names to the role of the value they must be
    evaluated at.  form: 'fl' function+latent, 'fv', 'ml', 'mv'."""
    zn = ['z%d' % i for i in range(nlat)]
    with w.c.graph.as_default():
        xs = w.value(('obs', 'x'))
        ys = w.value(('obs', 'y'))
        observed = {'x': xs}
        if 'two_obs' in extras:
            observed['y'] = ys
        latent = variational = None
        qroles, expected = [], {}
        if form[1] == 'l':
            latent = {}
            for z in zn:
                s = w.value(('given', z))
                latent[z] = [s, w.logp(('q', z), w.qshape)]
                if 'tuple' in extras:
                    latent[z] = tuple(latent[z])
                qroles.append(('q', z))
                expected[z] = ('given', z)
        else:
            qobs = {}
            if 'qobs' in extras:
                qobs = {'x': xs}

            @zs.meta_bayesian_net()
            def q():
                bn = zs.BayesianNet()
                if 'qobs' in extras or 'qshadow' in extras:
                    bn.stochastic('x', w.dist('q:x', w.qshape))
                for i, z in enumerate(zn):
                    s = bn.stochastic(z, w.dist('q:' + z, w.qshape))
                    if 'qdet' in extras:
                        bn.deterministic('d' + z, tf.identity(s.tensor) * 2.)
                return bn
            variational = q().observe(**qobs)
            for z in zn:
                expected[z] = ('sample', 'q:' + z, 1)
                qroles.append(('lp', 'q:' + z, expected[z]))
            if 'qshadow' in extras:
                # an unobserved variational node named like an observation:
                # it keeps its log q; the model is still given the data
                qroles.append(('lp', 'q:x', ('sample', 'q:x', 1)))
        for o in observed:
            expected[o] = ('obs', o)
        if form[0] == 'f':
            ret = w.logp(('joint',), w.lshape)

            def model(obs):
                w.calls.append(dict(obs))
                return ret
            proles = [('joint',)]
        else:
            names = zn + sorted(observed)

            @zs.meta_bayesian_net()
            def p():
                bn = zs.BayesianNet()
                for z in names:
                    s = bn.stochastic(z, w.dist('p:' + z, w.lshape if z != 'z1' or 'bc' not in extras else w.lshape[-1:]))
                    if 'pdet' in extras:
                        bn.deterministic('pd' + z, tf.identity(s.tensor))
                return bn
            model = p()
            proles = [('lp', 'p:' + z, expected[z]) for z in names]
    return model, observed, latent, variational, proles, qroles, expected

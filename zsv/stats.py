"""Bounded stand-in for laws: statistical tests of the real sampler.

Every test has false-alarm probability far below 1e-7 and runs with a fixed
graph seed, so its verdict is reproducible."""
from __future__ import annotations
import numpy as np
from scipy import stats as st

ALPHA = 1e-9


def pit(b, name, P, x, K):
    """List of (label, kind, data): 'u' arrays must be i.i.d. uniform; 'd' = (counts, probs) chi-square;
    'bool' a condition.  x: draws (M, value shape) at one batch position, P: parameters there."""
    F = lambda *a: [('marginal', 'u', a[0])]
    if name == 'Normal':
        return F(st.norm.cdf(x, P['mean'], P['std']))
    if name == 'FoldNormal':
        m, s = P['mean'], P['std']
        return [('support', 'bool', bool(np.all(x >= 0)))] + F(st.norm.cdf(x, m, s) - st.norm.cdf(-x, m, s))
    if name == 'Uniform':
        return F((x - P['minval']) / (P['maxval'] - P['minval']))
    if name == 'Gamma':
        return F(st.gamma.cdf(x, P['alpha'], scale=1 / P['beta']))
    if name == 'InverseGamma':
        return F(st.invgamma.cdf(x, P['alpha'], scale=P['beta']))
    if name == 'Beta':
        return F(st.beta.cdf(x, P['alpha'], P['beta']))
    if name == 'Laplace':
        return F(st.laplace.cdf(x, P['loc'], P['scale']))
    if name == 'BinConcrete':
        return F(st.logistic.cdf((np.log(x) - np.log1p(-x)) * P['temperature'] - P['logits']))
    if name == 'Bernoulli':
        p = 1 / (1 + np.exp(-P['logits']))
        return [('support', 'bool', bool(np.all((x == 0) | (x == 1)))), ('mass', 'd', table(x, [0, 1], [1 - p, p]))]
    if name == 'Poisson':
        ks = np.arange(0, 60)
        return [('mass', 'd', table(x, ks, st.poisson.pmf(ks, P['rate'])))]
    if name == 'Binomial':
        p = 1 / (1 + np.exp(-P['logits']))
        ks = np.arange(0, P['n'] + 1)
        return [('mass', 'd', table(x, ks, st.binom.pmf(ks, P['n'], p)))]
    if name in ('Categorical', 'OnehotCategorical', 'Multinomial'):
        l = P['logits'] - P['logits'].max()
        pr = np.exp(l) / np.exp(l).sum()
        if name == 'Categorical':
            return [('mass', 'd', table(x, np.arange(len(pr)), pr))]
        if name == 'OnehotCategorical':
            ok = bool(np.all(x.sum(-1) == 1) and np.all((x == 0) | (x == 1)))
            return [('support', 'bool', ok), ('mass', 'd', table(np.argmax(x, -1), np.arange(len(pr)), pr))]
        out = [('support', 'bool', bool(np.all(x.sum(-1) == P['n']) and np.all(x >= 0)))]
        for k in range(len(pr)):
            ks = np.arange(0, P['n'] + 1)
            out.append(('marginal mass', 'd', table(x[:, k], ks, st.binom.pmf(ks, P['n'], pr[k]))))
        return out
    if name == 'Dirichlet':
        a = P['alpha']
        out = [('support', 'bool', bool(np.allclose(x.sum(-1), 1, atol=1e-4)))]
        return out + [('marginal', 'u', st.beta.cdf(x[:, k], a[k], a.sum() - a[k])) for k in range(len(a))]
    if name in ('ExpConcrete', 'Concrete'):
        lx = np.log(x) if name == 'Concrete' else x
        out = [('support', 'bool', bool(np.allclose(np.exp(lx).sum(-1), 1, atol=1e-3)))]
        l, t = P['logits'], P['temperature']
        for i in range(len(l)):
            for j in range(i):
                out.append(('log-ratio', 'u', st.logistic.cdf((lx[:, i] - lx[:, j]) * t - (l[i] - l[j]))))
        return out
    if name == 'MultivariateNormalCholesky':
        z = np.linalg.solve(P['cov_tril'], (x - P['mean']).T).T
        return [('whitened', 'u', st.norm.cdf(z[:, k])) for k in range(z.shape[1])] + [('cross', 'corr', z)]
    if name == 'MatrixVariateNormalCholesky':
        z = np.stack([np.linalg.solve(P['v_tril'], np.linalg.solve(P['u_tril'], xi - P['mean']).T).T for xi in x])
        z = z.reshape(len(z), -1)
        return [('whitened', 'u', st.norm.cdf(z[:, k])) for k in range(z.shape[1])] + [('cross', 'corr', z)]
    raise KeyError(name)


def table(x, ks, pr):
    x = np.asarray(x)
    cnt = np.array([(x == k).sum() for k in ks], float)
    rest = len(x) - cnt.sum()
    pr = np.asarray(pr, float)
    return cnt, pr, rest


def test(kind, d):
    """None if consistent, else a description"""
    if kind == 'bool':
        return None if d else 'outside the support'
    if kind == 'u':
        d = np.ravel(d)
        if np.any(~np.isfinite(d)) or np.any(d < 0) or np.any(d > 1):
            return 'draw outside the support'
        if len(d) > 20000:
            d = d[:20000]
        p = st.kstest(d, 'uniform').pvalue
        return None if p > ALPHA else 'Kolmogorov-Smirnov p = %.2g over %d draws' % (p, len(d))
    if kind == 'd':
        cnt, pr, rest = d
        n = cnt.sum() + rest
        if rest > 0 and pr.sum() > 1 - 1e-9:
            return '%d draws outside the support' % rest
        big = pr * n >= 5
        if np.any((pr <= 0) & (cnt > 0)):
            return 'draw of probability zero'
        c = np.append(cnt[big], n - cnt[big].sum())
        e = np.append(pr[big] * n, max(n - (pr[big] * n).sum(), 0))
        if e[-1] < 5:
            # exact tail bound on the rare cells
            if c[-1] > 60 + 10 * e[-1]:
                return 'rare cells drawn %d times, expected %.3g' % (c[-1], e[-1])
            c, e = c[:-1], e[:-1]
        if len(c) < 2:
            return None
        chi = ((c - e) ** 2 / np.maximum(e, 1e-300)).sum()
        p = st.chi2.sf(chi, len(c) - 1)
        return None if p > ALPHA else 'chi-square p = %.2g over %d draws' % (p, n)
    if kind == 'corr':
        if d.shape[1] < 2:
            return None
        r = np.corrcoef(d.T)
        m = np.max(np.abs(r - np.eye(len(r))))
        return None if m < 7.0 / np.sqrt(len(d)) else 'correlation %.3f between independent coordinates' % m
    raise KeyError(kind)


def statistical(c, b, s, lead, ob, seed, total=4000, trials=2):
    from .env import tf
    from .case import js
    name = b.name
    with c.graph.as_default():
        tf.set_random_seed(seed)
    sess = c.session()
    for trial in range(trials):
        dims, vals = c.gen(trial)
        if b.name == 'MatrixVariateNormalCholesky' or b.name == 'MultivariateNormalCholesky':
            pass
        if 'n' in c.inputs and c.inputs['n']['dom'] == 'dim':
            vals['n'] = np.asarray(500, vals['n'].dtype)
            dims['NS'] = 500
        fd = c.feed(vals, dims)
        out = []
        got = 0
        try:
            while got < total:
                x = np.asarray(sess.run(s, fd))
                x = x if lead else x[None]
                out.append(x)
                got += x.shape[0]
        except Exception as e:
            ob.status = 'refuted'
            ob.detail = 'the real code fails at run time: %s' % str(e)[:300]
            ob.cex = dict(kind='runtime-error', inputs=js(vals), error=str(e)[:500])
            return
        X = np.concatenate(out, 0).astype(float)
        nv = len(b.valshape)
        bshape = X.shape[1:X.ndim - nv] if nv else X.shape[1:]
        pvals = {}
        for a in b.args:
            v = np.asarray(vals[a], float)
            ev = {'MultivariateNormalCholesky': {'mean': 1, 'cov_tril': 2},
                  'MatrixVariateNormalCholesky': {'mean': 2, 'u_tril': 2, 'v_tril': 2}}.get(
                name, {'logits': 1, 'alpha': 1} if nv or name == 'Categorical' else {}).get(a, 0)
            core = v.shape[v.ndim - ev:]
            pvals[a] = np.broadcast_to(v, tuple(bshape) + core) if a != 'temperature' else v
        us = []
        for bi in list(np.ndindex(*bshape))[:12]:
            P = {a: (v[bi] if a != 'temperature' else v) for a, v in pvals.items()}
            if 'logstd' in P:
                P['std'] = np.exp(P['logstd'])
            if b.n_exp is not None:
                P['n'] = b.n_exp if isinstance(b.n_exp, int) else dims['NE']
            x = X[(slice(None),) + bi]
            for lab, kind, d in pit(b, name, P, x, None):
                bad = test(kind, d)
                if bad:
                    ob.status = 'refuted'
                    ob.detail = 'batch position %s: %s: %s' % (bi, lab, bad)
                    ob.cex = dict(kind='statistical', inputs=js(vals), position=list(bi), test=lab, result=bad,
                                  draws=np.asarray(x[:20]).tolist(), seed=seed)
                    return
            y = x.reshape(len(x), -1)[:, 0]
            if y.std() > 0:
                us.append(y)
        # independence across positions and across sample indices
        if len(us) > 1:
            bad = test('corr', np.stack(us, 1))
            if bad:
                ob.status = 'refuted'
                ob.detail = 'distinct batch positions are dependent: ' + bad
                ob.cex = dict(kind='statistical', inputs=js(vals), result=bad, seed=seed)
                return
        x0 = [o for o in out]
        if x0[0].shape[0] > 1 and us:
            k = min(x0[0].shape[0], 500)
            A = X.reshape(len(X), -1)[:, 0]
            if A.std() > 0:
                u, v = A[:-1], A[1:]
                r = np.corrcoef(u, v)[0, 1]
                if abs(r) > 7.0 / np.sqrt(len(u)):
                    ob.status = 'refuted'
                    ob.detail = 'consecutive draws are dependent: correlation %.3f' % r
                    ob.cex = dict(kind='statistical', inputs=js(vals), result=ob.detail, seed=seed)
                    return
        ob.numeric += X.shape[0]

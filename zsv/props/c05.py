"""C05: gradients flow through samples and densities only as declared."""
import time
import traceback
import numpy as np
from ..case import Case, js
from .. import dists, terms as tm, tensor as tn
from ..split import Split, fz, freeze_conds, rename, reads_of
from ..graph import GraphEval
from ..norm import bvar
from ..tensor import Ten, Unsupported, ShapeError
from . import c01, c03, c04

FUNCTIONS = ['zhusuan.distributions.%s.%s.%s' % ('univariate' if c in dists.UNI else 'multivariate', c, m)
             for c in list(dists.UNI) + dists.MULTI for m in ('_sample', '_log_prob')] + [
    'zhusuan.distributions.base.Distribution.path_param', 'zhusuan.distributions.base.Distribution.is_reparameterized',
    'zhusuan.distributions.base.Distribution.use_path_derivative']
ASSUMPTIONS = ['Contract of tf.gradients: the derivative of the split value (zsv/split.py) with respect to the live copy; '
               'confirmed at runtime against central finite differences with the noise held fixed.',
               'RandomGamma is the only random operator with a registered gradient.']


def live(c, names_live=None):
    """{tensor name: Ten} with reads of the live or frozen copy."""
    m = {}
    for n, d in c.inputs.items():
        if d['tensor'] is None:
            continue
        if d['dom'] == 'dim':
            m[d['tensor'].name] = d['ten']
            continue
        nm = n if names_live is None or n in names_live else fz(n)
        sort = d['ten'].sort
        m[d['tensor'].name] = Ten(d['ten'].shape, (lambda nm, sort: lambda *i: tm.rd(nm, i, sort))(nm, sort),
                                  d['dtype'])
    return m


def splitter(c):
    for n, d in list(c.inputs.items()):
        if n in c.facts.tprop:
            c.facts.tprop[fz(n)] = c.facts.tprop[n]
        if n in c.facts.tbound:
            c.facts.tbound[fz(n)] = c.facts.tbound[n]
        if n in c.facts.tcond:
            c.facts.tcond[fz(n)] = c.facts.tcond[n]
    return Split(live(c), live(c, ()))


def flow(c, name, tensor, declared, params, what, skip=False):
    """Obligation: the split value of `tensor` reads the live copy of exactly the
    inputs in `declared` (everything else frozen)."""
    ob = c.obl(name)
    t0 = time.time()
    try:
        S = splitter(c)
        if skip:
            S.inputs[c.inputs['x']['tensor'].name] = S.frozen.inputs[c.inputs['x']['tensor'].name]
        v = S.ten(tensor)
        ref = GraphEval(live(c, declared)).ten(tensor)
        names = set(params)
        conv = lambda t: Ten(t.shape, lambda *i: freeze_conds(t.at(*i), names), t.dtype)
        bad = []
        if S.livegamma:
            at = v.at(*[bvar('i', s) for s in v.shape])
            for nm in reads_of(at, set(S.livegamma)):
                alpha = S.livegamma[nm]
                bad += sorted(reads_of(alpha.at(*[bvar('i', s) for s in alpha.shape]), names - set(declared)))
        if bad:
            ob.status, ob.detail = 'differs', 'random_gamma carries gradient to %s' % bad
        else:
            c._prove_ten(ob, conv(v), conv(ref), c.facts)
            if ob.status == 'proved':
                ob.backend = 'split value: ' + ob.backend
    except Unsupported as e:
        ob.status, ob.detail = 'unsupported', 'Unsupported: %s' % e
    except ShapeError as e:
        ob.status, ob.detail = 'unsupported', 'ill-shaped: %s' % e
    except Exception:
        ob.status, ob.detail = 'unsupported', 'engine: ' + traceback.format_exc(limit=-3)
    replay(c, ob, tensor, declared, params)
    ob.time_s = time.time() - t0
    return ob


def replay(c, ob, tensor, declared, params):
    """Real tf.gradients against central differences with the noise held fixed."""
    from ..env import tf
    if not tensor.dtype.is_floating:
        ps = [p for p in params if c.inputs[p]['tensor'].dtype.is_floating]
        with c.graph.as_default():
            try:
                gs = tf.gradients(tensor, [c.inputs[p]['tensor'] for p in ps])
            except Exception:
                gs = [None] * len(ps)
        if any(g is not None for g in gs):
            ob.status, ob.detail = 'refuted', 'gradient through an integer sample'
            ob.cex = dict(kind='structural', detail=ob.detail)
        ob.numeric += 1
        return
    ps = [p for p in params if c.inputs[p]['tensor'] is not None and c.inputs[p]['tensor'].dtype.is_floating]
    with c.graph.as_default():
        w = tf.placeholder(tensor.dtype, None)
        try:
            gs = tf.gradients(tf.reduce_sum(tensor * w), [c.inputs[p]['tensor'] for p in ps])
        except LookupError as e:
            ob.status, ob.detail = 'refuted', 'tf.gradients fails: %s' % e
            ob.cex = dict(kind='exception', error=str(e)[:500])
            return
    rnd = sorted(c04.random_ops(tensor), key=lambda o: o.name)
    for trial in range(c.trials):
        dims, vals = c.gen(trial)
        fd = c.feed(vals, dims)
        got = c.session().run([tensor] + [o.outputs[0] for o in rnd], fd)
        for o, v in zip(rnd, got[1:]):
            fd[o.outputs[0]] = v
        W = c.rng.normal(size=got[0].shape).astype(got[0].dtype)
        fd[w] = W
        for p, g in zip(ps, gs):
            real = None if g is None else c.session().run(g, fd)
            want = np.zeros(vals[p].shape)
            ok = True
            if p in declared:
                f64 = vals[p].dtype == np.float64
                h = 1e-6 if f64 else 1e-2
                flat = vals[p].reshape(-1)
                num = np.zeros(flat.shape)
                sel = list(range(flat.size))
                if flat.size > 6:
                    sel = sorted(c.rng.choice(flat.size, 6, replace=False))
                for k in sel:
                    r = []
                    for s in (h, -h):
                        x = flat.copy()
                        x[k] += s * max(1., abs(flat[k]))
                        f2 = dict(fd)
                        f2[c.inputs[p]['tensor']] = x.reshape(vals[p].shape)
                        r.append(np.sum(np.asarray(c.session().run(tensor, f2), float) * W))
                    num[k] = (r[0] - r[1]) / (2 * h * max(1., abs(flat[k])))
                rr = np.zeros(flat.shape) if real is None else np.asarray(real, float).reshape(-1)
                rt, at = (1e-3, 1e-3) if f64 else (0.2, 0.5)
                # second-order remainder is checked with a scale from the values
                for k in sel:
                    if np.isfinite(num[k]) and abs(num[k] - rr[k]) > at + rt * (abs(num[k]) + np.max(np.abs(rr), initial=0)):
                        ok = False
                        want = num.reshape(vals[p].shape)
            else:
                ok = real is None or np.all(np.asarray(real) == 0) or (
                    not np.all(np.isfinite(real)) and np.all(np.nan_to_num(np.asarray(real), 0) == 0))
            ob.numeric += 1
            if not ok:
                ob.status = 'refuted'
                ob.detail = 'gradient with respect to %s is %s, declared %s' % (
                    p, None if real is None else np.ravel(real)[:4], np.ravel(want)[:4])
                ob.cex = dict(kind='gradient', wrt=p, inputs=js(vals), weights=js({'w': W})['w'],
                              got=None if real is None else np.ravel(real)[:16].tolist(),
                              want=np.ravel(want)[:16].tolist())
                return
    if ob.status == 'differs' and not ob.detail.startswith('random_gamma'):
        # equal gradients need not have equal split values
        ob.status = 'bounded'


def one(label, seed, tier, name, pat, mode, n, rep, path, ne=None, vdtype=None, dims=None, given=True, **kw):
    from ..env import tf
    c = Case(label, seed, mode, trials=2 if tier == 'quick' else 6, dims=dims)
    c.dims.setdefault('NS', 3)
    c03.setup(c, name, ne, kw)
    if rep is not None:
        kw['is_reparameterized'] = rep
    if path is not None:
        kw['use_path_derivative'] = path
    b = dists.make(c, name, pat[0], pat[1] if given else None, vdtype=vdtype, **kw)
    params = [a for a in b.args]
    canrep = name in dists.REPARAM
    isrep = (rep is not False) and canrep
    c.fact('is_reparameterized is the declared value', bool(b.dist.is_reparameterized) == isrep,
           'is_reparameterized = %s' % b.dist.is_reparameterized)
    c.fact('use_path_derivative is the declared value', bool(b.dist.use_path_derivative) == bool(path),
           'use_path_derivative = %s' % b.dist.use_path_derivative)
    if name != 'UnnormalizedMultinomial':
        na, lead = c03.nsamples(c, n)
        with c.graph.as_default():
            s = b.dist.sample(na)
        flow(c, 'samples carry gradient %s' % ('to every parameter along the path' if isrep else 'to no parameter'),
             s, params if isrep else [], params, 'sample')
    if given:
        with c.graph.as_default():
            lp = b.dist.log_prob(b.given)
        # the point of a discrete law is not differentiable: nothing is declared about it
        pt = [] if name in dists.DISCRETE else ['x']
        decl = pt + ([] if path else params)
        flow(c, 'log_prob carries gradient through %s' % ('the point only' if path else 'the point and every parameter'),
             lp, decl, params + pt, 'logp', skip=not pt)
    c.close()
    return c.obls


def cases(tier, seed):
    out = []
    for name in list(dists.UNI) + dists.MULTI:
        pats = c01.PATTERNS if name in dists.UNI else c03.MULTIPAT
        npar = 1 if name in dists.MULTI or name == 'BinConcrete' else len(dists.UNI[name][0])
        seen, ps = set(), []
        for p in pats:
            key = repr((p[0][:npar]))
            if key not in seen:
                seen.add(key)
                ps.append(p)
        reps = [None, True, False] if name in dists.REPARAM else [None]
        paths = [None, True, False] if name in dists.PATHDERIV else [None]
        opts = [{}]
        if name in ('Normal', 'FoldNormal'):
            opts = [dict(o, alias=al) for o in opts for al in ('std', 'logstd')]
        if name in ('Binomial', 'Multinomial'):
            opts = [dict(o, ne=x) for o in opts for x in ('int', 'ph')]
        if name in dists.DISCRETE:
            opts = [dict(o, vdtype=v) for o in opts for v in (None, 'float64')]
        combos = [(r, p, o) for r in reps for p in paths for o in opts]
        for r, p, o in combos:
            for mode in ('dynamic', 'static'):
                out.append(dict(name=name, pat=ps[0], mode=mode, n=3 if mode == 'static' else None, rep=r, path=p, **o))
        k = 0
        for pat in ps:
            for mode in ('static', 'dynamic', 'unknown'):
                r, p, o = combos[k % len(combos)]
                k += 5
                out.append(dict(name=name, pat=pat, mode=mode, n=[None, 2, 'ph'][k % 3], rep=r, path=p, **o))
        if name in dists.CHECKNUM:
            for r, p, o in combos:
                out.append(dict(name=name, pat=ps[0], mode='dynamic', n=3, rep=r, path=p, check_numerics=True,
                                given=name != 'Uniform', **o))
        for r, p, o in combos[:4]:
            out.append(dict(name=name, pat=ps[0], mode='dynamic', n='ph', rep=r, path=p, group_ndims=1, **o))
    for kw in out:
        yield '%s[%s]' % (kw['name'], ','.join('%s=%s' % i for i in kw.items() if i[0] != 'name')), one, kw

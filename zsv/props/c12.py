"""C12: one HMC iteration is exact Metropolis-adjusted leapfrog dynamics."""
import numpy as np
from .. import hmcspec as hs, terms as tm
from ..env import tf
from ..tensor import Ten

FUNCTIONS = ['zhusuan.hmc.' + f for f in (
    'random_momentum', 'velocity', 'hamiltonian', 'leapfrog_integrator', 'get_acceptance_rate', 'HMC.__init__',
    'HMC._leapfrog', 'HMC._init_step_size', 'HMC._adapt_mass', 'HMC._adapt_step_size', 'HMC.sample', 'HMCInfo')]
ASSUMPTIONS = [
    'The log joint is an uninterpreted function of all latent values, one number per chain; tf.gradients returns its gradient.',
    'Latent shapes are static (the code requires it); ranks and sizes enumerated, element indices symbolic.',
    'n_leapfrogs >= 1; target acceptance rate in (0, 1); the chain stands at a point of finite density (checked at run time by check_numerics).',
    'Non-finite proposals: overflow of an arithmetic operation on finite operands inside the acceptance rule is left out.',
    'The step-size search loop is proved partially correct (no termination proof).',
    'That volume-preserving reversible proposals with this acceptance rule leave the target invariant is the standard '
    'Metropolis theorem, not re-proved.']


def one(label, seed, tier, **kw):
    c = hs.build(label, seed, tier, **kw)
    names = c.names
    bad = ''
    for d in c.lj.calls:
        if set(d) != set(names) | {'x'} or d['x'] is not c.xobs:
            bad = 'log joint given %s' % sorted(d)
    c.fact('the log joint gets the latents and the observations', not bad and bool(c.lj.calls), bad or 'never called')
    s = hs.spec(c)
    c.fact('momenta of different latents are independent draws', len(set(c.pnoise)) == len(names) and 'noise:?' not in c.pnoise,
           'draws: %s' % c.pnoise)
    c.fact('one uniform draw per chain decides', len(c.unoise) == 1, 'uniform draws: %s' % [o.name for o in c.unoise])
    i = c.info
    for j, n in enumerate(names):
        c.reports('initial momentum of %s' % n, i.init_momentum[n], s['p'][j])
    x, ge = hs.after_p(c)
    s = c.full
    c.reports('info.orig_hamiltonian', i.orig_hamiltonian, s['h0'], cut=(ge, x['h0']))
    c.reports('info.hamiltonian (of the proposal)', i.hamiltonian, s['h1'], cut=(ge, x['h1']))
    c.reports('info.orig_log_prob', i.orig_log_prob, s['l0'], cut=(ge, x['l0']))
    c.reports('info.acceptance_rate', i.acceptance_rate, s['acc'], cut=(ge, x['acc']))
    for j, n in enumerate(names):
        c.after('%s after the step' % n, c.qs[j], s['q'][j], cut=(ge, x['q'][j]))
        c.reports('info.samples[%s]' % n, i.samples[n], s['q'][j], cut=(ge, x['q'][j]))
    c.reports('info.log_prob (of the state kept)', i.log_prob, s['l1'], cut=(ge, x['l1']))
    y, ge = hs.after_acc(c)
    c.reports('info.updated_step_size', i.updated_step_size, s['eps'], cut=(ge, y['eps']))
    for o in c.obls:
        if o.status in ('unsupported', 'differs') and c.notes:
            o.detail += ' | ' + '; '.join(c.notes[:2])[:300]
    nonfinite(c)
    c.replay()
    c.close()
    return c.obls


def outer_exit(o):
    """value leaving a loop of the outermost graph"""
    if o.type != 'Exit':
        return False
    ctx = o._get_control_flow_context()
    return ctx is None or ctx.outer_context is None


def nonfinite(c):
    """A proposal whose energy is not finite is rejected: kinds of values, then the real code."""
    from ..world import _TOK, _token
    from ..nonfin import Kinds, FIN
    i = c.info
    prop = []
    for o in c.hb.order:
        if o.type == 'PyFunc' and _TOK.get(_token(o), [None])[0] == 'lj' and o._get_control_flow_context() is None:
            anc, st = set(), [o]
            while st:
                a = st.pop()
                if a not in anc and a.type not in ('NextIteration',):
                    anc.add(a)
                    st.extend(t.op for t in a.inputs)
            if any(outer_exit(a) for a in anc):
                prop.append(o)
    exits = [o for o in c.hb.order if outer_exit(o)]
    flt = [o for o in exits if o.outputs[0].dtype.is_floating]
    if len(prop) != 1 or len(flt) != 2 * len(c.names):
        c.note('non-finite analysis: proposal not located')
        kinds = False
    else:
        kinds = True
        qin = [t.op for t in prop[0].inputs]

        def src(o):
            while o.type == 'Identity':
                o = o.inputs[0].op
            return o
        qx = [src(o) for o in qin]
        px = [o for o in flt if o not in qx]
    for name, lk in (('NaN', 'N'), ('+inf', '+'), ('-inf', '-'), ('finite', 'nzp')):
        for pname, pk in (('finite', 'nzp'), ('NaN', 'N'), ('inf', '+-nzp')):
            if name == 'finite' and pname == 'finite':
                continue
            if pname == 'inf' and name != 'finite':
                continue
            o = c.obl('a proposal with log joint %s and momentum %s is rejected' % (name, pname))
            o.kind, o.backend = 'non-finite', 'abstract interpretation over kinds of IEEE values'
            o.status, o.detail = 'unsupported', 'not located'
            if kinds:
                b = {prop[0].outputs[0].name: frozenset(lk)}
                for x in px:
                    b[x.outputs[0].name] = frozenset(pk if pname != 'inf' else '+-')
                for j, x in enumerate(qx):
                    b[x.outputs[0].name] = frozenset([('new', j)])
                for v in c.qs:
                    j = c.qs.index(v)
                    for x in c.graph.get_operations():
                        for t in x.outputs:
                            if t.dtype._is_ref_dtype and x.type in ('VariableV2',) and x is v.op:
                                b[t.name] = frozenset([('old', j)])
                            if x.type == 'Identity' and x.inputs[0].op is v.op:
                                b[t.name] = frozenset([('old', j)])
                K = Kinds(b)
                acc = K.of(i.acceptance_rate)
                qs = [K.of(i.samples[n]) for n in c.names]
                lp = K.of(i.log_prob)
                bad = []
                if not acc <= {'z'}:
                    bad.append('acceptance rate may be %s' % sorted(map(str, acc)))
                for j, x in enumerate(qs):
                    if x != {('old', j)}:
                        bad.append('%s may be %s' % (c.names[j], sorted(map(str, x))))
                if not lp <= FIN:
                    bad.append('reported log joint may be %s' % sorted(map(str, lp)))
                o.status, o.detail = ('proved', '') if not bad else ('differs', '; '.join(bad))
            replay_nonfinite(c, o, name, pname)


def replay_nonfinite(c, o, name, pname):
    val = {'NaN': np.nan, '+inf': np.inf, '-inf': -np.inf}.get(name)
    try:
        dims, vals, sv, noise, fd = c.run_once(0)
        q0 = [sv[v.op.name] for v in c.qs]

        def lj(qs, r):
            moved = any(np.shape(a) == np.shape(b) and not np.array_equal(a, b) for a, b in zip(qs, q0))
            return np.full(np.shape(r), val) if moved and val is not None else r
        c.lj.nonfinite = lj
        if pname != 'finite':
            bad = {'NaN': np.nan, 'inf': np.inf}[pname]
            c.lj.nongrad = lambda qs, r: np.full(np.shape(r), bad) if any(
                not np.array_equal(a, b) for a, b in zip(qs, q0)) else r
        got, post = c.execute(c.session(), sv, fd)
        i = c.info
        ix = {f: n for n, f in enumerate(c._fetches)}
        acc = np.asarray(got[ix[i.acceptance_rate]])
        o.numeric += 1
        stay = all(np.array_equal(post[v.op.name], sv[v.op.name]) for v in c.qs)
        if not np.all(acc == 0) or not stay:
            o.status = 'refuted'
            o.detail = 'acceptance rate %s, chain %s' % (acc.tolist(), 'stayed' if stay else 'moved')
            o.cex = dict(kind='value', log_joint_of_proposal=name, momentum=pname, acceptance=acc.tolist(),
                         state={a: np.asarray(b).tolist() for a, b in sv.items()})
    except Exception as e:
        o.detail += ' [replay: %s]' % str(e)[:200]
    finally:
        c.lj.nonfinite = c.lj.nongrad = None


SH = [([[3]], 0), ([[2, 3]], 1), ([[2, 3], [2]], 1), ([[]], 0), ([[2], [2, 2]], 0), ([[2, 1, 3], [2, 1], [2, 1, 2]], 2), ([[1, 2], [1, 2]], 1),
      ([[2]], 1)]


def cases(tier, seed):
    out = []
    for n, (s, nc) in enumerate(SH):
        form = 'fm'[n % 2]
        out.append(dict(shapes=s, nchain=nc, form=form))
        out.append(dict(shapes=s, nchain=nc, form=form, n=1 + n % 3))
        out.append(dict(shapes=s, nchain=nc, form=form, adapt='ph', hp=['target_acceptance_rate']))
        out.append(dict(shapes=s, nchain=nc, form=form, adapt='ph', mass='ph', hp=['mass_collect_iters']))
    for kw in out:
        yield 'HMC[%s]' % ','.join('%s=%s' % x for x in kw.items()), one, kw

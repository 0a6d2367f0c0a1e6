"""Discharge of equalities between terms: case analysis over normal forms.

prove_eq(code, spec, facts) closes the goal  forall inputs satisfying facts:
code = spec.  It case-splits on the sign of the polynomials that conditionals
test; in each region both sides must have the same normal form.  Every closed
region is also written out as an SMT-LIB obligation over the atoms (see smt.py)
which z3 has to confirm.
"""
from __future__ import annotations
from fractions import Fraction
import time
from . import terms as tm
from .terms import T
from .norm import Norm, Facts, NeedSplit, Giveup, Poly, LIMIT
from . import smt


class Outcome(object):
    def __init__(self, status, detail='', regions=None, used=None, goals=None, time_s=0.0):
        self.status = status          # proved | differs | giveup
        self.detail = detail
        self.regions = regions or []
        self.used = used or {}
        self.goals = goals or []      # smt goals (text blocks)
        self.time_s = time_s

    @property
    def ok(self):
        return self.status == 'proved'


def import_poly(dst, src, p, ren=None):
    """Rebuild polynomial p of Norm src inside Norm dst."""
    ren = ren or {}
    if p is src.NINF:
        return dst.NINF
    out = dst.ZERO
    for m, c in p.items:
        t = dst.const(c)
        for a, e in m:
            b = import_atom(dst, src, src.atoms[a], ren)
            t = dst.pmul(t, dst.power(b, e) if e != 1 else b)
        out = dst.padd(out, t)
    return out


def import_atom(dst, src, at, ren):
    k, d = at.kind, at.data
    S = lambda p: import_poly(dst, src, p, ren)
    if k == 'v':
        if d[0] in ren:
            return dst.v(ren[d[0]])
        if d[0] in src.vb:
            dst.vb.setdefault(d[0], import_poly(dst, src, src.vb[d[0]], ren))
        return dst.v(d[0])
    if k == 'dim':
        return dst.nf(tm.dim(d[0]))
    if k == 'pi':
        return dst.nf(tm.PI)
    if k == 'rd':
        return dst.mk_rd(d[0], [S(x) for x in d[1]], d[2])
    if k == 'EXP':
        return dst.exp(S(d[0]))
    if k == 'LOG':
        return dst.log(S(d[0]))
    if k == 'POLY':
        return S(d[0])
    if k == 'INV':
        return dst.power(S(d[0]), -1)
    if k == 'POW':
        return dst.power(S(d[0]), d[1])
    if k == 'ROOT':
        return dst.const(d[0])
    if k == 'SG':
        p = S(d[0])
        return dst.lt0(p) if d[1] == '-' else dst.lt0(dst.pscale(p, -1))
    if k == 'EQ':
        return dst.eq0(S(d[0]))
    if k in ('SUM', 'RMAX', 'PROD', 'ALL'):
        nm, Ns, q = d
        Ns2 = [S(N) for N in Ns]
        fr = [dst.fresh(N) for N in Ns2]
        r2 = dict(ren)
        for n, f in zip(nm, fr):
            r2[n] = f
        q2 = import_poly(dst, src, q, r2)
        f = {'SUM': dst.psum, 'RMAX': dst.prmax, 'PROD': dst.pprod, 'ALL': dst.pall}[k]
        for n, N in zip(fr, Ns2):
            q2 = f(n, N, q2)
        return q2
    if k == 'FN':
        if len(d) == 2:
            return dst.fn(d[0], S(d[1])) if d[0] != 'toI' else dst.patom(
                dst.atom('FN', ('toI', S(d[1])), isint=True))
        return dst.patom(dst.atom('FN', (d[0],) + tuple(S(x) for x in d[1:])))
    if k == 'IDIV':
        return dst.pidiv(S(d[0]), S(d[1]))
    if k == 'IMOD':
        return dst.pimod(S(d[0]), S(d[1]))
    if k == 'POWD':
        return dst.pprod('_', S(d[1]), S(d[0]))
    if k == 'APP':
        idx = [S(x) for x in d[1]]
        lams = []
        for nm, Ns, q in zip(d[2], d[3], d[4]):
            Ns2 = [S(N) for N in Ns]
            fr = [dst.fresh(N) for N in Ns2]
            r2 = dict(ren)
            for n, f in zip(nm, fr):
                r2[n] = f
            lams.append((fr, Ns2, import_poly(dst, src, q, r2)))
        return dst.mk_app(d[0], idx, lams)
    raise Giveup('import %s' % k)


def splits_for(norm, at):
    """The alternatives of a case split on atom `at`: list of (fn, sign, label)."""
    if at.kind == 'SG' or at.kind == 'EQ':
        q = at.data[0]
        f = lambda dst, q=q, norm=norm: import_poly(dst, norm, q)
        return [(f, s, '%s %s 0' % (show_poly(norm, q), o)) for s, o in (('-', '<'), ('0', '='), ('+', '>'))]
    f0 = lambda dst, at=at, norm=norm: import_atom(dst, norm, at, {})
    f1 = lambda dst, at=at, norm=norm: dst.psub(import_atom(dst, norm, at, {}), dst.ONE)
    lab = show_atom(norm, at)
    return [(f0, '0', 'not ' + lab), (f1, '0', lab)]


def prove_eq(a, b, facts, max_regions=400, label='', expand=None, timeout=60.0):
    t0 = time.time()
    memo = {}
    if tm.alpha_key(a, memo=memo) == tm.alpha_key(b, memo=memo):
        return Outcome('proved', '', ['all inputs (identical terms)'], {'reflexivity': 1},
                       [['(declare-const a Real)', '(assert (not (= a a)))']], time.time() - t0)
    tries = [False, True] if expand is None else [expand]
    res = None
    for ex in tries:
        old = LIMIT[0]
        LIMIT[0] = min(old, t0 + timeout)
        try:
            r = _prove_eq(a, b, facts, max_regions, label, ex, t0 + timeout)
        finally:
            LIMIT[0] = old
        if r.ok:
            r.time_s = time.time() - t0
            return r
        if res is None or (res.status == 'giveup' and r.status == 'differs'):
            res = r
    res.time_s = time.time() - t0
    return res


def _prove_eq(a, b, facts, max_regions, label, expand, deadline):
    work = [[]]
    used = {}
    goals = []
    closed = []
    nreg = 0
    while work:
        asm = work.pop()
        nreg += 1
        if nreg > max_regions or time.time() > min(deadline, LIMIT[1]):
            return Outcome('giveup', 'too many regions', closed, used, goals)
        try:
            N = Norm(facts, [(f, s) for f, s, _ in asm], expand=expand)
            if N.contradictory():
                closed.append('infeasible: ' + ' & '.join(l for _, _, l in asm))
                continue
            pa, pb = N.nf(a), N.nf(b)
            d = N.diff(pa, pb)
        except NeedSplit as e:
            at = e.what
            work.extend([asm + [s] for s in splits_for(N, at)])
            continue
        except Giveup as e:
            return Outcome('giveup', str(e), closed, used, goals)
        except RecursionError:
            return Outcome('giveup', 'recursion', closed, used, goals)
        for k, v in N.used.items():
            used[k] = used.get(k, 0) + v
        if d is not None and not d.items:
            closed.append(' & '.join(l for _, _, l in asm) or 'all inputs')
            goals.append(smt.goal(N, pa, pb, label))
            continue
        # split on a remaining conditional
        at = None
        cand = set()
        for p in ([d] if d is not None else [x for x in (pa, pb) if x is not N.NINF]):
            cand |= {x for x in N.top_atoms(p) if N.atoms[x].idem and not (N.atoms[x].free - N.goalvars)}
        if cand:
            at = N.atoms[min(cand)]
            work.extend([asm + [s] for s in splits_for(N, at)])
            continue
        if smt.infeasible(N):
            closed.append('infeasible (z3): ' + ' & '.join(l for _, _, l in asm))
            continue
        # last resort: the difference may vanish by nonlinear arithmetic over the region
        if d is not None and smt.zero_in_region(N, d):
            closed.append(' & '.join(l for _, _, l in asm) + ' [nla]')
            goals.append(smt.goal(N, pa, pb, label))
            continue
        reg = ' & '.join(l for _, _, l in asm) or 'all inputs'
        det = 'in region {%s}: code = %s ; spec = %s' % (
            reg, show_poly(N, pa), show_poly(N, pb))
        return Outcome('differs', det, closed, used, goals)
    return Outcome('proved', '', closed, used, goals)


# ------------------------------------------------------------------ display
def show_poly(N, p, depth=0):
    if p is None:
        return 'None'
    if p is N.NINF:
        return '-inf'
    if not p.items:
        return '0'
    out = []
    for m, c in p.items[:24]:
        fs = []
        if c != 1 or not m:
            fs.append(str(c))
        for a, e in m:
            s = show_atom(N, N.atoms[a], depth + 1)
            fs.append(s if e == 1 else '%s^(%s)' % (s, e))
        out.append('*'.join(fs))
    if len(p.items) > 24:
        out.append('... (%d terms)' % len(p.items))
    return ' + '.join(out)


def show_atom(N, at, depth=0):
    if depth > 6:
        return '..'
    k, d = at.kind, at.data
    S = lambda p: show_poly(N, p, depth + 1)
    if k == 'v':
        return d[0] if isinstance(d[0], str) else 'b%d' % d[0][1]
    if k == 'dim':
        return d[0]
    if k == 'pi':
        return 'pi'
    if k == 'rd':
        return '%s[%s]' % (d[0], ','.join(S(x) for x in d[1]))
    if k in ('SUM', 'RMAX', 'PROD', 'ALL'):
        nm, Ns, q = d
        return '%s{%s}(%s)' % (k.lower(), ','.join('b%d<%s' % (n[1], S(x)) for n, x in zip(nm, Ns)), S(q))
    if k == 'SG':
        return '[%s%s0]' % (S(d[0]), '<' if d[1] == '-' else '>')
    if k == 'EQ':
        return '[%s==0]' % S(d[0])
    if k == 'APP':
        return '%s(%s;%s)' % (d[0], ','.join(S(x) for x in d[1]), ','.join(S(q) for q in d[4]))
    return '%s(%s)' % (k.lower() if k != 'FN' else d[0],
                       ','.join(S(x) if isinstance(x, Poly) else str(x) for x in (d if k != 'FN' else d[1:])))

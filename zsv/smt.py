"""SMT-LIB emission and the solver back ends (z3-new, cvc5)."""
from __future__ import annotations
import os
import subprocess
import tempfile
import time
from fractions import Fraction
from .norm import Norm, Giveup, Poly

Z3 = os.environ.get('ZSV_Z3', 'z3-new')
STATS = {'queries': 0, 'time_s': 0.0, 'goals': 0, 'discharged': 0}


def num(q):
    q = Fraction(q)
    n = '%d.0' % abs(q.numerator)
    s = n if q.denominator == 1 else '(/ %s %d.0)' % (n, q.denominator)
    return s if q >= 0 else '(- %s)' % s


class Enc(object):
    """Atoms become real constants; positivity facts become assertions."""

    def __init__(self, N, divdef=False):
        self.N = N
        self.divdef = divdef
        self.decl = {}
        self.side = []
        self.intnames = []

    def atom(self, a):
        n = 'a%d' % a
        if n not in self.decl:
            self.decl[n] = True
            at = self.N.atoms[a]
            if at.isint:
                self.intnames.append(n)
            if at.pos:
                self.side.append('(> %s 0.0)' % n)
            elif at.idem:
                self.side.append('(or (= %s 0.0) (= %s 1.0))' % (n, n))
            elif at.nonneg:
                self.side.append('(>= %s 0.0)' % n)
            if at.kind == 'POLY':
                # a POLY atom is a name for its polynomial
                self.side.append('(= %s %s)' % (n, self.poly(at.data[0])))
        return n

    def root(self, a, e):
        """a^e with e negative or fractional: fresh constant with its defining equation."""
        n = 'a%d_p%d_%d' % (a, e.numerator, e.denominator) if e > 0 else \
            'a%d_m%d_%d' % (a, -e.numerator, e.denominator)
        if n not in self.decl:
            self.decl[n] = True
            b = self.atom(a)
            if self.N.atoms[a].pos:
                self.side.append('(> %s 0.0)' % n)
            k = e.denominator
            if k <= 4 and abs(e.numerator) <= 4:
                lhs = n if k == 1 else '(* %s)' % ' '.join([n] * k)
                if e > 0:
                    rhs = b if e.numerator == 1 else '(* %s)' % ' '.join([b] * e.numerator)
                    self.side.append('(= %s %s)' % (lhs, rhs))
                elif self.N.atoms[a].pos or (self.divdef and self.N.atoms[a].kind == 'POLY'):
                    # a divisor; divisions are considered where defined
                    bs = ' '.join([b] * (-e.numerator))
                    self.side.append('(= (* %s %s) 1.0)' % (lhs, bs))
        return n

    def poly(self, p):
        ts = []
        for m, c in p.items:
            fs = [num(c)] if c != 1 or not m else []
            for a, e in m:
                if e.denominator == 1 and 0 < e <= 8:
                    fs += [self.atom(a)] * int(e)
                else:
                    fs.append(self.root(a, e))
            ts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
        if not ts:
            return '0.0'
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

    def region(self):
        out = []
        for p, s in self.N.assumptions:
            if p is self.N.NINF:
                continue
            out.append('(%s %s 0.0)' % ({'-': '<', '0': '=', '+': '>'}[s], self.poly(p)))
        return out

    def ints(self):
        return ['(is_int %s)' % n for n in self.intnames]

    def script(self, asserts):
        body = list(asserts)
        lines = ['(declare-const %s Real)' % n for n in self.decl]
        lines += ['(assert %s)' % s for s in self.side]
        lines += ['(assert %s)' % s for s in body]
        return lines


def goal(N, pa, pb, label=''):
    """Negated goal as a block of SMT-LIB lines: unsat means discharged."""
    if pa is N.NINF or pb is N.NINF:
        if pa is pb:
            return ['; both sides -inf', '(assert false)']
        return ['(assert true)']
    e = Enc(N, divdef=True)
    reg = e.region()
    a, b = e.poly(pa), e.poly(pb)
    return ['; %s' % label.replace('\n', ' ')[:200]] + \
        e.script(reg + ['(not (= %s %s))' % (a, b)])


def run(script, timeout=20, solver=None):
    t0 = time.time()
    STATS['queries'] += 1
    s = solver or Z3
    try:
        if s == 'cvc5':
            cmd = ['cvc5', '--lang=smt2', '--incremental', '--tlimit-per=%d' % (timeout * 1000), '-']
        else:
            cmd = [s, '-in', '-t:%d' % (timeout * 1000)]
        r = subprocess.run(cmd, input=script, capture_output=True, text=True, timeout=timeout * 40 + 60)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'unknown'
    STATS['time_s'] += time.time() - t0
    return out


def sat1(lines, timeout=5):
    out = run('\n'.join(['(set-logic QF_NRA)'] + lines + ['(check-sat)']), timeout)
    for l in out.splitlines():
        if l.strip() in ('sat', 'unsat', 'unknown'):
            return l.strip()
    return 'unknown'


def infeasible(N):
    if not N.assumptions:
        return False
    e = Enc(N)
    return sat1(e.script(e.region() + e.ints())) == 'unsat'


def zero_in_region(N, d):
    if not N.assumptions or len(d.items) > 60:
        return False
    e = Enc(N)
    r = e.region()
    return sat1(e.script(r + ['(not (= %s 0.0))' % e.poly(d)])) == 'unsat'


def discharge(goals, solver=None, timeout=20):
    """goals: list of (id, lines).  One incremental run; returns {id: answer}."""
    if not goals:
        return {}
    sc = ['(set-logic ALL)'] if solver == 'cvc5' else []
    for gid, lines in goals:
        sc.append('(push 1)')
        sc += lines
        sc.append('(check-sat)')
        sc.append('(pop 1)')
    out = run('\n'.join(sc), timeout, solver)
    ans = [l.strip() for l in out.splitlines() if l.strip() in ('sat', 'unsat', 'unknown', 'timeout')]
    res = {}
    for i, (gid, _) in enumerate(goals):
        res.setdefault(gid, []).append(ans[i] if i < len(ans) else 'unknown')
    errs = [l for l in out.splitlines() if 'error' in l]
    if errs:
        res['__errors__'] = errs[:5]
    return res

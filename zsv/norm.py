"""Normal forms: the lemma-instantiation heuristics of the VC discharge.

Every term is mapped to a polynomial (rational coefficients and exponents) over
canonical atoms.  The rules used are the lemma schemas listed in LEMMAS (proved
in lean/, see DESIGN.md): laws of exp/log/powers on the reals, linearity of
finite sums, Fubini for finite sums, the one-hot (delta) sum, translation
invariance of max, Euclidean division of mixed-radix indices, and lifting of
two-valued conditionals.  Real numbers are mathematical; log is only split over
products whose factors are known to be positive.
"""
from __future__ import annotations
from fractions import Fraction
import itertools
import time
from . import terms as tm
from .terms import T

F0, F1 = Fraction(0), Fraction(1)


class NeedSplit(Exception):
    def __init__(self, what):
        self.what = what


class Giveup(Exception):
    pass


class Poly(object):
    __slots__ = ('items', 'id', 'free', 'd')

    def __repr__(self):
        return 'P%d%s' % (self.id, self.items)


class Atom(object):
    __slots__ = ('kind', 'data', 'id', 'free', 'pos', 'nonneg', 'idem', 'isint', 'lo', 'hi')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.data)


LIMIT = [float('inf'), float('inf')]      # deadlines: this proof, this configuration


class Facts(object):
    """Preconditions: properties of input tensors and of index variables."""

    def __init__(self):
        self.tprop = {}      # tensor name -> set of {'pos','nonneg','unit','int','nz'}
        self.tbound = {}     # int tensor name -> T (exclusive upper bound, lower 0)
        self.tcond = {}      # tensor name -> fn(idx) -> set of props
        self.vbound = {}     # raw var T -> dim T
        self.pos = []        # list of T known > 0
        self.dimlo = {}      # dim name -> lower bound (default 1)
        self.posrule = None  # fn(norm, poly) -> '+' (positive), '0' (non-negative) or None
        self.rdrule = None   # fn(name, idx Polys, norm) -> Poly or None
        self.signs = {}      # (assumed) frozenset key -> sign

    def copy(self):
        f = Facts()
        f.__dict__.update({k: (v.copy() if hasattr(v, 'copy') else v)
                           for k, v in self.__dict__.items()})
        return f


class Norm(object):
    def __init__(self, facts, assume=(), expand=False):
        """assume: list of (Poly-builder T q, sign) with sign in '-0+'"""
        self.facts = facts
        self.expand = expand
        self.atoms = []
        self.atab = {}
        self.ptab = {}
        self.memo = {}
        self.vb = {}           # var name -> Poly bound (exclusive)
        self.pospolys = set()
        self.orient = {}
        self.units = set()     # atoms with values in (0, 1)
        self.signs = {}        # canonical poly id -> sign
        self.subst = {}        # atom id -> Poly
        self.used = {}         # lemma -> count
        self._pc = itertools.count()
        self.ZERO = self._poly({})
        self.ONE = self._poly({(): F1})
        self.NINF = Poly()
        self.NINF.items, self.NINF.id, self.NINF.free, self.NINF.d = None, -1, frozenset(), None
        self.goalvars = frozenset(v.args[0] for v in facts.vbound)
        for v, d in facts.vbound.items():
            self.vb[v.args[0]] = self.nf(d)
        for t in facts.pos:
            self.pospolys.add(self.canon(self.nf(t))[1].id)
        self.assumptions = []
        self.contra = False
        for q, s in assume:
            self._assume(q, s)

    def use(self, lemma):
        self.used[lemma] = self.used.get(lemma, 0) + 1

    # ------------------------------------------------------------ polynomials
    def _poly(self, d):
        items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
        p = self.ptab.get(items)
        if p is None:
            p = Poly()
            p.items = items
            p.d = dict(items)
            p.id = next(self._pc)
            if not p.id & 63 and time.time() > min(LIMIT):
                raise Giveup('time budget')
            f = frozenset()
            for m, c in items:
                for a, e in m:
                    f = f | self.atoms[a].free
            p.free = f
            self.ptab[items] = p
        return p

    def const(self, q):
        q = Fraction(q)
        return self._poly({(): q}) if q else self.ZERO

    def isconst(self, p):
        if p is self.NINF:
            return None
        if not p.items:
            return F0
        if len(p.items) == 1 and p.items[0][0] == ():
            return p.items[0][1]
        return None

    def padd(self, *ps):
        d = {}
        for p in ps:
            if p is self.NINF:
                return self.NINF
            for m, c in p.items:
                d[m] = d.get(m, F0) + c
        return self._poly(d)

    def pscale(self, p, c):
        c = Fraction(c)
        if p is self.NINF:
            if c > 0:
                return p
            raise Giveup('scaled -inf')
        return self._poly({m: k * c for m, k in p.items})

    def psub(self, a, b):
        return self.padd(a, self.pscale(b, -1))

    def mmul(self, m1, m2):
        """product of monomials -> monomial, or None if it is 0."""
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, F0) + e
        return self._mono(d)

    def _mono(self, d):
        out = []
        sg = {}
        for a, e in d.items():
            if e == 0:
                continue
            at = self.atoms[a]
            if at.idem:
                e = F1
                if at.kind == 'SG':
                    k = at.data[0].id
                    if sg.get(k, at.data[1]) != at.data[1]:
                        return None
                    sg[k] = at.data[1]
            out.append((a, e))
        out.sort()
        return tuple(out)

    def pmul(self, *ps):
        if any(p is self.NINF for p in ps):
            rest = [p for p in ps if p is not self.NINF]
            for r in rest:
                for a in self.top_atoms(r):
                    if self.atoms[a].idem:
                        self.need_split(self.atoms[a])
                if not self.is_pos(r):
                    raise Giveup('-inf times unknown sign')
            return self.NINF
        acc = {(): F1}
        for p in ps:
            nd = {}
            for m1, c1 in acc.items():
                for m2, c2 in p.items:
                    m = self.mmul(m1, m2)
                    if m is None:
                        continue
                    kf = F1
                    if any(self.atoms[a].kind == 'ROOT' and not 0 < e < 1 for a, e in m):
                        kf, m = self._reduce_root(m)
                        c2 = c2 * kf
                    if any(self.atoms[a].kind == 'POLY' and e > 0 and e.denominator == 1
                           for a, e in m):
                        q = self.pscale(self._expand_mono(m), c1 * c2)
                        for mm, cc in q.items:
                            nd[mm] = nd.get(mm, F0) + cc
                    else:
                        nd[m] = nd.get(m, F0) + c1 * c2
            acc = nd
            if len(acc) > 4000:
                raise Giveup('polynomial too large')
        return self._poly(acc)

    def _reduce_root(self, m):
        k, out = F1, []
        for a, e in m:
            at = self.atoms[a]
            if at.kind == 'ROOT':
                ip = e.numerator // e.denominator
                k *= Fraction(at.data[0]) ** ip
                e = e - ip
                if e == 0:
                    continue
            out.append((a, e))
        return k, tuple(out)

    def _expand_mono(self, m):
        """expand POLY^positive-integer factors."""
        rest = []
        ps = []
        for a, e in m:
            at = self.atoms[a]
            if at.kind == 'POLY' and e > 0 and e.denominator == 1:
                ps += [at.data[0]] * int(e)
            else:
                rest.append((a, e))
        return self.pmul(self._poly({tuple(rest): F1}), *ps)

    def ppow(self, p, n):
        return self.pmul(*([p] * n)) if n else self.ONE

    def patom(self, at, e=F1):
        s = self.subst.get(at.id)
        if s is not None:
            return self.power(s, Fraction(e))
        return self._poly({((at.id, Fraction(e)),): F1})

    def top_atoms(self, p):
        if p is self.NINF:
            return set()
        return {a for m, c in p.items for a, e in m}

    # ------------------------------------------------------------------ atoms
    def atom(self, kind, data, pos=False, nonneg=False, idem=False, isint=False, free=None,
             lo=None, hi=None):
        key = (kind, tuple(d.id if isinstance(d, Poly) else
                           (tuple(x.id if isinstance(x, Poly) else x for x in d)
                            if isinstance(d, tuple) else d) for d in data))
        at = self.atab.get(key)
        if at is None:
            at = Atom()
            at.kind, at.data, at.id = kind, data, len(self.atoms)
            if free is None:
                free = frozenset()
                for d in data:
                    if isinstance(d, Poly):
                        free = free | d.free
                    elif isinstance(d, tuple):
                        for x in d:
                            if isinstance(x, Poly):
                                free = free | x.free
            at.free = free
            at.pos, at.nonneg, at.idem, at.isint = pos, nonneg or pos or idem, idem, isint
            at.lo, at.hi = lo, hi
            self.atoms.append(at)
            self.atab[key] = at
        return at

    def v(self, name):
        return self.patom(self.vatom(name))

    def vatom(self, name):
        return self.atom('v', (name,), nonneg=True, isint=True, free=frozenset((name,)))

    # ---------------------------------------------------------------- signs
    def canon(self, p):
        """p = c * q with c > 0 rational or c<0, q with leading coefficient 1."""
        if not p.items:
            return F0, p
        c = p.items[-1][1]
        return c, self.pscale(p, 1 / c)

    def mono_sign(self, m):
        """'+' strictly positive, '0' nonnegative, None unknown."""
        s = '+'
        for a, e in m:
            at = self.atoms[a]
            if at.pos:
                continue
            if e.denominator == 1 and e % 2 == 0 and e > 0:
                s = '0'
                continue
            if at.kind == 'POLY' and self.is_pos(at.data[0]):
                continue
            sg = self.signs.get(self.canon(self.patom_raw(at))[1].id)
            if sg == '+':
                continue
            if at.nonneg:
                s = '0'
                continue
            return None
        return s

    def patom_raw(self, at):
        return self._poly({((at.id, F1),): F1})

    def is_pos(self, p):
        if p is self.NINF or not p.items:
            return False
        c, q = self.canon(p)
        s = self.signs.get(q.id)
        if s is not None:
            return s == ('+' if c > 0 else '-')
        if self.facts.posrule is not None and self.facts.posrule(self, p) == '+':
            return True
        if c > 0 and q.id in self.pospolys:
            return True
        if c < 0 and self.pscale(q, -1).id in self.pospolys:
            return True
        strict = False
        okc = True
        for m, k in p.items:
            if k < 0:
                okc = False
                break
            ms = self.mono_sign(m)
            if ms is None:
                okc = False
                break
            if ms == '+':
                strict = True
        if okc:
            return strict
        # factor out a positive monomial content and retry
        mono, c0, r = self.content(p)
        if mono and r is not p:
            return c0 > 0 and self.is_pos(r)
        if self.is_int(p):
            return self.int_ge(self.psub(p, self.ONE))
        lp = self.loglinear(p)
        if lp is not None:
            return self.is_pos(lp)
        # linear in an atom with values in (0, 1): compare at the end points
        for u in self.units:
            deg = {e for m, _ in p.items for a, e in m if a == u}
            if deg == {F1}:
                A = self._poly({m: k for m, k in p.items if all(a != u for a, _ in m)})
                B = self._poly({tuple(x for x in m if x[0] != u): k for m, k in p.items
                                if any(a == u for a, _ in m)})
                AB = self.padd(A, B)
                pa, pb = self.is_pos(A), self.is_pos(AB)
                if (pa and (pb or self.is_nonneg(AB))) or (pb and self.is_nonneg(A)):
                    self.use('unit_endpoints')
                    return True
        return False

    def loglinear(self, p):
        """For p = sum of c_i log(p_i) (c_i integers up to a common factor): the polynomial
        prod p_i^c_i - 1, which has the sign of p; None otherwise."""
        if not p.items or len(p.items) > 6:
            return None
        from math import lcm
        L = 1
        for m, k in p.items:
            if len(m) != 1 or m[0][1] != 1 or self.atoms[m[0][0]].kind != 'LOG':
                return None
            L = lcm(L, k.denominator)
        if any(abs(k * L) > 4 for _, k in p.items):
            return None
        r = self.ONE
        for m, k in p.items:
            q = self.atoms[m[0][0]].data[0]
            if not self.is_pos(q):
                return None
            r = self.pmul(r, self.power(q, k * L))
        self.use('log_sign')
        n, den = self.clear_den(self.psub(r, self.ONE))
        if den and not all(self.is_pos(self.atoms[a].data[0]) for a in den):
            return None
        return n

    def is_nonneg(self, p):
        if p is self.NINF:
            return False
        if not p.items:
            return True
        if self.is_pos(p):
            return True
        if self.facts.posrule is not None and self.facts.posrule(self, p) == '0':
            return True
        c, q = self.canon(p)
        if self.signs.get(q.id) == '0':
            return True
        if all(k > 0 and self.mono_sign(m) is not None for m, k in p.items):
            return True
        if self.is_int(p):
            return self.int_ge(p)
        return False

    def is_nonzero(self, p):
        return self.is_pos(p) or self.is_pos(self.pscale(p, -1))

    def is_int(self, p):
        if p is self.NINF:
            return False
        return all(c.denominator == 1 and all(self.atoms[a].isint and e.denominator == 1 and e > 0
                                              for a, e in m) for m, c in p.items)

    def int_ge(self, p, depth=0):
        """Sufficient check of p >= 0 for integer polynomials in bounded variables
        (0 <= v < bound) and dimensions (>= lower bound)."""
        if not p.items:
            return True
        if depth > 8:
            return False
        # pick a bounded variable occurring
        for m, c in p.items:
            for a, e in m:
                at = self.atoms[a]
                hi = self.bound_of(at)
                if hi is None:
                    continue
                coef = {}
                rest = {}
                ok = True
                for m2, c2 in p.items:
                    d = dict(m2)
                    if a in d:
                        if d[a] != 1:
                            ok = False
                            break
                        del d[a]
                        coef[tuple(sorted(d.items()))] = c2
                    else:
                        rest[m2] = c2
                if not ok:
                    return False
                cf, rs = self._poly(coef), self._poly(rest)
                # linear in the variable: check both ends
                if self._dims_ge(cf, depth + 1):
                    return self.int_ge(rs, depth + 1)
                if self._dims_ge(self.pscale(cf, -1), depth + 1):
                    return self.int_ge(self.padd(rs, self.pmul(cf, self.psub(hi, self.ONE))), depth + 1)
                return self.int_ge(rs, depth + 1) and \
                    self.int_ge(self.padd(rs, self.pmul(cf, self.psub(hi, self.ONE))), depth + 1)
        return self._dims_ge(p, depth + 1)

    def _dims_ge(self, p, depth):
        if any(self.bound_of(self.atoms[a]) is not None for a in self.top_atoms(p)):
            return self.int_ge(p, depth)
        # substitute dim := lo + d'
        mp = {}
        for a in self.top_atoms(p):
            at = self.atoms[a]
            if at.kind == 'dim':
                mp[a] = self.padd(self.patom_raw(at), self.const(self.facts.dimlo.get(at.data[0], 1)))
            elif not at.nonneg:
                return False
        q = self.ZERO
        for m, c in p.items:
            t = self.const(c)
            for a, e in m:
                base = mp.get(a) or self.patom_raw(self.atoms[a])
                if e.denominator != 1 or e < 0:
                    return False
                t = self.pmul(t, self.ppow(base, int(e)))
            q = self.padd(q, t)
        return all(c >= 0 for m, c in q.items)

    def bound_of(self, at):
        if at.kind == 'v':
            return self.vb.get(at.data[0])
        return at.hi

    # ---------------------------------------------------------------- assume
    def contradictory(self):
        return self.contra

    def _assume(self, q, s):
        """q: function Norm->Poly ; s sign."""
        p = q(self)
        if p is self.NINF:
            raise Giveup('assumption about -inf')
        k = self.isconst(p)
        if k is not None:
            if s != ('+' if k > 0 else '-' if k < 0 else '0'):
                self.contra = True
            return
        n = self.pscale(p, -1)
        if (s != '+' and self.is_pos(p)) or (s != '-' and self.is_pos(n)) or \
                (s == '-' and self.is_nonneg(p)) or (s == '+' and self.is_nonneg(n)):
            self.contra = True
            return
        c, p = self.canon(p)
        if c < 0:
            s = {'+': '-', '-': '+', '0': '0'}[s]
        self.assumptions.append((p, s))
        self.signs[p.id] = s
        if len(p.items) == 1 and len(p.items[0][0]) == 1 and p.items[0][0][0][1] == 1 and s == '+':
            at = self.atoms[p.items[0][0][0][0]]
            at.pos = at.nonneg = True
        if s == '0':
            for m, k in p.items:
                if len(m) == 1 and m[0][1] == 1:
                    at = self.atoms[m[0][0]]
                    if (at.kind in ('rd', 'APP') or at.idem) and at.id not in self.subst:
                        rest = self.psub(p, self._poly({m: k}))
                        if at.id not in self._deep_atoms(rest):
                            self.subst[at.id] = self.pscale(rest, -1 / k)
                            break
        self.memo.clear()

    def _deep_atoms(self, p):
        out = set()
        st = [p]
        while st:
            q = st.pop()
            for a in self.top_atoms(q):
                if a in out:
                    continue
                out.add(a)
                for d in self.atoms[a].data:
                    if isinstance(d, Poly):
                        st.append(d)
                    elif isinstance(d, tuple):
                        st += [x for x in d if isinstance(x, Poly)]
        return out

    def need_split(self, at):
        if at.free - self.goalvars:
            raise Giveup('conditional under a binder: %r' % (at,))
        raise NeedSplit(at)

    # ------------------------------------------------------------- functions
    def lift(self, p, f):
        """f applied to p, lifting 0/1 atoms out of the argument."""
        if p is self.NINF:
            return f(p)
        for m, c in p.items:
            for a, e in m:
                at = self.atoms[a]
                if at.idem:
                    one, zero = self.cofactors(p, a)
                    if one is zero:
                        return self.lift(one, f)
                    self.use('ite_lift')
                    fo, fz = self.lift(one, f), self.lift(zero, f)
                    if fo is self.NINF or fz is self.NINF:
                        self.need_split(at)
                    I = self.patom_raw(at)
                    return self.padd(self.pmul(I, fo), fz, self.pscale(self.pmul(I, fz), -1))
        return f(p)

    def cofactors(self, p, a):
        one, zero = {}, {}
        at = self.atoms[a]
        for m, c in p.items:
            d = dict(m)
            if a in d:
                del d[a]
                mm = tuple(sorted(d.items()))
                one[mm] = one.get(mm, F0) + c
            else:
                one[m] = one.get(m, F0) + c
                zero[m] = zero.get(m, F0) + c
        if at.kind == 'SG':
            # the opposite strict sign is excluded when this one holds
            o = self.atab.get(('SG', (at.data[0].id, '-' if at.data[1] == '+' else '+')))
            if o is not None:
                for m in list(one):
                    if any(b == o.id for b, e in m):
                        del one[m]
        return self._poly(one), self._poly(zero)

    def content(self, p):
        """p = c * mono * r : pull out the common content.  mono only contains
        atoms known positive (or EXP); r is returned with leading coeff +-1 times."""
        if not p.items:
            return (), F1, p
        mins = None
        for m, c in p.items:
            d = {a: e for a, e in m if self.atoms[a].pos}
            if mins is None:
                mins = d
                allk = set(d)
            else:
                allk |= set(d)
                nm = {}
                for a in set(mins) | set(d):
                    e = min(mins.get(a, F0), d.get(a, F0))
                    if e != 0:
                        nm[a] = e
                mins = nm
        mono = tuple(sorted(mins.items()))
        inv = tuple((a, -e) for a, e in mono)
        c = abs(p.items[-1][1])
        if len(p.items) > 1:
            # leading coefficient after the content was removed decides the scale
            q = {}
            for m, k in p.items:
                mm = self.mmul(m, inv)
                q[mm] = q.get(mm, F0) + k
            q = self._poly(q)
        else:
            m, k = p.items[0]
            mm = self.mmul(m, inv)
            q = self._poly({mm: k})
        c = abs(q.items[-1][1])
        r = self.pscale(q, 1 / c)
        return mono, c, r

    def clear_den(self, p):
        """p * D where D is a product of POLY atoms, so that no negative integer
        power of POLY is left.  Returns (numerator, {atom: power})."""
        den = {}
        for m, c in p.items:
            for a, e in m:
                if self.atoms[a].kind == 'POLY' and e < 0:
                    k = -(-(-e).numerator // (-e).denominator) if False else (-e)
                    if k > den.get(a, F0):
                        den[a] = k
        if not den:
            return p, den
        D = tuple(sorted(den.items()))
        out = self.ZERO
        for m, c in p.items:
            mm = self.mmul(m, D)
            out = self.padd(out, self.pscale(self._expand_mono(mm), c))
        # expansion may not have introduced new denominators
        return out, den

    def log(self, p):
        return self.lift(p, self._log)

    def _log(self, p):
        if p is self.NINF:
            raise Giveup('log(-inf)')
        if not p.items:
            return self.NINF
        if len(p.items) > 1:
            n, den = self.clear_den(p)
            if den:
                if all(self.is_pos(self.atoms[a].data[0]) for a in den):
                    r = self.log(n)
                    for a, e in den.items():
                        r = self.psub(r, self.pscale(self._log(self.atoms[a].data[0]), e))
                    self.use('log_div')
                    return r
        mono, c, r = self.content(p)
        out = self.logconst(c)
        if mono:
            self.use('log_mul')
        for a, e in mono:
            out = self.padd(out, self.pscale(self.logatom(self.atoms[a]), e))
        if len(r.items) == 1:
            m, k = r.items[0]
            if k == 1:
                if m == ():
                    return out
                left = []
                for a, e in m:
                    at = self.atoms[a]
                    if at.kind == 'POLY' and self.is_pos(at.data[0]):
                        out = self.padd(out, self.pscale(self._log(at.data[0]), e))
                    elif self.signs.get(self.canon(self.patom_raw(at))[1].id) == '+':
                        out = self.padd(out, self.pscale(self.logatom(at), e))
                    else:
                        left.append((a, e))
                if not left:
                    return out
                r = self._poly({tuple(left): F1})
        return self.padd(out, self.patom(self.atom('LOG', (r,))))

    def logconst(self, c):
        out = {}
        c = Fraction(c)
        if c == 1:
            return self.ZERO
        res = self.ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            while n > 1 and p * p <= n and p < 10000:
                while n % p == 0:
                    out[p] = out.get(p, 0) + s
                    n //= p
                p += 1
            if n > 1:
                out[n] = out.get(n, 0) + s
        for p, e in sorted(out.items()):
            res = self.padd(res, self.pscale(self.patom(self.atom('LOG', (self.const(p),), pos=True)), e))
        return res

    def logatom(self, at):
        if at.kind == 'EXP':
            return at.data[0]
        if at.kind == 'POLY':
            return self._log(at.data[0])
        if at.kind == 'ROOT':
            return self.logconst(at.data[0])
        return self.patom(self.atom('LOG', (self.patom_raw(at),)))

    def exp(self, p):
        return self.lift(p, self._exp)

    def _exp(self, p):
        if p is self.NINF:
            return self.ZERO
        out = self.ONE
        if len(p.items) > 1:
            self.use('exp_add')
        for m, c in p.items:
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'LOG':
                P = self.atoms[m[0][0]].data[0]
                if self.is_pos(P):
                    self.use('exp_log')
                    out = self.pmul(out, self.power(P, c))
                    continue
            e = self.atom('EXP', (self._poly({m: F1}),), pos=True)
            out = self.pmul(out, self._poly({((e.id, c),): F1}))
        return out

    def power(self, p, q):
        """p ** q, q rational."""
        q = Fraction(q)
        if q == 1:
            return p
        if q == 0:
            return self.ONE
        if q.denominator == 1 and q > 0 and q <= 8 and len(p.items) <= 12:
            return self.ppow(p, int(q))
        return self.lift(p, lambda r: self._power(r, q))

    def _power(self, p, q):
        if p is self.NINF:
            raise Giveup('pow(-inf)')
        if not p.items:
            if q > 0:
                return self.ZERO
            return self.patom(self.atom('JUNK', ('0^%s' % q,)))
        if len(p.items) > 1:
            n, den = self.clear_den(p)
            if den and all(self.is_pos(self.atoms[a].data[0]) for a in den):
                r = self.power(n, q)
                for a, e in den.items():
                    r = self.pmul(r, self._power(self.atoms[a].data[0], -e * q))
                return r
        mono, c, r = self.content(p)
        out = self.ONE
        if c != 1:
            out = self.powconst(c, q)
        if mono:
            self.use('rpow_mul')
            for a, e in mono:
                out = self.pmul(out, self._poly({((a, e * q),): F1}))
        if len(r.items) == 1:
            m, k = r.items[0]
            if k < 0:
                if q.denominator == 1:
                    out = self.pscale(out, 1 if q % 2 == 0 else -1)
                    k = -k
                else:
                    return self.pmul(out, self.patom(self.atom('POW', (r, q))))
            if m == ():
                return out
            if q.denominator == 1:
                # integer powers distribute over monomials (x^-1 = inv(x), total)
                rest = {}
                for a, e in m:
                    at = self.atoms[a]
                    if self.nz_atom(at) or q > 0:
                        rest[a] = e * q
                    elif at.kind == 'INV' and q < 0:
                        # inv(inv x) = x (total functions, inv 0 = 0)
                        out = self.pmul(out, self.power(at.data[0], -q * e))
                    else:
                        iv = self.atom('INV', (self.patom_raw(at),))
                        rest[iv.id] = e * (-q)
                mm = self._mono(rest)
                return self.pmul(out, self._poly({mm: F1}))
            if len(m) == 1 and m[0][1].denominator == 1 and m[0][1] % 2 == 0 and q == Fraction(1, 2):
                # sqrt(x^2k) = |x|^k
                a, e = m[0]
                return self.pmul(out, self.ppow(self.pabs(self.patom_raw(self.atoms[a])), int(e / 2)))
            return self.pmul(out, self.patom(self.atom('POW', (r, q), nonneg=True)))
        if q.denominator == 1 or self.is_pos(r) or self.is_nonneg(r):
            if q.denominator == 1:
                key = self.canon(r)[1].id
                o = self.orient.get(key)
                if o is None:
                    # orientation: positive if known, else by leading coefficient; fixed on first use
                    m_ = self.pscale(r, -1)
                    o = r if self.is_pos(r) else m_ if self.is_pos(m_) else (m_ if r.items[-1][1] < 0 else r)
                    self.orient[key] = o
                if o is not r and o is self.pscale(r, -1):
                    r = o
                    if q % 2 != 0:
                        out = self.pscale(out, -1)
            pos = self.is_pos(r)
            at = self.atom('POLY', (r,), pos=pos)
            return self.pmul(out, self._poly({((at.id, q),): F1}))
        return self.pmul(out, self.patom(self.atom('POW', (r, q))))

    def nz_atom(self, at):
        if at.pos or (at.kind == 'rd' and 'nz' in self.facts.tprop.get(at.data[0], ())):
            return True
        return self.is_nonzero(self.patom_raw(at))

    def powconst(self, c, q):
        if q.denominator == 1:
            return self.const(c ** int(q))
        # c^(a/b): prime factors as atoms with rational exponents
        out = self.ONE
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            fac = {}
            while n > 1 and p * p <= n:
                while n % p == 0:
                    fac[p] = fac.get(p, 0) + 1
                    n //= p
                p += 1
            if n > 1:
                fac[n] = fac.get(n, 0) + 1
            for pr, e in fac.items():
                ex = e * s * q
                ip = ex.numerator // ex.denominator
                fr = ex - ip
                out = self.pscale(out, Fraction(pr) ** ip)
                if fr:
                    at = self.atom('ROOT', (pr,), pos=True)
                    out = self.pmul(out, self._poly({((at.id, fr),): F1}))
        return out

    def pabs(self, p):
        return self.lift(p, self._abs)

    def _abs(self, p):
        if self.is_nonneg(p):
            return p
        if self.is_nonneg(self.pscale(p, -1)):
            return self.pscale(p, -1)
        I = self.lt0(p)
        return self.padd(p, self.pscale(self.pmul(I, p), -2))

    def psign(self, p):
        return self.psub(self.lt0(self.pscale(p, -1)), self.lt0(p))

    # ------------------------------------------------------------ conditions
    def lt0(self, p):
        return self.lift(p, self._lt0)

    def _lt0(self, p):
        """0/1 polynomial of p < 0."""
        if p is self.NINF:
            return self.ONE
        k = self.isconst(p)
        if k is not None:
            return self.ONE if k < 0 else self.ZERO
        n, den = self.clear_den(p)
        if den and all(self.is_pos(self.atoms[a].data[0]) for a in den):
            return self.lt0(n)
        mono, c0, r = self.content(p)
        if mono:
            return self.lt0(self.pscale(r, c0))
        lp = self.loglinear(p)
        if lp is not None:
            return self.lt0(lp)
        if self.is_nonneg(p):
            return self.ZERO
        if self.is_pos(self.pscale(p, -1)):
            return self.ONE
        c, q = self.canon(p)
        s = self.signs.get(q.id)
        if s is not None:
            neg = (s == '-') if c > 0 else (s == '+')
            return self.ONE if neg else self.ZERO
        if self.signs and self.is_int(p):
            # integers: p < 0 iff not p + 1 > 0
            c1, q1 = self.canon(self.padd(p, self.ONE))
            s = self.signs.get(q1.id)
            if s is not None:
                return self.ZERO if s == ('+' if c1 > 0 else '-') else self.ONE
        at = self.atom('SG', (q, '-' if c > 0 else '+'), idem=True)
        return self.patom_raw(at)

    def eq0(self, p):
        if self.is_int(p):
            return self.lift(p, self._eq0i)
        return self.psub(self.psub(self.ONE, self.lt0(p)), self.lt0(self.pscale(p, -1)))

    def _eq0i(self, p):
        k = self.isconst(p)
        if k is not None:
            return self.ONE if k == 0 else self.ZERO
        if self.is_pos(p) or self.is_pos(self.pscale(p, -1)):
            return self.ZERO
        c, q = self.canon(p)
        s = self.signs.get(q.id)
        if s is not None:
            return self.ONE if s == '0' else self.ZERO
        return self.patom_raw(self.atom('EQ', (q,), idem=True))

    # ---------------------------------------------------------------- binders
    def fresh(self, N):
        name = 'f%d' % next(self._pc)
        self.vb[name] = N
        return name

    def depth(self, p):
        h = 0
        for n in self._bound_names(p):
            h = max(h, n)
        return h

    def _bound_names(self, p, memo=None):
        out = set()
        seen = set()
        st = [p]
        while st:
            q = st.pop()
            if q.id in seen or q is self.NINF:
                continue
            seen.add(q.id)
            for a in self.top_atoms(q):
                at = self.atoms[a]
                if at.kind == 'v' and isinstance(at.data[0], tuple):
                    out.add(at.data[0][1])
                for d in at.data:
                    if isinstance(d, Poly):
                        st.append(d)
                    elif isinstance(d, tuple):
                        st += [x for x in d if isinstance(x, Poly)]
                    elif isinstance(d, (str, int)):
                        pass
        return out

    def cname(self, h, N):
        name = ('b', h, N.id)
        self.vb.setdefault(name, N)
        return name

    def close(self, binders, p):
        """Canonical renaming of binders [(name, N)] in p.
        Returns (tuple of canonical names, tuple of N, poly)."""
        h0 = self.depth(p) + 1
        groups = sorted(binders, key=lambda b: b[1].id)
        best = None
        # permute inside groups of equal bound only
        byN = []
        for N, g in itertools.groupby(groups, key=lambda b: b[1].id):
            byN.append(list(g))
        perms = [list(itertools.permutations(g)) if len(g) <= 4 else [tuple(g)] for g in byN]
        for combo in itertools.product(*perms):
            order = [b for g in combo for b in g]
            mp = {}
            names = []
            for i, (nm, N) in enumerate(order):
                cn = self.cname(h0 + i, N)
                names.append(cn)
                mp[nm] = self.v(cn)
            q = self.psubst(p, mp)
            if q is self.NINF:
                raise Giveup('-inf under binder')
            if best is None or q.id < best[2].id:
                best = (tuple(names), tuple(N for _, N in order), q)
        return best

    def psum(self, k, N, p):
        """sum_{k<N} p ; k a variable name."""
        if p is self.NINF:
            raise Giveup('-inf in sum')
        if self.expand:
            n = self.isconst(N)
            if n is not None and n <= 8:
                out = self.ZERO
                for i in range(int(n)):
                    out = self.padd(out, self.psubst(p, {k: self.const(i)}))
                self.use('sum_unfold')
                return out
        out = self.ZERO
        self.use('sum_linear')
        for m, c in p.items:
            ins = tuple((a, e) for a, e in m if k in self.atoms[a].free)
            outs = tuple((a, e) for a, e in m if k not in self.atoms[a].free)
            if not ins:
                t = N
            else:
                t = self.sum_mono([(k, N)], ins)
            out = self.padd(out, self.pscale(self.pmul(self._poly({outs: F1}), t), c))
        return out

    def sum_mono(self, binders, mono):
        # delta rule
        for a, e in mono:
            at = self.atoms[a]
            if at.kind == 'EQ':
                q = at.data[0]
                for k, N in binders:
                    if k not in q.free:
                        continue
                    va = self.vatom(k).id
                    cf = q.d.get(((va, F1),))
                    if cf not in (1, -1):
                        continue
                    rest = self.psub(q, self._poly({((va, F1),): cf}))
                    if k in rest.free:
                        continue
                    val = self.pscale(rest, -1 / cf)
                    if self.int_ge(val) and self.int_ge(self.psub(self.psub(N, self.ONE), val)):
                        self.use('sum_delta')
                        r = tuple((b, f) for b, f in mono if b != a)
                        body = self.psubst(self._poly({r: F1}), {k: val})
                        for k2, N2 in binders:
                            if k2 != k:
                                body = self.psum(k2, N2, body)
                        return body
        # flatten nested sums
        for a, e in mono:
            at = self.atoms[a]
            if at.kind == 'SUM' and e.denominator == 1 and 1 <= e <= 3:
                nb = []
                body = self._poly({tuple((b, f) for b, f in mono if b != a): F1})
                for _ in range(int(e)):
                    names, Ns, inner = self.open(at)
                    nb += list(zip(names, Ns))
                    body = self.pmul(body, inner)
                self.use('sum_comm')
                if len(body.items) == 1 and body.items[0][1] == 1:
                    return self.sum_mono(binders + nb, body.items[0][0])
                out = self.ZERO
                for m, c in body.items:
                    out = self.padd(out, self.pscale(self.sum_split(binders + nb, m), c))
                return out
        return self.sum_split(binders, mono)

    def sum_split(self, binders, mono):
        """pull out independent factors and split into connected components."""
        names = {k for k, N in binders}
        outs = tuple((a, e) for a, e in mono if not (self.atoms[a].free & names))
        ins = [(a, e) for a, e in mono if self.atoms[a].free & names]
        res = self._poly({outs: F1})
        left = list(binders)
        comps = []
        while ins:
            cur = [ins.pop()]
            vs = set(self.atoms[cur[0][0]].free & names)
            ch = True
            while ch:
                ch = False
                for it in list(ins):
                    if self.atoms[it[0]].free & vs:
                        vs |= self.atoms[it[0]].free & names
                        cur.append(it)
                        ins.remove(it)
                        ch = True
            comps.append((vs, tuple(sorted(cur))))
        used = set()
        for vs, m in comps:
            bs = [(k, N) for k, N in binders if k in vs]
            used |= vs
            # a binder's bound may mention other binders only if dims do (never here)
            if len(comps) > 1 or len(bs) < len(binders):
                res = self.pmul(res, self.sum_mono(bs, m))
            else:
                nm, Ns, q = self.close(bs, self._poly({m: F1}))
                at = self.atom('SUM', (nm, Ns, q), free=q.free - frozenset(nm),
                               pos=self.mono_sign(m) == '+', nonneg=self.mono_sign(m) is not None,
                               isint=self.is_int(q))
                res = self.pmul(res, self.patom(at))
        for k, N in binders:
            if k not in used:
                res = self.pmul(res, N)
        return res

    def open(self, at):
        nm, Ns, q = at.data
        names = [self.fresh(N) for N in Ns]
        return names, Ns, self.psubst(q, {n: self.v(f) for n, f in zip(nm, names)})

    def prmax(self, k, N, p):
        if p is self.NINF:
            raise Giveup('-inf in max')
        if self.expand:
            n = self.isconst(N)
            if n is not None and n <= 8:
                out = None
                for i in range(int(n)):
                    q = self.psubst(p, {k: self.const(i)})
                    out = q if out is None else self.pmax(out, q)
                return out
        ins = self._poly({m: c for m, c in p.items if any(k in self.atoms[a].free for a, e in m)})
        outs = self.psub(p, ins)
        if not ins.items:
            return p
        self.use('max_translate')
        c = self.isconst(outs)
        return self.padd(outs, self.mk_rmax([(k, N)], ins))

    def mk_rmax(self, binders, ins):
        if len(ins.items) == 1 and ins.items[0][1] == 1 and len(ins.items[0][0]) == 1 \
                and ins.items[0][0][0][1] == 1:
            at = self.atoms[ins.items[0][0][0][0]]
            if at.kind == 'RMAX':
                names, Ns, q = self.open(at)
                self.use('max_comm')
                return self.mk_rmax(binders + list(zip(names, Ns)), q)
        nm, Ns, q = self.close(binders, ins)
        at = self.atom('RMAX', (nm, Ns, q), free=q.free - frozenset(nm))
        return self.patom(at)

    def pmax(self, a, b):
        d = self.psub(a, b)
        I = self.lt0(d)       # a < b
        return self.padd(a, self.pscale(self.pmul(I, d), -1))

    def pprod(self, k, N, p):
        if self.expand:
            n = self.isconst(N)
            if n is not None and n <= 8:
                out = self.ONE
                for i in range(int(n)):
                    out = self.pmul(out, self.psubst(p, {k: self.const(i)}))
                return out
        if p is self.NINF:
            raise Giveup('-inf in product')
        if k not in p.free:
            if p is self.ONE:
                return p
            if self.is_pos(p):
                return self.exp(self.pmul(N, self.log(p)))
            return self.patom(self.atom('POWD', (p, N)))
        if self.is_pos(p):
            self.use('prod_exp_sum')
            return self.exp(self.psum(k, N, self.log(p)))
        if len(p.items) == 1:
            m, c = p.items[0]
            out = self.ONE if c == 1 else self.pprod(k, N, self.const(c))
            for a, e in m:
                at = self.atoms[a]
                if k not in at.free or self.mono_sign(((a, F1),)) == '+':
                    out = self.pmul(out, self.pprod(k, N, self._poly({((a, e),): F1})))
                elif len(m) == 1 and c == 1:
                    nm, Ns, q = self.close([(k, N)], p)
                    out = self.pmul(out, self.patom(self.atom('PROD', (nm, Ns, q), idem=at.idem,
                                                              free=q.free - frozenset(nm))))
                else:
                    out = self.pmul(out, self.pprod(k, N, self._poly({((a, e),): F1})))
            return out
        nm, Ns, q = self.close([(k, N)], p)
        return self.patom(self.atom('PROD', (nm, Ns, q), free=q.free - frozenset(nm)))

    # ------------------------------------------------------------------ div/mod
    def pidiv(self, P, D):
        k, d = self.isconst(P), self.isconst(D)
        if k is not None and d:
            return self.const(k // d)
        if d == 1:
            return P
        q, r = self.split_div(P, D)
        if q is not None:
            self.use('euclid')
            return q
        return self.patom(self.atom('IDIV', (P, D), isint=True, nonneg=self.is_nonneg(P)))

    def pimod(self, P, D):
        k, d = self.isconst(P), self.isconst(D)
        if k is not None and d:
            return self.const(k - d * (k // d))
        if d == 1:
            return self.ZERO
        q, r = self.split_div(P, D)
        if q is not None:
            self.use('euclid')
            return r
        return self.patom(self.atom('IMOD', (P, D), isint=True, nonneg=True, hi=D))

    def split_div(self, P, D):
        if not self.is_int(P) or len(D.items) != 1:
            return None, None
        dm, dc = D.items[0]
        q, r = {}, {}
        for m, c in P.items:
            d = dict(m)
            ok = (c / dc).denominator == 1
            for a, e in dm:
                if d.get(a, 0) < e:
                    ok = False
            if ok:
                for a, e in dm:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                mm = tuple(sorted(d.items()))
                q[mm] = q.get(mm, F0) + c / dc
            else:
                if dm == () and c.denominator == 1:
                    # constant divisor: split the coefficient
                    qq = c // dc
                    rr = c - qq * dc
                    if qq:
                        q[m] = q.get(m, F0) + qq
                    if rr:
                        r[m] = r.get(m, F0) + rr
                    continue
                r[m] = r.get(m, F0) + c
        q, r = self._poly(q), self._poly(r)
        if self.int_ge(r) and self.int_ge(self.psub(self.psub(D, r), self.ONE)):
            return q, r
        return None, None

    # --------------------------------------------------------------- substitution
    def psubst(self, p, mp):
        if p is self.NINF:
            return p
        if not (p.free & set(mp)):
            return p
        out = self.ZERO
        for m, c in p.items:
            t = self.const(c)
            for a, e in m:
                at = self.atoms[a]
                if at.free & set(mp):
                    b = self.rebuild(at, mp)
                    t = self.pmul(t, self.power(b, e) if e != 1 else b)
                else:
                    t = self.pmul(t, self._poly({((a, e),): F1}))
            out = self.padd(out, t)
        return out

    def rebuild(self, at, mp):
        k, d = at.kind, at.data
        S = lambda p: self.psubst(p, mp)
        if k == 'v':
            return mp.get(d[0]) or self.patom_raw(at)
        if k == 'rd':
            return self.mk_rd(d[0], [S(x) for x in d[1]], d[2])
        if k == 'EXP':
            return self.exp(S(d[0]))
        if k == 'LOG':
            return self.log(S(d[0]))
        if k == 'POLY':
            return S(d[0])
        if k == 'INV':
            return self.power(S(d[0]), -1)
        if k == 'POW':
            return self.power(S(d[0]), d[1])
        if k == 'SG':
            p = S(d[0])
            return self.lt0(p) if d[1] == '-' else self.lt0(self.pscale(p, -1))
        if k == 'EQ':
            return self.eq0(S(d[0]))
        if k in ('SUM', 'RMAX', 'PROD', 'ALL'):
            names, Ns, q = self.open(at)
            q = S(q)
            Ns = [S(N) for N in Ns]
            for n, N in zip(names, Ns):
                if k == 'SUM':
                    q = self.psum(n, N, q)
                elif k == 'RMAX':
                    q = self.prmax(n, N, q)
                elif k == 'PROD':
                    q = self.pprod(n, N, q)
                else:
                    q = self.pall(n, N, q)
            return q
        if k == 'FN':
            return self.fn(d[0], S(d[1]))
        if k == 'IDIV':
            return self.pidiv(S(d[0]), S(d[1]))
        if k == 'IMOD':
            return self.pimod(S(d[0]), S(d[1]))
        if k == 'POWD':
            return self.pprod('_', S(d[1]), S(d[0]))
        if k == 'APP':
            idx = [S(x) for x in d[1]]
            lams = []
            for nm, Ns, q in zip(d[2], d[3], d[4]):
                # open, substitute, close
                names = [self.fresh(N) for N in Ns]
                q2 = self.psubst(q, {n: self.v(f) for n, f in zip(nm, names)})
                q2 = S(q2)
                lams.append((names, Ns, q2))
            return self.mk_app(d[0], idx, lams)
        raise Giveup('rebuild %s' % k)

    def pall(self, k, N, p):
        """conjunction over k<N of 0/1 polynomial p"""
        c = self.isconst(p)
        if c is not None:
            return p
        if self.expand:
            n = self.isconst(N)
            if n is not None and n <= 8:
                out = self.ONE
                for i in range(int(n)):
                    out = self.pmul(out, self.psubst(p, {k: self.const(i)}))
                return out
        if k not in p.free:
            return p
        nm, Ns, q = self.close([(k, N)], p)
        return self.patom(self.atom('ALL', (nm, Ns, q), idem=True, free=q.free - frozenset(nm)))

    # ------------------------------------------------------------------- reads
    def mk_rd(self, name, idx, sort):
        if self.facts.rdrule is not None:
            r = self.facts.rdrule(name, idx, self)
            if r is not None:
                return r
        props = set(self.facts.tprop.get(name, ()))
        fc = self.facts.tcond.get(name)
        if fc is not None:
            props |= fc(idx, self)
        hi = self.facts.tbound.get(name)
        if hi is not None and tm.isc(hi, 1):
            return self.ZERO
        at = self.atom('rd', (name, tuple(idx), sort),
                       pos='pos' in props or 'unit' in props,
                       nonneg='nonneg' in props or hi is not None, idem=(sort == 'B'),
                       isint=sort == 'I', hi=self.nf(hi) if hi is not None else None)
        if 'unit' in props:
            self.units.add(at.id)
            p = self.psub(self.ONE, self.patom_raw(at))
            self.pospolys.add(p.id)
            self.pospolys.add(self.canon(p)[1].id if self.canon(p)[0] > 0 else
                              self.pscale(self.canon(p)[1], -1).id)
        return self.patom(at)

    def mk_app(self, name, idx, lams):
        nms, Nss, qs = [], [], []
        for names, Ns, q in lams:
            if q is self.NINF:
                raise Giveup('-inf closure')
            h0 = self.depth(q) + 1
            cn = [self.cname(h0 + i, N) for i, N in enumerate(Ns)]
            q2 = self.psubst(q, {n: self.v(c) for n, c in zip(names, cn)})
            nms.append(tuple(cn))
            Nss.append(tuple(Ns))
            qs.append(q2)
        free = frozenset()
        for x in idx:
            free = free | x.free
        for n, q in zip(nms, qs):
            free = free | (q.free - frozenset(n))
        key = ('APP', (name, tuple(x.id for x in idx), tuple(nms),
                       tuple(tuple(N.id for N in Ns) for Ns in Nss), tuple(q.id for q in qs)))
        at = self.atab.get(key)
        if at is None:
            at = Atom()
            at.kind, at.data, at.id = 'APP', (name, tuple(idx), tuple(nms), tuple(Nss), tuple(qs)), len(self.atoms)
            at.free = free
            at.pos = at.nonneg = at.idem = at.isint = False
            at.lo = at.hi = None
            self.atoms.append(at)
            self.atab[key] = at
        return self.patom(at)

    def fn(self, name, p):
        def go(p):
            if name == 'lgamma':
                k = self.isconst(p)
                if k is not None and k.denominator == 1 and 1 <= k <= 20:
                    import math
                    return self.logconst(math.factorial(int(k) - 1))
            return self.patom(self.atom('FN', (name, p)))
        return self.lift(p, go)

    # -------------------------------------------------------------------- nf
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.memo[t.id] = r
        return r

    def _nf(self, t):
        o, a = t.op, t.args
        if o == 'c':
            return self.const(a[0])
        if o == 'b':
            return self.ONE if a[0] else self.ZERO
        if o == 'inf':
            if a[0] < 0:
                return self.NINF
            raise Giveup('+inf')
        if o == 'nan':
            raise Giveup('nan')
        if o == 'pi':
            return self.patom(self.atom('pi', (), pos=True))
        if o == 'v':
            if t in VB and tm.isc(VB[t], 1):
                return self.ZERO
            return self.v(a[0])
        if o == 'dim':
            return self.patom(self.atom('dim', (a[0],), pos=self.facts.dimlo.get(a[0], 1) >= 1,
                                        nonneg=True, isint=True))
        if o == 'rd':
            return self.mk_rd(a[0], [self.nf(x) for x in a[1:]], t.sort)
        if o == 'add':
            return self.padd(*[self.nf(x) for x in a])
        if o == 'mul':
            return self.pmul(*[self.nf(x) for x in a])
        if o == 'div':
            return self.pmul(self.nf(a[0]), self.power(self.nf(a[1]), -1))
        if o == 'pow':
            b = self.nf(a[1])
            k = self.isconst(b)
            x = self.nf(a[0])
            if k is not None:
                return self.power(x, k)
            if self.is_pos(x):
                return self.exp(self.pmul(b, self.log(x)))
            return self.patom(self.atom('FN', ('pow', x, b)))
        if o == 'exp':
            return self.exp(self.nf(a[0]))
        if o == 'log':
            return self.log(self.nf(a[0]))
        if o == 'log1p':
            return self.log(self.padd(self.ONE, self.nf(a[0])))
        if o == 'expm1':
            return self.psub(self.exp(self.nf(a[0])), self.ONE)
        if o == 'softplus':
            x = self.nf(a[0])
            return self.log(self.padd(self.ONE, self.exp(x)))
        if o == 'sigmoid':
            x = self.nf(a[0])
            return self.power(self.padd(self.ONE, self.exp(self.pscale(x, -1))), -1)
        if o == 'tanh':
            e = self.exp(self.pscale(self.nf(a[0]), 2))
            return self.psub(self.ONE, self.pscale(self.power(self.padd(e, self.ONE), -1), 2))
        if o == 'abs':
            return self.pabs(self.nf(a[0]))
        if o == 'sign':
            return self.psign(self.nf(a[0]))
        if o == 'max':
            return self.pmax(self.nf(a[0]), self.nf(a[1]))
        if o in ('lgamma', 'digamma', 'sin', 'cos', 'floor'):
            return self.fn(o, self.nf(a[0]))
        if o == 'ite':
            c = self.nf(a[0])
            k = self.isconst(c)
            if k is not None:
                return self.nf(a[1] if k == 1 else a[2])
            x, y = self.nf(a[1]), self.nf(a[2])
            if x is y:
                return x
            if x is self.NINF or y is self.NINF:
                for b in self.top_atoms(c):
                    self.need_split(self.atoms[b])
            return self.padd(self.pmul(c, x), y, self.pscale(self.pmul(c, y), -1))
        if o == 'lt':
            return self.lt0(self.psub(self.nf(a[0]), self.nf(a[1])))
        if o == 'le':
            return self.psub(self.ONE, self.lt0(self.psub(self.nf(a[1]), self.nf(a[0]))))
        if o == 'eq':
            return self.eq0(self.psub(self.nf(a[0]), self.nf(a[1])))
        if o == 'isfinite':
            x = self.nf(a[0])
            if x is self.NINF:
                return self.ZERO
            return self._isfinite(x)
        if o == 'not':
            return self.psub(self.ONE, self.nf(a[0]))
        if o == 'and':
            return self.pmul(*[self.nf(x) for x in a])
        if o == 'xor':
            x, y = self.nf(a[0]), self.nf(a[1])
            return self.padd(x, y, self.pscale(self.pmul(x, y), -2))
        if o in tm.BINDERS:
            k, n, body = a
            N = self.nf(n)
            self.vb[k.args[0]] = N
            p = self.nf(body)
            nm = k.args[0]
            if o == 'sum':
                return self.psum(nm, N, p)
            if o == 'prod':
                return self.pprod(nm, N, p)
            if o == 'rmax':
                return self.prmax(nm, N, p)
            if o == 'rmin':
                return self.pscale(self.prmax(nm, N, self.pscale(p, -1)), -1)
            if o == 'all':
                return self.pall(nm, N, p)
            return self.psub(self.ONE, self.pall(nm, N, self.psub(self.ONE, p)))
        if o == 'idiv':
            return self.pidiv(self.nf(a[0]), self.nf(a[1]))
        if o == 'imod':
            return self.pimod(self.nf(a[0]), self.nf(a[1]))
        if o == 'toR':
            return self.nf(a[0])
        if o == 'toI':
            x = self.nf(a[0])
            if self.is_int(x) or (t.args[0].op == 'rd' and
                                  'int' in self.facts.tprop.get(t.args[0].args[0], ())):
                return x
            return self.lift(x, lambda y: y if self.is_int(y) else
                             self.patom(self.atom('FN', ('toI', y), isint=True)))
        if o == 'app':
            idx = [self.nf(x) for x in a[1]]
            lams = []
            for l in a[2]:
                vs, body = l.args
                Ns = []
                for v_ in vs:
                    N = self.nf(VB[v_])
                    self.vb[v_.args[0]] = N
                    Ns.append(N)
                lams.append(([v_.args[0] for v_ in vs], Ns, self.nf(body)))
            return self.mk_app(a[0], idx, lams)
        raise Giveup('no normal form for %s' % o)

    def _isfinite(self, x):
        # in the real-number semantics every value is finite
        return self.ONE

    # ------------------------------------------------------------- equality
    def diff(self, a, b):
        """Polynomial that is zero iff the normal forms agree (None if both -inf)."""
        if a is self.NINF or b is self.NINF:
            return self.ZERO if a is b else None
        d = self.psub(a, b)
        if not d.items:
            return d
        for _ in range(4):
            n, den = self.clear_den(d)
            if not den:
                break
            self.use('clear_denominators')
            d = n
            if not d.items:
                break
        return d


VB = {}


def bvar(hint, n):
    v = tm.var(hint)
    VB[v] = n
    return v

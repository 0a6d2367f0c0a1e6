"""Path-exhaustive execution of real Python code over all integers.

SymInt is an int whose comparisons are recorded.  `regions(run)` executes the
real code on representatives of every region of the integers that the code's
own comparisons distinguish: two integers in the same region take the same
branches, so the outcome of the representative is the outcome of the region
(as long as the value is only compared before the outcome, which is checked:
other uses of the value are recorded as escapes)."""
from __future__ import annotations


class SymInt(int):
    def __new__(cls, v, log):
        o = int.__new__(cls, v)
        o.log = log
        return o

    def _c(self, other, kind):
        if isinstance(other, bool) or not isinstance(other, (int, float)):
            self.log['escapes'].append(kind)
        else:
            self.log['consts'].add(other)

    def __lt__(self, o):
        self._c(o, 'lt')
        return int.__lt__(self, int(o)) if isinstance(o, int) else float(int(self)) < o

    def __le__(self, o):
        self._c(o, 'le')
        return int.__le__(self, int(o)) if isinstance(o, int) else float(int(self)) <= o

    def __gt__(self, o):
        self._c(o, 'gt')
        return int.__gt__(self, int(o)) if isinstance(o, int) else float(int(self)) > o

    def __ge__(self, o):
        self._c(o, 'ge')
        return int.__ge__(self, int(o)) if isinstance(o, int) else float(int(self)) >= o

    def __eq__(self, o):
        self._c(o, 'eq')
        return int.__eq__(self, o)

    def __ne__(self, o):
        self._c(o, 'ne')
        return int.__ne__(self, o)

    def __bool__(self):
        self.log['consts'].add(0)
        return int.__ne__(self, 0)

    __hash__ = int.__hash__

    def __int__(self):
        return int.__int__(self)


for _n in ('__add__', '__sub__', '__mul__', '__neg__', '__mod__', '__floordiv__', '__radd__', '__rsub__', '__rmul__',
           '__abs__', '__and__', '__or__', '__xor__', '__lshift__', '__rshift__', '__pow__'):
    def _mk(n):
        f = getattr(int, n)

        def g(self, *a):
            self.log['escapes'].append(n)
            return f(int(self), *[int(x) if isinstance(x, SymInt) else x for x in a])
        return g
    setattr(SymInt, _n, _mk(_n))


def regions(run, limit=40):
    """run(SymInt) -> outcome.  Returns (list of (lo, hi, representative, outcome), escapes);
    lo/hi None means unbounded."""
    consts, done, esc = {0}, {}, []
    while True:
        cs = sorted(int(c) for c in consts)
        reps = set()
        for c in cs:
            reps |= {c - 1, c, c + 1}
        todo = [r for r in sorted(reps) if r not in done]
        if not todo or len(done) > limit:
            break
        for r in todo:
            log = dict(consts=set(), escapes=[])
            done[r] = run(SymInt(r, log))
            esc += log['escapes']
            consts |= log['consts']
    cs = sorted(int(c) for c in consts)
    out = []
    prev = None
    for c in cs:
        if prev is None:
            out.append((None, c - 1, c - 1, done[c - 1]))
        elif c - 1 > prev:
            out.append((prev + 1, c - 1, c - 1, done[c - 1]))
            if done.get(prev + 1, done[c - 1]) != done[c - 1]:
                esc.append('inconsistent')
        out.append((c, c, c, done[c]))
        prev = c
    out.append((prev + 1, None, prev + 1, done[prev + 1]))
    return out, esc

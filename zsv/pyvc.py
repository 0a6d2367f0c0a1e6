"""Deductive verification of the worklist function get_backward_ops.

The function's source is read from /repo on every run and parsed; its loop is
executed symbolically, statement by statement, over SMT arrays, and every
obligation (invariant holds initially, every path of the body preserves it,
invariant and exit imply the postcondition, every iteration decreases the
variant) is discharged by z3 for all graphs, seeds and cut sets.  Nothing of
the function is dropped except its docstring; statements outside the subset
raise Unsupported and the caller falls back to a bounded check."""
from __future__ import annotations
import ast
import inspect
import subprocess
import tempfile
import textwrap
import time
import os

Z3 = os.environ.get('ZSV_Z3', 'z3-new')


class Unsupported(Exception):
    pass


PRE = '''
(declare-sort Op 0)
(declare-sort Ten 0)
(declare-fun inp (Op Int) Ten)
(declare-fun nin (Op) Int)
(declare-fun ctl (Op Int) Op)
(declare-fun nctl (Op) Int)
(declare-fun topop (Ten) Op)
(declare-fun cut (Ten) Bool)
(declare-fun rank (Op) Int)
(declare-fun R (Op) Bool)
(declare-fun seed (Int) Ten)
(declare-fun nseed () Int)
(assert (>= nseed 0))
(assert (forall ((o Op)) (! (and (>= (nin o) 0) (>= (nctl o) 0)) :pattern ((nin o)))))
(assert (forall ((o Op)) (! (and (>= (nin o) 0) (>= (nctl o) 0)) :pattern ((nctl o)))))
; the graph is acyclic
(assert (forall ((o Op) (i Int)) (! (=> (and (<= 0 i) (< i (nin o)) (not (cut (inp o i))))
   (< (rank (topop (inp o i))) (rank o))) :pattern ((inp o i)))))
(assert (forall ((o Op) (i Int)) (! (=> (and (<= 0 i) (< i (nctl o))) (< (rank (ctl o i)) (rank o))) :pattern ((ctl o i)))))
; R is any set that contains the seeds' ops and is closed under dependency
(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i nseed) (not (cut (seed i)))) (R (topop (seed i)))) :pattern ((seed i)))))
(assert (forall ((o Op) (i Int)) (! (=> (and (R o) (<= 0 i) (< i (nin o)) (not (cut (inp o i))))
   (R (topop (inp o i)))) :pattern ((inp o i)))))
(assert (forall ((o Op) (i Int)) (! (=> (and (R o) (<= 0 i) (< i (nctl o))) (R (ctl o i))) :pattern ((ctl o i)))))
(define-sort OpSet () (Array Op Bool))
(define-sort OpSeq () (Array Int Op))
(define-sort OpInt () (Array Op Int))
(define-sort OpIdx () (Array Op (Array Int Int)))
(define-sort IntInt () (Array Int Int))
'''


def inv(s):
    """invariant clauses over a state dict of SMT names"""
    d = dict(s)
    f = lambda t: t % d
    return [
        ('queue well formed', f('(and (<= %(lo)s %(hi)s) (<= 0 %(n)s))')),
        ('queue holds only ops the seeds depend on', f(
            '(forall ((i Int)) (! (=> (and (<= %(lo)s i) (< i %(hi)s)) (R (select %(q)s i))) :pattern ((select %(q)s i))))')),
        ('done implies seen', f('(forall ((a Op)) (! (=> (select %(done)s a) (select %(seen)s a)) '
                                ':pattern ((select %(done)s a))))')),
        ('every done op is in the result', f(
            '(forall ((a Op)) (! (=> (select %(done)s a) (and (<= 0 (select %(pos)s a)) (< (select %(pos)s a) %(n)s) '
            '(= (select %(ret)s (select %(pos)s a)) a))) :pattern ((select %(done)s a))))')),
        ('the result holds done ops, each once', f(
            '(forall ((k Int)) (! (=> (and (<= 0 k) (< k %(n)s)) (and (select %(done)s (select %(ret)s k)) '
            '(= (select %(pos)s (select %(ret)s k)) k))) :pattern ((select %(ret)s k))))')),
        ('done ops are needed', f('(forall ((a Op)) (! (=> (select %(done)s a) (R a)) :pattern ((select %(done)s a))))')),
        ('data dependencies of done ops come first', f(
            '(forall ((a Op) (i Int)) (! (=> (and (select %(done)s a) (<= 0 i) (< i (nin a)) (not (cut (inp a i)))) '
            '(and (select %(done)s (topop (inp a i))) (< (select %(pos)s (topop (inp a i))) (select %(pos)s a)))) '
            ':pattern ((inp a i) (select %(done)s a))))')),
        ('control dependencies of done ops come first', f(
            '(forall ((a Op) (i Int)) (! (=> (and (select %(done)s a) (<= 0 i) (< i (nctl a))) '
            '(and (select %(done)s (ctl a i)) (< (select %(pos)s (ctl a i)) (select %(pos)s a)))) '
            ':pattern ((ctl a i) (select %(done)s a))))')),
        ('open ops are in the queue', f(
            '(forall ((a Op)) (! (=> (and (select %(seen)s a) (not (select %(done)s a))) (and (<= %(lo)s (select %(p)s a)) '
            '(< (select %(p)s a) %(hi)s) (= (select %(q)s (select %(p)s a)) a))) :pattern ((select %(seen)s a))))')),
        ('only dependencies are queued before an open op', f(
            '(forall ((a Op) (i Int)) (! (=> (and (select %(seen)s a) (not (select %(done)s a)) (<= %(lo)s i) '
            '(< i (select %(p)s a))) (< (rank (select %(q)s i)) (rank a))) :pattern ((select %(seen)s a) (select %(q)s i))))')),
        ('data dependencies of open ops are done or queued before', f(
            '(forall ((a Op) (i Int)) (! (=> (and (select %(seen)s a) (not (select %(done)s a)) (<= 0 i) (< i (nin a)) '
            '(not (cut (inp a i)))) (or (select %(done)s (topop (inp a i))) (and (<= %(lo)s (select (select %(wi)s a) i)) '
            '(< (select (select %(wi)s a) i) (select %(p)s a)) (= (select %(q)s (select (select %(wi)s a) i)) '
            '(topop (inp a i)))))) :pattern ((inp a i) (select %(seen)s a))))')),
        ('control dependencies of open ops are done or queued before', f(
            '(forall ((a Op) (i Int)) (! (=> (and (select %(seen)s a) (not (select %(done)s a)) (<= 0 i) (< i (nctl a))) '
            '(or (select %(done)s (ctl a i)) (and (<= %(lo)s (select (select %(wc)s a) i)) '
            '(< (select (select %(wc)s a) i) (select %(p)s a)) (= (select %(q)s (select (select %(wc)s a) i)) '
            '(ctl a i))))) :pattern ((ctl a i) (select %(seen)s a))))')),
        ('seeds are done or queued', f(
            '(forall ((j Int)) (! (=> (and (<= 0 j) (< j nseed) (not (cut (seed j)))) (or (select %(done)s (topop (seed j))) '
            '(and (<= %(lo)s (select %(ws)s j)) (< (select %(ws)s j) %(hi)s) (= (select %(q)s (select %(ws)s j)) '
            '(topop (seed j)))))) :pattern ((seed j))))')),
    ]


def post(s):
    d = dict(s)
    f = lambda t: t % d
    return [
        ('every listed op is needed', f('(forall ((k Int)) (=> (and (<= 0 k) (< k %(n)s)) (R (select %(ret)s k))))')),
        ('no op is listed twice', f('(forall ((k Int) (l Int)) (=> (and (<= 0 k) (< k l) (< l %(n)s)) '
                                    '(distinct (select %(ret)s k) (select %(ret)s l))))')),
        ('every seed op is listed', f('(forall ((j Int)) (=> (and (<= 0 j) (< j nseed) (not (cut (seed j)))) '
                                      '(and (<= 0 (select %(pos)s (topop (seed j)))) (< (select %(pos)s (topop (seed j))) '
                                      '%(n)s) (= (select %(ret)s (select %(pos)s (topop (seed j)))) (topop (seed j))))))')),
        ('data dependencies are listed before', f(
            '(forall ((k Int) (i Int)) (=> (and (<= 0 k) (< k %(n)s) (<= 0 i) (< i (nin (select %(ret)s k))) '
            '(not (cut (inp (select %(ret)s k) i)))) (and (<= 0 (select %(pos)s (topop (inp (select %(ret)s k) i)))) '
            '(< (select %(pos)s (topop (inp (select %(ret)s k) i))) k) (= (select %(ret)s (select %(pos)s (topop (inp '
            '(select %(ret)s k) i)))) (topop (inp (select %(ret)s k) i))))))')),
        ('control dependencies are listed before', f(
            '(forall ((k Int) (i Int)) (=> (and (<= 0 k) (< k %(n)s) (<= 0 i) (< i (nctl (select %(ret)s k)))) '
            '(and (<= 0 (select %(pos)s (ctl (select %(ret)s k) i))) (< (select %(pos)s (ctl (select %(ret)s k) i)) k) '
            '(= (select %(ret)s (select %(pos)s (ctl (select %(ret)s k) i))) (ctl (select %(ret)s k) i)))))')),
    ]


SORTS = dict(q='OpSeq', lo='Int', hi='Int', seen='OpSet', done='OpSet', ret='OpSeq', n='Int', pos='OpInt', p='OpInt',
             wi='OpIdx', wc='OpIdx', ws='IntInt')


class VC(object):
    def __init__(self, fn):
        src = textwrap.dedent(inspect.getsource(fn))
        self.fn = ast.parse(src).body[0]
        self.k = 0
        self.obls = []          # (name, status, seconds)

    # ------------------------------------------------------------ plumbing
    def fresh(self, base, sort, decls):
        self.k += 1
        n = '%s_%d' % (base, self.k)
        decls.append('(declare-const %s %s)' % (n, sort))
        return n

    def sym_state(self, decls):
        return {v: self.fresh(v, s, decls) for v, s in SORTS.items()}

    def check(self, name, decls, hyps, goal, limit=10):
        txt = PRE + '\n'.join(decls) + '\n' + '\n'.join('(assert %s)' % h for h in hyps) + \
            '\n(assert (not %s))\n(check-sat)\n' % goal
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run([Z3, '-T:%d' % limit, f.name], capture_output=True, text=True)
            out = r.stdout.strip().split('\n')[0]
            if 'error' in r.stdout:
                out = 'error ' + r.stdout[:200]
        finally:
            os.unlink(f.name)
        self.obls.append((name, out, time.time() - t0))
        return out == 'unsat'

    def vacuity(self, name, decls, hyps):
        """the hypotheses must not be contradictory (z3 finds no refutation of them)"""
        ok = self.check(name, decls, hyps, 'false', 1)
        n, out, t = self.obls.pop()
        self.obls.append((n, 'contradictory' if ok else 'unsat', t))

    @staticmethod
    def nonempty(e):
        """the sequence a loop condition tests for being non-empty"""
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and (
                type(e.ops[0]), e.comparators[0].value) in ((ast.Gt, 0), (ast.NotEq, 0), (ast.GtE, 1)):
            e = e.left
            if not (isinstance(e, ast.Call) and ast.unparse(e.func) == 'len'):
                raise Unsupported('loop condition')
        if isinstance(e, ast.Call) and ast.unparse(e.func) == 'len' and isinstance(e.args[0], ast.Name):
            return e.args[0].id
        raise Unsupported('loop condition')

    # ------------------------------------------------------------ roles
    def run(self):
        body = [s for s in self.fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        args = [a.arg for a in self.fn.args.args]
        if len(args) != 2:
            raise Unsupported('arguments %s' % args)
        self.seeds, self.cutv = args
        loops = [i for i, s in enumerate(body) if isinstance(s, ast.While)]
        if len(loops) != 1:
            raise Unsupported('expected one while loop')
        li = loops[0]
        loop, tail = body[li], body[li + 1:]
        if not (len(tail) == 1 and isinstance(tail[0], ast.Return) and isinstance(tail[0].value, ast.Name)):
            raise Unsupported('statements after the loop')
        if loop.orelse:
            raise Unsupported('loop condition')
        self.qv, self.retv = self.nonempty(loop.test), tail[0].value.id
        # which end of the sequence is the top of the worklist (the invariants do not depend on the other end)
        ends = {ast.unparse(n.slice) for n in ast.walk(loop) if isinstance(n, ast.Subscript) and
                isinstance(n.value, ast.Name) and n.value.id == self.qv}
        if ends == {'-1'}:
            self.top, self.popm, self.pushm, self.extm = '[-1]', 'pop', 'append', 'extend'
        else:
            self.top, self.popm, self.pushm, self.extm = '[0]', 'popleft', 'appendleft', 'extendleft'
        sets = [s.targets[0].id for s in body[:li] if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and
                isinstance(s.value.func, ast.Name) and s.value.func.id == 'set' and not s.value.args]
        if len(sets) != 2:
            raise Unsupported('sets %s' % sets)
        # the first membership test of the loop body decides which set marks discovered ops
        first = [n for n in ast.walk(loop) if isinstance(n, ast.Compare) and isinstance(n.comparators[0], ast.Name) and
                 n.comparators[0].id in sets]
        if not first:
            raise Unsupported('membership tests')
        self.seenv = first[0].comparators[0].id
        self.donev = [x for x in sets if x != self.seenv][0]
        self.prefix(body[:li])
        # initialisation
        decls = []
        s0 = self.sym_state(decls)
        hyps = ['(= %s 0)' % s0['lo'], '(<= 0 %s)' % s0['hi'], '(= %s 0)' % s0['n'],
                '(= %s ((as const OpSet) false))' % s0['seen'], '(= %s ((as const OpSet) false))' % s0['done'],
                # contract of the prefix: the queue holds exactly the ops of the seeds that are not cut
                '(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (R (select %s i))) :pattern ((select %s i))))' % (
                    s0['hi'], s0['q'], s0['q']),
                '(forall ((j Int)) (! (=> (and (<= 0 j) (< j nseed) (not (cut (seed j)))) (and (<= 0 (select %s j)) '
                '(< (select %s j) %s) (= (select %s (select %s j)) (topop (seed j))))) :pattern ((seed j))))' % (
                    s0['ws'], s0['ws'], s0['hi'], s0['q'], s0['ws'])]
        for nm, c in inv(s0):
            self.check('invariant initially: %s' % nm, decls, hyps, c)
        # one iteration, all paths
        decls = []
        s = self.sym_state(decls)
        self.start = dict(s)
        st = dict(s=s, env={}, hyps=[c for _, c in inv(s)] + ['(< %s %s)' % (s['lo'], s['hi'])], decls=decls, path='')
        ends = self.block(loop.body, [st])
        for e in ends:
            self.vacuity('path%s is feasible' % e['path'], e['decls'], e['hyps'])
            for nm, c in inv(e['s']):
                self.check('invariant preserved%s: %s' % (e['path'], nm), e['decls'], e['hyps'], c)
            b, a = self.start, e['s']
            var = ('(or (and (= %s %s) (< (- %s %s) (- %s %s))) (exists ((o Op)) (and (R o) (not (select %s o)) '
                   '(select %s o) (forall ((x Op)) (=> (select %s x) (select %s x))))))') % (
                a['seen'], b['seen'], a['hi'], a['lo'], b['hi'], b['lo'], b['seen'], a['seen'], b['seen'], a['seen'])
            if 'op' in e:
                o = e['op']
                var = ('(or (and (= %s %s) (< (- %s %s) (- %s %s))) (and (R %s) (not (select %s %s)) (= %s (store %s %s true))))'
                       ) % (a['seen'], b['seen'], a['hi'], a['lo'], b['hi'], b['lo'], o, b['seen'], o, a['seen'],
                            b['seen'], o)
            self.check('iteration%s makes progress (terminates)' % e['path'], e['decls'], e['hyps'], var)
        # exit
        decls = []
        s = self.sym_state(decls)
        hyps = [c for _, c in inv(s)] + ['(not (< %s %s))' % (s['lo'], s['hi'])]
        self.vacuity('exit is feasible', decls, hyps)
        for nm, c in post(s):
            self.check('postcondition: %s' % nm, decls, hyps, c)
        return self.obls

    # ------------------------------------------------------------ prefix
    def prefix(self, stmts):
        """Recognises the set-up code by its meaning on sequences of tensors: a value is
        ('seeds', filtered, mapped): the seed tensors, possibly filtered by `not in cut`, possibly mapped to ops."""
        env = {self.seeds: ('seeds', False, False), self.cutv: 'cutarg'}
        for s in stmts:
            u = ast.unparse(s).replace(' ', '')
            if isinstance(s, ast.If):
                # defaults and the single-tensor form: a list with that tensor
                if u in ('if%sisNone:\n%s=[]' % (self.cutv, self.cutv), 'if%sisNone:\n%s=()' % (self.cutv, self.cutv)):
                    continue
                if u in ('ifnotisinstance(%s,(list,tuple)):\n%s=[%s]' % ((self.seeds,) * 3),
                         'ifnotisinstance(%s,(tuple,list)):\n%s=[%s]' % ((self.seeds,) * 3)):
                    continue
                raise Unsupported('prefix: ' + ast.unparse(s)[:80])
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                raise Unsupported('prefix: ' + ast.unparse(s)[:80])
            env[s.targets[0].id] = self.seqval(s.value, env)
        if env.get(self.qv) != ('seeds', True, True, 'deque') and env.get(self.qv) != ('seeds', True, True):
            raise Unsupported('queue starts as %r' % (env.get(self.qv),))
        if env.get(self.cutv) != 'cut' and 'cut' not in env.values():
            raise Unsupported('cut set')
        self.cutnames = {k for k, v in env.items() if v in ('cut', 'cutarg')}
        if env.get(self.retv) != 'emptylist':
            raise Unsupported('result starts as %r' % (env.get(self.retv),))

    def seqval(self, e, env):
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.IfExp):
            # <empty> if cut is None else <cut> (and the two other ways round); a single seed as a list
            t, a, b = ast.unparse(e.test).replace(' ', ''), e.body, e.orelse
            if t in ('%sisnotNone' % self.cutv, self.cutv):
                t, a, b = '%sisNone' % self.cutv, b, a
            if t == 'not' + self.cutv:
                t = '%sisNone' % self.cutv
            if t == '%sisNone' % self.cutv and self.seqval(a, env) in ('emptylist', 'emptyset', 'emptytuple'):
                return self.seqval(b, env)
            if t in ('isinstance(%s,(list,tuple))' % self.seeds, 'isinstance(%s,(tuple,list))' % self.seeds) and \
                    ast.unparse(b).replace(' ', '') in ('[%s]' % self.seeds, '(%s,)' % self.seeds):
                return self.seqval(a, env)
            raise Unsupported('prefix expression ' + ast.unparse(e)[:80])
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and len(e.values) == 2 and \
                self.seqval(e.values[0], env) in ('cut', 'cutarg') and \
                self.seqval(e.values[1], env) in ('emptylist', 'emptytuple', 'emptyset'):
            return self.seqval(e.values[0], env)
        if isinstance(e, ast.Tuple) and not e.elts:
            return 'emptytuple'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'reversed':
            return self.seqval(e.args[0], env)
        if isinstance(e, ast.List) and not e.elts:
            return 'emptylist'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            f = e.func.id
            if f == 'set':
                if not e.args:
                    return 'emptyset'
                if self.seqval(e.args[0], env) == 'cutarg':
                    return 'cut'
            if f in ('list', 'tuple') and len(e.args) == 1:
                return self.seqval(e.args[0], env)
            if f == 'list' and not e.args:
                return 'emptylist'
            if f == 'deque' and len(e.args) == 1:
                return self.seqval(e.args[0], env)[:3]
        if isinstance(e, ast.Call) and ast.unparse(e.func) in ('OrderedDict.fromkeys', 'dict.fromkeys') and \
                len(e.args) == 1:
            return self.seqval(e.args[0], env)      # same elements, duplicates removed
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            src = self.seqval(g.iter, env)
            if not (isinstance(src, tuple) and isinstance(g.target, ast.Name)):
                raise Unsupported('prefix comprehension')
            _, fl, mp = src[:3]
            v = g.target.id
            for c in g.ifs:
                if mp:
                    raise Unsupported('filter after mapping')
                u = ast.unparse(c)
                nm = [k for k, w in env.items() if w in ('cut', 'cutarg')]
                if not any(u in ('%s not in %s' % (v, k), 'not %s in %s' % (v, k)) for k in nm):
                    raise Unsupported('filter ' + u)
                fl = True
            if isinstance(e.elt, ast.Name) and e.elt.id == v:
                return ('seeds', fl, mp)
            if not mp and ast.unparse(e.elt) == v + '.op':
                return ('seeds', fl, True)
        raise Unsupported('prefix expression ' + ast.unparse(e)[:80])

    # ------------------------------------------------------------ loop body
    def block(self, stmts, states):
        for s in stmts:
            out = []
            for st in states:
                out += [st] if st.get('ended') else self.stmt(s, st)
            states = out
        return states

    def copy(self, st, **kw):
        n = dict(st, s=dict(st['s']), env=dict(st['env']), hyps=list(st['hyps']), decls=list(st['decls']))
        n.update(kw)
        return n

    def opval(self, e, st):
        """SMT term of an op-valued expression"""
        u = ast.unparse(e)
        if isinstance(e, ast.Name) and e.id in st['env']:
            v = st['env'][e.id]
            if v[0] == 'op':
                return v[1]
        if u == self.qv + self.top:
            return '(select %s %s)' % (st['s']['q'], st['s']['lo'])
        if isinstance(e, ast.Attribute) and e.attr == 'op' and isinstance(e.value, ast.Name) and \
                st['env'].get(e.value.id, (None,))[0] == 'ten':
            return '(topop %s)' % st['env'][e.value.id][1]
        raise Unsupported('expression ' + u)

    def cond(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return '(not %s)' % self.cond(e.operand, st)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(e.comparators[0], ast.Name):
            c = e.comparators[0].id
            if c in self.cutnames and isinstance(e.left, ast.Name) and st['env'].get(e.left.id, (0,))[0] == 'ten':
                r = '(cut %s)' % st['env'][e.left.id][1]
            elif c in (self.seenv, self.donev):
                r = '(select %s %s)' % (st['s']['seen' if c == self.seenv else 'done'], self.opval(e.left, st))
            else:
                raise Unsupported('condition ' + ast.unparse(e))
            return r if isinstance(e.ops[0], ast.In) else '(not %s)' % r
        raise Unsupported('condition ' + ast.unparse(e))

    def stmt(self, s, st):
        u = ast.unparse(s)
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return [st]
        if isinstance(s, ast.Continue):
            return [self.copy(st, ended=True)]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = self.copy(st)
            if u.endswith('= %s.%s()' % (self.qv, self.popm)):
                n['env'][s.targets[0].id] = ('op', self.opval(ast.parse(self.qv + self.top, mode='eval').body, st))
                self.pop(n)
            else:
                v = self.opval(s.value, st)
                c = self.fresh('o', 'Op', n['decls'])
                n['hyps'].append('(= %s %s)' % (c, v))
                n['env'][s.targets[0].id] = ('op', c)
                n.setdefault('op', c)
            return [n]
        if isinstance(s, ast.If):
            c = self.cond(s.test, st)
            a = self.copy(st, path=st['path'] + ' [%s]' % ast.unparse(s.test))
            a['hyps'].append(c)
            b = self.copy(st, path=st['path'] + ' [not %s]' % ast.unparse(s.test))
            b['hyps'].append('(not %s)' % c)
            return self.block(s.body, [a]) + self.block(s.orelse, [b])
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name):
            obj, meth, args = s.value.func.value.id, s.value.func.attr, s.value.args
            n = self.copy(st)
            S = n['s']
            if obj in (self.seenv, self.donev) and meth == 'add':
                k = 'seen' if obj == self.seenv else 'done'
                o = self.opval(args[0], st)
                S[k] = self.define(n, k, '(store %s %s true)' % (S[k], o))
                if k == 'seen':
                    # ghost: the queue position at which this op was discovered
                    S['p'] = self.define(n, 'p', '(store %s %s %s)' % (S['p'], o, S['lo']))
                return [n]
            if obj == self.retv and meth == 'append':
                o = self.opval(args[0], st)
                S['ret'] = self.define(n, 'ret', '(store %s %s %s)' % (S['ret'], S['n'], o))
                S['pos'] = self.define(n, 'pos', '(store %s %s %s)' % (S['pos'], o, S['n']))
                S['n'] = self.define(n, 'n', '(+ %s 1)' % S['n'])
                return [n]
            if obj == self.qv and meth == self.popm and not args:
                self.pop(n)
                return [n]
            if obj == self.qv and meth == self.extm:
                a = args[0]
                rev = False
                while isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and len(a.args) == 1 and \
                        a.func.id in ('reversed', 'list', 'tuple'):
                    rev ^= a.func.id == 'reversed'
                    a = a.args[0]
                if isinstance(a, (ast.ListComp, ast.GeneratorExp)) and len(a.generators) == 1 and \
                        isinstance(a.generators[0].target, ast.Name) and len(a.generators[0].ifs) <= 1:
                    g = a.generators[0]
                    kind, o, r2 = self.iterable(g.iter, st)
                    return self.push(st, None, g.target.id, g.ifs[0] if g.ifs else None, lambda v: a.elt,
                                     pre=(kind, o, r2 ^ rev))
                return self.push(st, args[0], 'x_', None, lambda v: ('x',))
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
            return self.forloop(s, st)
        raise Unsupported('statement ' + u[:80])

    def define(self, n, k, e):
        c = self.fresh(k, SORTS[k], n['decls'])
        n['hyps'].append('(= %s %s)' % (c, e))
        return c

    def pop(self, n):
        n['s']['lo'] = self.define(n, 'lo', '(+ %s 1)' % n['s']['lo'])

    def iterable(self, e, st):
        """-> (kind, op term, reversed)"""
        rev = False
        while True:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 1 and \
                    e.func.id in ('reversed', 'list', 'tuple'):
                rev ^= e.func.id == 'reversed'
                e = e.args[0]
            elif isinstance(e, ast.Subscript) and ast.unparse(e.slice) in ('::-1', ':'):
                rev ^= ast.unparse(e.slice) == '::-1'
                e = e.value
            else:
                break
        if isinstance(e, ast.Attribute) and e.attr in ('inputs', 'control_inputs'):
            return e.attr, self.opval(e.value, st), rev
        raise Unsupported('iterable ' + ast.unparse(e))

    def forloop(self, s, st):
        """for x in <inputs or control inputs of op>: [if x not in cut:] q.appendleft(x.op | x)"""
        kind, o, rev = self.iterable(s.iter, st)
        body = [b for b in s.body if not isinstance(b, ast.Pass)]
        guard = None
        if len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            guard = body[0].test
            body = [b for b in body[0].body if not isinstance(b, ast.Pass)]
        if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and \
                isinstance(body[0].body[0], ast.Continue):
            guard = ast.UnaryOp(op=ast.Not(), operand=body[0].test)
            body = body[1:]
        if not (len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and
                ast.unparse(body[0].value.func) == self.qv + '.' + self.pushm and len(body[0].value.args) == 1):
            raise Unsupported('for loop ' + ast.unparse(s)[:80])
        arg = body[0].value.args[0]
        return self.push(st, None, s.target.id, guard, lambda v: arg, pre=(kind, o, rev))

    def push(self, st, it, var, guard, argf, pre=None):
        """Loop rule for pushing the (guarded) elements of an op's inputs to the left end of the queue.
        The loop invariant is checked (initially trivial, preserved by one symbolic iteration) and then used."""
        kind, o, rev = pre or self.iterable(it, st)
        cnt, el = ('(nin %s)' % o, lambda i: '(inp %s %s)' % (o, i)) if kind == 'inputs' else (
            '(nctl %s)' % o, lambda i: '(ctl %s %s)' % (o, i))
        S1 = dict(st['s'])
        ghost = 'wi' if kind == 'inputs' else 'wc'
        # what the specification calls a dependency
        needed = (lambda i: '(not (cut (inp %s %s)))' % (o, i)) if kind == 'inputs' else (lambda i: 'true')
        target = (lambda i: '(topop (inp %s %s))' % (o, i)) if kind == 'inputs' else el

        def idx(step):
            return '(- (- %s 1) %s)' % (cnt, step) if rev else step

        def linv(q, lo, w, step):
            return ['(<= %s %s)' % (lo, S1['lo']),
                    '(forall ((i Int)) (! (=> (<= %s i) (= (select %s i) (select %s i))) :pattern ((select %s i))))' % (
                        S1['lo'], q, S1['q'], q),
                    '(forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (and (< (rank (select %s i)) (rank %s)) '
                    '(R (select %s i)))) :pattern ((select %s i))))' % (lo, S1['lo'], q, o, q, q),
                    '(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s) (%s) %s) (and (<= %s (select (select %s %s) i)) '
                    '(< (select (select %s %s) i) %s) (= (select %s (select (select %s %s) i)) %s))) :pattern (%s)))' % (
                        cnt, ('>= i (- %s %s)' % (cnt, step)) if rev else '< i %s' % step, needed('i'), lo, w, o, w, o,
                        S1['lo'], q, w, o, target('i'), el('i'))] + [
                    '(forall ((a Op)) (! (=> (distinct a %s) (= (select %s a) (select %s a))) :pattern ((select %s a))))' % (
                        o, w, S1[ghost], w)]
        # preservation by one iteration
        n = self.copy(st)
        q, lo, w = (self.fresh('q', 'OpSeq', n['decls']), self.fresh('lo', 'Int', n['decls']),
                    self.fresh(ghost, 'OpIdx', n['decls']))
        step = self.fresh('step', 'Int', n['decls'])
        n['hyps'] += linv(q, lo, w, step) + ['(<= 0 %s)' % step, '(< %s %s)' % (step, cnt), '(R %s)' % o]
        i = idx(step)
        e = self.copy(n)
        e['env'][var] = ('ten', el(i)) if kind == 'inputs' else ('op', el(i))
        arg = argf(var)
        v = e['env'][var][1] if arg == ('x',) else self.opval(arg, e)
        if arg == ('x',) and kind == 'inputs':
            raise Unsupported('tensors pushed to the queue')
        branches = []
        g = self.cond(guard, e) if guard is not None else 'true'
        a = self.copy(e)
        a['hyps'].append(g)
        q2 = self.fresh('q', 'OpSeq', a['decls'])
        lo2 = self.fresh('lo', 'Int', a['decls'])
        w2 = self.fresh(ghost, 'OpIdx', a['decls'])
        a['hyps'] += ['(= %s (- %s 1))' % (lo2, lo), '(= %s (store %s %s %s))' % (q2, q, lo2, v),
                      '(= %s (store %s %s (store (select %s %s) %s %s)))' % (w2, w, o, w, o, i, lo2)]
        branches.append((a, q2, lo2, w2))
        if guard is not None:
            b = self.copy(e)
            b['hyps'].append('(not %s)' % g)
            branches.append((b, q, lo, w))
        okR = self.check('pushed dependencies belong to a needed op%s' % st['path'], st['decls'], st['hyps'], '(R %s)' % o)
        for bs, q_, lo_, w_ in branches:
            for j, c in enumerate(linv(q_, lo_, w_, '(+ %s 1)' % step)):
                self.check('inner loop over %s%s preserves its invariant (%d)' % (kind, st['path'], j), bs['decls'],
                           bs['hyps'], c)
        for j, c in enumerate(linv(S1['q'], S1['lo'], S1[ghost], '0')):
            self.check('inner loop over %s%s: invariant initially (%d)' % (kind, st['path'], j), st['decls'], st['hyps'], c)
        # after the loop
        n = self.copy(st)
        S = n['s']
        S['q'], S['lo'], S[ghost] = (self.fresh('q', 'OpSeq', n['decls']), self.fresh('lo', 'Int', n['decls']),
                                     self.fresh(ghost, 'OpIdx', n['decls']))
        n['hyps'] += linv(S['q'], S['lo'], S[ghost], cnt)
        return [n]

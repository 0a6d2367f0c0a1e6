"""Deductive verification of a function that merges a sequence of dictionaries.

The source is read from /repo on every run, parsed, and executed symbolically at one arbitrary key k: a dictionary
is (does it have k, what is stored there).  The k-th argument has k or not (`ha j`) with some value (`va j`); the
specification is the fold  hs(0) = false, hs(j+1) = ha(j) or hs(j), vs(j+1) = if ha(j) then va(j) else vs(j).  A loop
over the argument sequence gets the invariant "every local dictionary in the loop equals the fold so far at k", a loop
over one dictionary is its pointwise effect at k (loop rule: each key is visited once).  Obligations go to z3;
anything outside the subset raises Unsupported and the caller falls back to the bounded enumeration."""
from __future__ import annotations
import ast
import inspect
import os
import subprocess
import tempfile
import textwrap
import time

Z3 = os.environ.get('ZSV_Z3', 'z3-new')


class Unsupported(Exception):
    pass


PRE = '''
(declare-sort V 0)
(declare-fun ha (Int) Bool)
(declare-fun va (Int) V)
(declare-fun hs (Int) Bool)
(declare-fun vs (Int) V)
(declare-const n Int)
(assert (>= n 0))
(assert (not (hs 0)))
(assert (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (and (= (hs (+ j 1)) (or (ha j) (hs j)))
   (= (vs (+ j 1)) (ite (ha j) (va j) (vs j))))) :pattern ((ha j)))))
'''


class D(object):
    """a dictionary at the key k; arg: the index term when it is one of the arguments"""

    def __init__(self, has, val, arg=None):
        self.has, self.val, self.arg = has, val, arg


class VC(object):
    def __init__(self, fn):
        self.fn = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
        a = self.fn.args
        if a.vararg is None or a.args or a.kwarg or a.kwonlyargs:
            raise Unsupported('signature')
        self.seq = a.vararg.arg
        self.obls = []
        self.decls = []
        self.k = 0

    def fresh(self, sort):
        self.k += 1
        nm = 'c%d' % self.k
        self.decls.append('(declare-const %s %s)' % (nm, sort))
        return nm

    def check(self, name, hyps, goal):
        txt = PRE + '\n'.join(self.decls) + '\n' + '\n'.join('(assert %s)' % h for h in hyps) + \
            '\n(assert (not %s))\n(check-sat)\n' % goal
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run([Z3, '-T:10', f.name], capture_output=True, text=True)
            out = r.stdout.strip().split('\n')[0]
        finally:
            os.unlink(f.name)
        self.obls.append((name, out, time.time() - t0))

    def run(self):
        self.returned = False
        self.block(self.fn.body, {}, [])
        if not self.returned:
            raise Unsupported('no return')
        return self.obls

    # ---------------------------------------------------------------- dictionaries
    def upd(self, a, b):
        """{**a, **b} at k"""
        return D('(or %s %s)' % (b.has, a.has), '(ite %s %s %s)' % (b.has, b.val, a.val))

    def dic(self, e, env):
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if isinstance(v, D):
                return v
        if isinstance(e, ast.Dict):
            if any(k is not None for k in e.keys):
                raise Unsupported('dict display')
            r = D('false', self.fresh('V'))
            for v in e.values:
                r = self.upd(r, self.dic(v, env))
            return r
        if isinstance(e, ast.Call) and not e.keywords:
            u = ast.unparse(e.func)
            if u in ('dict', 'OrderedDict') and not e.args:
                return D('false', self.fresh('V'))
            if u in ('dict', 'copy.copy') and len(e.args) == 1:
                d = self.dic(e.args[0], env)
                return D(d.has, d.val)
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
                d = self.dic(e.func.value, env)
                return D(d.has, d.val)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.upd(self.dic(e.left, env), self.dic(e.right, env))
        raise Unsupported('expression ' + ast.unparse(e)[:80])

    def own(self, d, what, hyps):
        """the frame: a dictionary that is modified is not an argument"""
        self.check('%s does not modify an argument' % what, hyps, 'true' if d.arg is None else 'false')

    def block(self, stmts, env, hyps):
        for s in stmts:
            if self.returned:
                raise Unsupported('statements after return')
            self.stmt(s, env, hyps)

    def stmt(self, s, env, hyps):
        u = ast.unparse(s)[:80]
        if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            return
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = self.dic(s.value, env)
            return
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.BitOr) and isinstance(s.target, ast.Name):
            return self.update(s.target.id, self.dic(s.value, env), env, hyps, u)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'update' and isinstance(s.value.func.value, ast.Name) and \
                len(s.value.args) == 1 and not s.value.keywords:
            a = s.value.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'items' and not a.args:
                a = a.func.value
            return self.update(s.value.func.value.id, self.dic(a, env), env, hyps, u)
        if isinstance(s, ast.For) and not s.orelse:
            if isinstance(s.iter, ast.Name) and s.iter.id == self.seq and isinstance(s.target, ast.Name):
                return self.outer(s, env, hyps)
            return self.inner(s, env, hyps)
        if isinstance(s, ast.Return):
            d = self.dic(s.value, env)
            self.check('postcondition: the result has exactly the keys of the arguments', hyps, '(= %s (hs n))' % d.has)
            self.check('postcondition: the last argument that has a key decides its value', hyps,
                       '(=> (hs n) (= %s (vs n)))' % d.val)
            self.check('postcondition: the result is a new dictionary', hyps, 'true' if d.arg is None else 'false')
            self.returned = True
            return
        raise Unsupported('statement ' + u)

    def update(self, name, d, env, hyps, what):
        x = env.get(name)
        if not isinstance(x, D):
            raise Unsupported(what)
        self.own(x, what, hyps)
        env[name] = self.upd(x, d)

    def inner(self, s, env, hyps):
        """for k, v in d.items(): x[k] = v     for k in d: x[k] = d[k]"""
        it = s.iter
        body = [b for b in s.body if not isinstance(b, ast.Pass)]
        items = False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys') and \
                not it.args:
            items = it.func.attr == 'items'
            it = it.func.value
        elif isinstance(it, ast.Call) and ast.unparse(it.func) in ('six.iteritems', 'six.iterkeys') and len(it.args) == 1:
            items = it.func.attr == 'iteritems'
            it = it.args[0]
        d = self.dic(it, env)
        if not (len(body) == 1 and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and
                isinstance(body[0].targets[0], ast.Subscript) and isinstance(body[0].targets[0].value, ast.Name)):
            raise Unsupported('loop over a dictionary')
        t, v = body[0].targets[0], ast.unparse(body[0].value)
        if items:
            if not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2):
                raise Unsupported('loop target')
            k, want = ast.unparse(s.target.elts[0]), ast.unparse(s.target.elts[1])
        else:
            k = ast.unparse(s.target)
            want = '%s[%s]' % (ast.unparse(it), k)
        if ast.unparse(t.slice) != k or v != want or t.value.id == ast.unparse(it):
            raise Unsupported('loop over a dictionary')
        self.update(t.value.id, d, env, hyps, ast.unparse(s)[:80])

    def outer(self, s, env, hyps):
        mod = sorted({n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(env.get(n.id), D)})
        if len(mod) != 1:
            raise Unsupported('loop over the arguments uses %s' % mod)
        x = mod[0]
        inv = lambda d, j: [('has', '(= %s (hs %s))' % (d.has, j)), ('value', '(=> (hs %s) (= %s (vs %s)))' % (j, d.val, j))]
        for nm, c in inv(env[x], '0'):
            self.check('loop invariant initially: %s' % nm, hyps, c)
        j = self.fresh('Int')
        cur = D(self.fresh('Bool'), self.fresh('V'), env[x].arg)
        h = list(hyps) + ['(<= 0 %s)' % j, '(< %s n)' % j] + [c for _, c in inv(cur, j)]
        e2 = dict(env)
        e2[x] = cur
        e2[s.target.id] = D('(ha %s)' % j, '(va %s)' % j, j)
        self.block(s.body, e2, h)
        if self.returned:
            raise Unsupported('return in the loop')
        for nm, c in inv(e2[x], '(+ %s 1)' % j):
            self.check('loop invariant preserved: %s' % nm, h, c)
        self.check('loop invariant preserved: still a dictionary of its own', h,
                   'true' if e2[x].arg == env[x].arg else 'false')
        env[x] = D(self.fresh('Bool'), self.fresh('V'), env[x].arg)
        hyps += [c for _, c in inv(env[x], 'n')]

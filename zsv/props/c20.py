"""C20: get_backward_ops lists each needed op once, inputs first."""
from __future__ import annotations
import itertools
import random
import time
from ..env import tf
from ..case import Obl
from .. import pyvc
from zhusuan.framework import utils as FU

FUNCTIONS = ['zhusuan.framework.utils:get_backward_ops']
ASSUMPTIONS = ['dataflow graphs are acyclic and finite (while-loop back edges excluded)',
               'a dependency through a tensor treated as an input is not a dependency',
               'Python list/set/deque operations have their documented meaning (contracts in zsv/pyvc.py)']


class STen(object):
    __slots__ = ('op', 'name', 'value_index', 'graph')

    def __init__(self, op, i):
        self.op, self.value_index = op, i
        self.name = '%s:%d' % (op.name, i)
        self.graph = None


class SOp(object):
    def __init__(self, i):
        self.name = 'op%d' % i
        self.i = i
        self.type = 'NoOp'
        self.inputs, self.control_inputs = [], []
        self.outputs = []
        self.graph = None

    def __repr__(self):
        return self.name


def build(n, edges, nout=2):
    """edges: dict (i, j) i>j -> subset of 'd' (output 0), 'e' (output 1), 'c'"""
    ops = []
    for i in range(n):
        o = SOp(i)
        o.outputs = [STen(o, k) for k in range(nout)]
        for j in range(i):
            k = edges.get((i, j), '')
            if 'd' in k:
                o.inputs.append(ops[j].outputs[0])
            if 'e' in k:
                o.inputs.append(ops[j].outputs[1])
            if 'c' in k:
                o.control_inputs.append(ops[j])
        o.op = o
        ops.append(o)
    return ops


def need(seeds, cut):
    out = set()
    st = [t.op for t in seeds if not any(t is c for c in cut)]
    while st:
        o = st.pop()
        if o in out:
            continue
        out.add(o)
        for t in o.inputs:
            if not any(t is c for c in cut):
                st.append(t.op)
        st += list(o.control_inputs)
    return out


def problem(got, seeds, cut):
    w = need(seeds, cut)
    if not isinstance(got, list):
        return 'returns %s' % type(got).__name__
    if len(set(got)) != len(got):
        return 'an op is listed twice: %s' % got
    if set(got) - w:
        return 'lists ops that are not needed: %s' % sorted(map(repr, set(got) - w))
    if w - set(got):
        return 'misses needed ops: %s' % sorted(map(repr, w - set(got)))
    pos = {o: i for i, o in enumerate(got)}
    for o in got:
        for d in [t.op for t in o.inputs if not any(t is c for c in cut)] + list(o.control_inputs):
            if pos[d] > pos[o]:
                return '%r is listed before %r it depends on: %s' % (o, d, got)
    return None


def ob(label, name, n, bad, cex, backend='exhaustive', status=None):
    o = Obl('%s :: %s' % (label, name))
    o.kind = 'structural'
    o.regions = n
    o.backend = backend
    o.status = 'refuted' if bad else (status or 'bounded')
    o.numeric = n
    o.detail = bad or 'all graphs of the stated size'
    o.cex = cex
    return o


def call(f, seeds, cut, style):
    if style == 0:
        return f(list(seeds), list(cut)) if cut else f(list(seeds))
    if style == 1:
        return f(tuple(seeds), treat_as_inputs=tuple(cut))
    return f(seeds[0] if len(seeds) == 1 else list(seeds), treat_as_inputs=set(cut) if cut else None)


def run_enum(label, seed, tier, n, part, parts, kinds, sample):
    """every graph on n ops; every cut set and seed list (or a sample of them)"""
    rnd = random.Random(seed * 1000 + part)
    pairs = [(i, j) for i in range(n) for j in range(i)]
    bad, cex, cnt = None, None, 0
    f = FU.get_backward_ops
    tens = [(i, k) for i in range(n) for k in (0, 1)]
    seedlists = [list(s) for r in (1, 2) for s in itertools.permutations(tens, r)] + [[]]
    cuts = [c for r in range(0, 3) for c in itertools.combinations(tens, r)]
    combos = list(itertools.product(seedlists, cuts))
    t0 = time.time()
    for gi, g in enumerate(itertools.product(kinds, repeat=len(pairs))):
        if gi % parts != part:
            continue
        ops = build(n, dict(zip(pairs, g)))
        use = combos if sample is None else [rnd.choice(combos) for _ in range(sample)]
        for sl, cl in use:
            seeds = [ops[i].outputs[k] for i, k in sl]
            cut = [ops[i].outputs[k] for i, k in cl]
            try:
                p = problem(call(f, seeds, cut, cnt % 3 if seeds else 0), seeds, cut)
            except AttributeError as e:
                o = ob(label, 'all graphs on %d ops' % n, 0, None, None, status='unsupported')
                o.detail = 'duck-typed graph not accepted: %s' % e
                o.numeric = 0
                return [o]
            except Exception as e:
                p = '%s: %s' % (type(e).__name__, e)
            cnt += 1
            if p:
                bad = p
                cex = dict(kind='graph', edges={'%d<-%d' % k: v for k, v in zip(pairs, g) if v}, seeds=sl, cut=cl,
                           legend='d/e: data edge from output 0/1, c: control edge', problem=p)
                break
        if bad:
            break
    return [ob(label, 'all graphs on %d ops, edge kinds %s%s' % (n, '/'.join(k or 'none' for k in kinds),
                                                                '' if sample is None else ', sampled seeds and cuts'),
               cnt, bad, cex)]


def run_real(label, seed, tier):
    """real TensorFlow graphs with data and control edges"""
    rnd = random.Random(seed)
    bad, cex, cnt = None, None, 0
    for _ in range(150 if tier == 'quick' else 1500):
        with tf.Graph().as_default():
            n = rnd.randint(2, 9)
            ts, ops = [], []
            desc = []
            for i in range(n):
                ins = [t for t in ts if rnd.random() < 0.35]
                ctl = [o for o in ops if rnd.random() < 0.15]
                with tf.control_dependencies(ctl):
                    if not ins:
                        t = [tf.placeholder(tf.float32, [4], name='o%d' % i)]
                    elif rnd.random() < 0.3:
                        t = list(tf.split(tf.add_n(ins + ins[:1]), 2)) if False else list(tf.nn.moments(ins[0], [0], keepdims=True))
                        t = [x + tf.zeros([4]) for x in t]
                    else:
                        t = [tf.add_n(ins + ([ins[0]] if rnd.random() < 0.3 else []))]
                ts += t
                ops += [x.op for x in t]
            seeds = rnd.sample(ts, rnd.randint(1, min(3, len(ts))))
            if rnd.random() < 0.3:
                seeds = seeds + seeds[:1]
            cut = rnd.sample(ts, rnd.randint(0, min(3, len(ts))))
            try:
                got = call(FU.get_backward_ops, seeds, cut, rnd.randint(0, 2))
                p = problem(got, seeds, cut)
            except Exception as e:
                p = '%s: %s' % (type(e).__name__, e)
            cnt += 1
            if p:
                bad = p
                cex = dict(kind='graph', seeds=[t.name for t in seeds], cut=[t.name for t in cut],
                           graph=str(tf.get_default_graph().as_graph_def())[:1500], problem=p[:500])
                break
    return [ob(label, 'random TensorFlow graphs', cnt, bad, cex, backend='replay')]


def run_proof(label, seed, tier):
    v = pyvc.VC(FU.get_backward_ops)
    out = []
    why = None
    try:
        v.run()
    except pyvc.Unsupported as e:
        why = 'source outside the verified subset: %s' % e
    except Exception as e:
        why = 'engine: %r' % e
    n = sum(1 for _, r, _ in v.obls if r == 'unsat')
    allok = why is None and n == len(v.obls)
    from .. import smt
    for nm, r, t in v.obls:
        o = Obl('%s :: %s' % (label, nm))
        o.time_s = t
        smt.STATS['queries'] += 1
        smt.STATS['time_s'] += t
        smt.STATS['goals'] += 1
        o.backend = 'z3'
        o.gv = 1
        if r == 'unsat':
            o.status = 'proved'
            smt.STATS['discharged'] += 1
        else:
            # the bounded enumeration decides; it reports a failing graph if there is a small one
            o.status, o.numeric, o.detail = 'bounded', 1, 'z3: %s (enumeration of small graphs stands in)' % r
        out.append(o)
    if why:
        o = Obl('%s :: source is within the verified subset' % label)
        o.status, o.numeric, o.detail = 'bounded', 1, why + ' (enumeration of small graphs stands in)'
        out.append(o)
    return out


def cases(tier, seed):
    K8 = ['', 'd', 'e', 'c', 'de', 'dc', 'ec', 'dec']
    out = [('deductive proof for all graphs', run_proof, {}), ('TensorFlow graphs', run_real, {})]
    out += [('enumeration n=%d' % n, run_enum, dict(n=n, part=0, parts=1, kinds=K8, sample=None)) for n in (1, 2)]
    out += [('enumeration n=3 part %d' % p, run_enum, dict(n=3, part=p, parts=4, kinds=K8, sample=None))
            for p in range(4)]
    out += [('enumeration n=4 part %d' % p, run_enum, dict(n=4, part=p, parts=8, kinds=['', 'd', 'c', 'de'],
                                                          sample=40 if tier == 'quick' else 600)) for p in range(8)]
    if tier == 'thorough':
        out += [('enumeration n=5 part %d' % p, run_enum, dict(n=5, part=p, parts=16, kinds=['', 'd', 'c'], sample=60))
                for p in range(16)]
    return out

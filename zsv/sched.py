"""Replay of a race on the real graph: the step is built again twice and run
under two schedules that differ in one added control edge."""
from __future__ import annotations
import numpy as np
from .env import tf
from .case import js
from .step import describe


def _while(op):
    out = []
    c = op._get_control_flow_context()
    while c is not None:
        if c.IsWhileContext():
            out.append(c)
        c = c.outer_context
    return out[::-1]


def _edge(a, b):
    """b runs after a (a whole loop counts as one action)"""
    wa, wb = _while(a), _while(b)
    k = 0
    while k < len(wa) and k < len(wb) and wa[k] is wb[k]:
        k += 1
    srcs, dsts = [a], [b]
    if len(wa) > k:
        srcs = [t.op for t in wa[k].loop_exits]
    if len(wb) > k:
        dsts = [t.op for t in wb[k].loop_enters]
    for d in dsts:
        d._add_control_inputs(srcs)


def _run(build, edge, trial):
    c = build()
    if edge:
        with c.graph.as_default():
            a, b = [c.graph.get_operation_by_name(n) for n in edge]
            _edge(a, b)
    r = None
    for k in range(trial + 1):
        r = c.run_once(k)
    dims, vals, sv, noise, fd = r
    got, post = c.execute(c.session(), sv, fd)
    res = {}
    for f, g in zip(c._fetches, got):
        if g is not None:
            res['fetch ' + f.name] = np.asarray(g)
    for n, g in post.items():
        res['variable ' + n] = np.asarray(g)
    c.close()
    return res, dict(inputs=js(vals), state=js(sv), noise=js(noise))


def demonstrate(build, race, trials=3):
    """None, or a description of two runs of one step that end differently."""
    v, a, b, val, kind = race
    notes = []
    for trial in range(trials):
        outs = []
        for edge in (None, (a.name, b.name), (b.name, a.name)):
            try:
                r, inp = _run(build, edge, trial)
                outs.append((edge, r))
            except Exception as e:
                notes.append('%s: %s' % (edge, str(e)[:150]))
        for (e1, r1), (e2, r2) in [(x, y) for i, x in enumerate(outs) for y in outs[i + 1:]]:
            for k in sorted(r1):
                if r1[k].shape != r2[k].shape or not np.allclose(r1[k], r2[k], rtol=1e-4, atol=1e-6, equal_nan=True):
                    return dict(kind='schedule', race=describe(race), differs=k,
                                schedule_1='as scheduled' if e1 is None else '%s runs before %s' % e1, value_1=r1[k].tolist(),
                                schedule_2='as scheduled' if e2 is None else '%s runs before %s' % e2, value_2=r2[k].tolist(), **inp), notes
    return None, notes

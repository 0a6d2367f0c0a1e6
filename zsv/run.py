"""Entry point of every check: runs the cases of one property against /repo's
working tree, discharges the obligations, writes evidence and the verdict."""
from __future__ import annotations
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)


def _run_case(job):
    mod, i, tier, seed = job
    m = importlib.import_module(mod)
    label, fn, kw = _CASES[i]
    from zsv import smt, graph
    from zsv import norm
    q0 = dict(smt.STATS)
    t0 = time.time()
    # proof budget of one configuration; what is left undecided is replayed on the real code only
    budget = (120 if tier == 'quick' else 600) if t0 - _START < (350 if tier == 'quick' else 5000) else 5
    norm.LIMIT[1] = t0 + budget
    obls = []
    err = None
    graph.USED_CONTRACTS.clear()
    try:
        obls = fn(label=label, seed=seed, tier=tier, **kw)
        obls = [o.as_dict() if hasattr(o, 'as_dict') else o for o in obls]
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        from zsv.env import REPO
        root = os.path.realpath(REPO) + os.sep
        in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(root)]
        err = traceback.format_exc(limit=-8)
        from zsv.case import Broken
        in_repo = in_repo or isinstance(e, Broken)
        st = 'refuted' if in_repo else 'error'
        obls = [dict(name='%s :: runs' % label, status=st, detail=err[-1500:], kind='structural', regions=0,
                     used={}, backend='', time_s=0.0, numeric=0, gv=0,
                     cex=dict(kind='exception', configuration=label, error='%s: %s' % (type(e).__name__, str(e)[:500]),
                              traceback=err[-3000:]) if in_repo else None)]
    d = {k: smt.STATS[k] - q0[k] for k in q0}
    return i, obls, d, time.time() - t0, dict(graph.USED_CONTRACTS)


_CASES = []
_START = time.time()


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                out.append(json.loads(l))
    return out


def is_known(prop, o):
    return any(k['property'] == prop and k['match'] in o['name'] and (not k.get('detail') or k['detail'] in (o['detail'] or ''))
               for k in load_known())


def main(argv=None):
    global _CASES
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('ZSV_JOBS', '8')))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    modname = 'zsv.props.' + prop.lower()
    if not a.v:
        _silence()
    try:
        mod = importlib.import_module(modname)
    except Exception:
        # the code under test may fail at import
        err = traceback.format_exc()
        from zsv.env import REPO
        if os.path.realpath(REPO) in err and 'zsv/props' in err and _repo_import_fails():
            obls = [dict(name='import zhusuan', status='refuted', detail=err[-1500:], cex=dict(
                kind='exception', error=err[-2000:]), kind='structural', regions=0, used={}, backend='',
                time_s=0, numeric=0, gv=0)]
            return finish(prop, tier, a.seed, None, obls, {}, t0, {}, a)
        print('ERROR: check could not load\n' + err[-2000:])
        return 2
    _CASES = list(mod.cases(tier, a.seed))
    if a.only:
        _CASES = [c for c in _CASES if a.only in c[0]]
    jobs = [(modname, i, tier, a.seed) for i in range(len(_CASES))]
    stats = {}
    contracts = {}
    res = {}
    if a.jobs <= 1 or len(jobs) <= 1:
        it = iter(map(_run_case, jobs))
        pool = None
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(a.jobs, len(jobs)))
        it = pool.imap_unordered(_run_case, jobs, chunksize=1)
    wall = t0 + (780 if tier == 'quick' else 6 * 3600)
    while True:
        try:
            r = next(it) if pool is None else it.next(timeout=max(1., wall - time.time()))
        except StopIteration:
            break
        except mp.TimeoutError:
            for i in range(len(jobs)):
                if i not in res:
                    res[i] = [dict(name='%s :: runs' % _CASES[i][0], status='error', detail='out of time', kind='structural',
                                   regions=0, used={}, backend='', time_s=0.0, numeric=0, gv=0, cex=None)]
            pool.terminate()
            break
        i, obls, d, dtm, used = r
        res[i] = obls
        if pool is not None and tier == 'quick' and any(o['status'] == 'refuted' and not is_known(prop, o) for o in obls):
            # the verdict is decided: the rest of the run only adds detail to the report
            wall = min(wall, time.time() + 60)
        for k, v in d.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in used.items():
            contracts[k] = contracts.get(k, 0) + v
        if a.v:
            if dtm > 5:
                print('SLOW %.1fs %s' % (dtm, _CASES[i][0]))
            for o in obls:
                print('%-10s %s %s' % (o['status'], o['name'], o['detail'][:1200] if o['status'] != 'proved' else ''))
    if pool:
        pool.close()
        pool.join()
    obls = [o for i in sorted(res) for o in res[i]]
    return finish(prop, tier, a.seed, mod, obls, stats, t0, contracts, a)


def _repo_import_fails():
    try:
        import zhusuan  # noqa
        return False
    except Exception:
        return True


def finish(prop, tier, seed, mod, obls, stats, t0, contracts, a):
    known = [k for k in load_known() if k['property'] == prop]
    for o in obls:
        if o['status'] in ('refuted', 'differs'):
            for k in known:
                if k['match'] in o['name'] and (not k.get('detail') or k['detail'] in (o['detail'] or '')):
                    o['status'] = 'known'
                    o['known'] = k['what']
    by = {}
    for o in obls:
        by.setdefault(o['status'], []).append(o)
    proved = by.get('proved', [])
    bounded = [o for o in by.get('unsupported', []) if o['numeric'] > 0] + by.get('bounded', [])
    undecided = [o for o in by.get('unsupported', []) if o['numeric'] == 0]
    errors = by.get('error', [])
    refuted, differs = by.get('refuted', []), by.get('differs', [])
    used = {}
    for o in obls:
        for k, v in (o.get('used') or {}).items():
            used[k] = used.get(k, 0) + v
    evd = os.environ.get('ZSV_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) if mod else []
    from zsv import trusted
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=len(obls), discharged=len(proved),
                  checker_cmd='bin/check %s --tier %s' % (prop, tier),
                  trusted_base=trusted.BASE,
                  configurations=len(_CASES),
                  functions_under_contract=getattr(mod, 'FUNCTIONS', []) if mod else [],
                  z3_goals=stats.get('goals', 0), z3_goals_unsat=stats.get('discharged', 0),
                  solver_queries=stats.get('queries', 0), solver_time_s=round(stats.get('time_s', 0.0), 2),
                  backend='zsv normal-form engine, regions confirmed by z3 (%s)' % os.environ.get('ZSV_Z3', 'z3-new'),
                  kinds={k: sum(1 for o in proved if o.get('kind', 'vc') == k)
                         for k in sorted({o.get('kind', 'vc') for o in proved})},
                  lemma_uses=used, operator_contracts_used=contracts,
                  runtime_replays=sum(o['numeric'] for o in obls),
                  bounded_stand_ins=[o['name'] for o in bounded][:200],
                  bounded_count=len(bounded),
                  undecided=[dict(name=o['name'], why=o['detail'][:300]) for o in undecided + errors][:50],
                  refuted=len(refuted), not_discharged=len(differs),
                  sample=[o['name'] for o in proved[:5]]),
              assumptions=assumptions + trusted.COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(refuted) + len(differs))
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for o in by.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (prop, o['known']))
    print('%s: %d configurations, %d obligations, %d discharged (%d z3 goals), %d bounded, %d undecided, '
          '%d refuted, %d not discharged, %.1fs' % (
              prop, len(_CASES), len(obls), len(proved), stats.get('goals', 0), len(bounded),
              len(undecided) + len(errors), len(refuted), len(differs), time.time() - t0))
    for o in (bounded + undecided)[:5]:
        print('  bounded/undecided: %s -- %s' % (o['name'], (o['detail'] or '')[:160].replace('\n', ' ')))
    for o in errors[:5]:
        print('  UNDECIDED (harness): %s -- %s' % (o['name'], o['detail'][-300:].replace('\n', ' ')))
    if not obls or not (proved or bounded or refuted or differs):
        print('ERROR: no obligation was decided')
        return 2
    if not proved and bounded and not (refuted or differs):
        print('NOTE: no obligation was discharged by the verifier on this tree; only bounded stand-ins were decided')
    bad = refuted or differs
    if bad:
        rp = os.path.join(evd, 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + '.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=[
                dict(obligation=o['name'], verifier_output=o['detail'], counterexample=o['cex'])
                for o in (refuted + differs)[:40]],
                how_to_replay='bin/check %s --only "%s" -v' % (prop, bad[0]['name'].split(' :: ')[0])),
                f, indent=1, default=str)
        for o in bad[:5]:
            print('  failed obligation: %s\n    %s' % (o['name'], (o['detail'] or '')[:400]))
            if o['cex']:
                print('    counterexample: %s' % json.dumps(o['cex'], default=str)[:500])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if refuted else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

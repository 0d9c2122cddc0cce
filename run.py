#!/usr/bin/env python3-vt
"""Decide one property on the current tree of /repo.

    python3-vt -B run.py --property C01 [--tier quick|thorough]

1. Every verification unit of the property is discharged by the deductive verifier in engine/ (z3, cvc5).
2. Concurrently a refuter executes the real code on CPython against an independent oracle (cross-check of the
   verifier's Python semantics; source of concrete counterexamples when an obligation fails).

exit 0: every obligation discharged (units beyond the verifier's reach are listed as bounded in the evidence)
exit 1: VIOLATION line; the replay file names the failed obligation or contains the failing input
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

SPECS = {
    'C01': ['evaluation'], 'C02': ['evaluation'], 'C03': ['evaluation'], 'C04': ['evaluation'], 'C05': ['evaluation'],
    'C06': ['parser'], 'C07': ['lexer'], 'C08': ['lexer', 'parser', 'errors'], 'C09': ['typecheck'], 'C10': ['astcodec'],
    'C11': ['certs'], 'C12': ['certs'], 'C13': ['certs'], 'C18': ['certs'], 'C14': ['pauth'], 'C15': ['aauth'],
    'C16': ['symbols'], 'C17': ['config'],
}
BUDGET = {'quick': 420, 'thorough': 3000}
REFUTE = {'quick': 25, 'thorough': 300}
REFUTE_AFTER_FAILURE = {'quick': 150, 'thorough': 600}

TRUSTED = [
    'the verifier engine/ itself (symbolic execution of the Python AST of the files in /repo, cross-checked on every '
    'run by executing the same code on CPython)',
    'z3 and cvc5',
    'models of CPython builtins and library calls in engine/models.py, engine/ropes.py, engine/texts.py',
    'Python integers and floats treated as mathematical integers and reals; NaN and infinities excluded',
    'memory and recursion depth unbounded',
]


def load_units(prop):
    from specs import common
    errs = []
    for m in SPECS[prop]:
        importlib.import_module('specs.' + m)
    return common.UNITS.get(prop, [])


def run_unit(job):
    prop, idx, tier, budget = job
    from specs import common
    u = common.UNITS[prop][idx]
    t = time.time()
    out = dict(name=u['name'], obligations=0, discharged=0, backends={}, failed=None, unsupported=None, covers={},
               functions=[], paths=0, solver_s=0.0, assumptions=[])
    try:
        h = common.H(u['name'], budget=min(budget, u['budget']))
        h.tier = tier
        try:
            u['fn'](h)
        except common.Signal as e:
            if h.failed is None:
                h.unsupported = h.unsupported or '%s: %s' % (type(e).__name__, e)
        r = h.report
        out['obligations'] = len(r.obligations)
        for o in r.obligations:
            if o.status == 'discharged':
                out['discharged'] += 1
                out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
        if h.failed is not None:
            o = h.failed
            out['failed'] = dict(obligation=o.name, status=o.status, detail=o.detail, model=o.model, path=o.path,
                                 backend=o.backend)
        out['unsupported'] = h.unsupported
        if h.unsupported:
            out['traceback'] = getattr(h, 'tb', '')[-2500:]
        out['covers'] = r.covers
        out['functions'] = sorted(r.functions)
        out['paths'] = h.ctx.paths
        out['solver_s'] = h.ctx.solver_time
        out['assumptions'] = r.assumptions
    except BaseException as e:           # engine crash: undecided, never a verdict
        try:
            text = str(e)[:300]
        except BaseException:
            text = '(no text)'
        out['unsupported'] = 'engine: %s: %s' % (type(e).__name__, text)
        try:
            out['traceback'] = traceback.format_exc()[-2500:]
        except BaseException:
            out['traceback'] = ''.join(traceback.format_tb(e.__traceback__))[-2500:]
    out['wall'] = time.time() - t
    return out


def refute_job(prop, tier, seed, seconds, hints, q, worker):
    try:
        sys.setrecursionlimit(20000)
        m = importlib.import_module('refute.' + REFUTERS[prop])
        res = m.search(prop, tier, seed, seconds, hints, worker)
        q.put(('refuter', res))
    except BaseException:
        q.put(('refuter', dict(error=traceback.format_exc()[-3000:], evaluations=0)))


REFUTERS = {
    'C01': 'language', 'C02': 'language', 'C03': 'language', 'C04': 'language', 'C05': 'language', 'C06': 'language',
    'C07': 'language', 'C08': 'language', 'C09': 'language', 'C10': 'language', 'C16': 'language', 'C17': 'config',
    'C11': 'certs', 'C12': 'certs', 'C13': 'certs', 'C18': 'certs', 'C14': 'services', 'C15': 'services',
}


def refute(prop, tier, seed, seconds, hints, workers=1):
    """Run the refuter in separate processes; returns merged result."""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=refute_job, args=(prop, tier, seed, seconds, hints, q, w)) for w in range(workers)]
    for p in ps:
        p.start()
    return q, ps


def collect(q, ps, limit):
    res = []
    end = time.time() + limit
    need = len(ps)
    import queue as qm
    while len(res) < need and time.time() < end:
        try:
            res.append(q.get(timeout=0.5)[1])
            if res[-1].get('failure'):
                break
        except qm.Empty:
            if not any(p.is_alive() for p in ps):
                try:
                    res.append(q.get(timeout=1)[1])
                except qm.Empty:
                    break
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join()
    return res


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-refute', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.property
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    replay = os.path.join(evdir, 'replay', prop + '.txt')
    load_error = None
    units = []
    try:
        units = load_units(prop)
    except BaseException:
        load_error = traceback.format_exc()
    sel = [i for i, u in enumerate(units) if (tier == 'thorough' or u['tier'] == 'quick') and
           (a.unit is None or a.unit in u['name'])]
    rq = rp = None
    if not a.no_refute:
        rq, rp = refute(prop, tier, seed, REFUTE[tier], {}, 1)
    results = []
    failed = None
    jobs = [(prop, i, tier, BUDGET[tier]) for i in sel]
    if jobs:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=8) as pool:
            it = pool.imap_unordered(run_unit, jobs)
            end = t0 + BUDGET[tier] + 60
            while len(results) < len(jobs):
                try:
                    r = it.next(timeout=max(1, end - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    results.append(dict(name='(rest)', obligations=0, discharged=0, backends={}, failed=None,
                                        unsupported='time budget', covers={}, functions=[], paths=0, solver_s=0.0,
                                        wall=0.0, assumptions=[]))
                    break
                results.append(r)
                if a.verbose:
                    print('%-50s %5d/%-5d %4d paths %6.1fs %s %s' % (r['name'][:50], r['discharged'], r['obligations'],
                          r['paths'], r['wall'], 'FAILED ' + r['failed']['obligation'] + ' ' + str(r['failed']['detail'])[:200] if r['failed'] else '',
                          'UNSUPPORTED ' + r['unsupported'] if r['unsupported'] else ''), flush=True)
                    if r['unsupported'] and a.unit:
                        print(r.get('traceback'))
                if r['failed'] and failed is None:
                    failed = r
                    if not a.verbose:
                        pool.terminate()
                        break
    ref = collect(rq, rp, REFUTE[tier] + 60) if rq is not None else []
    failure = next((r['failure'] for r in ref if r.get('failure')), None)
    unsup = [r for r in results if r['unsupported']]
    if failure is None and (failed or unsup or load_error) and not a.no_refute:
        # search harder for a concrete input, aimed at what could not be proved
        hints = dict(failed=failed, unsupported=[u['name'] for u in unsup])
        q, ps = refute(prop, tier, seed + 1000, REFUTE_AFTER_FAILURE[tier], hints, 7)
        more = collect(q, ps, REFUTE_AFTER_FAILURE[tier] + 60)
        ref += more
        failure = next((r['failure'] for r in more if r.get('failure')), None)
    ob = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    backends = {}
    for r in results:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    covers = {}
    for r in results:
        for k, v in r['covers'].items():
            covers[k] = covers.get(k, False) or v
    vac = [k for k, v in covers.items() if not v]
    funcs = sorted({f for r in results for f in r['functions']})
    errors = [r['error'] for r in ref if r.get('error')]
    evals = sum(r.get('evaluations', 0) for r in ref)
    status = 0
    kf = known_findings(prop)
    lines = []
    if failure is not None:
        match = next((k for k in kf if k.get('signature') == failure.get('signature')), None)
        if match is None:
            with open(replay, 'w') as f:
                f.write('property %s: counterexample on the real code (CPython)\n\n' % prop)
                for k, v in failure.items():
                    f.write('%s:\n%s\n\n' % (k, v))
                if failed:
                    f.write('failed obligation:\n%s\n' % json.dumps(failed['failed'], indent=1, default=str))
            lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
            status = 1
    if status == 0 and failed is not None:
        with open(replay, 'w') as f:
            f.write('property %s: proof obligation not discharged\n\nunit: %s\nobligation: %s\nverifier: %s (%s)\n\n%s\n\n' % (
                prop, failed['name'], failed['failed']['obligation'], failed['failed']['status'],
                failed['failed']['backend'], failed['failed']['detail']))
            f.write(json.dumps(failed['failed'], indent=1, default=str))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        status = 1
    if status == 0 and ob == 0 and not unsup and not load_error:
        print('no obligations were generated for %s' % prop)
        status = 2
    if status == 0 and vac:
        print('vacuous units: %s' % vac)
        status = 2
    if status == 0 and errors and not evals:
        print('the refuter failed: %s' % errors[0])
        status = 2
    for k in kf:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2),
              violations=1 if status == 1 else 0,
              assumptions=sorted({x for r in results for x in r.get('assumptions', [])} | set(assumptions_of(prop))),
              coverage=dict(
                  obligations=ob, discharged=dis, backends=backends,
                  solver_s=round(sum(r['solver_s'] for r in results), 2),
                  paths=sum(r['paths'] for r in results),
                  units=len(results), units_verified=len([r for r in results if not r['failed'] and not r['unsupported']]),
                  undecided_units=[dict(unit=r['name'], reason=r['unsupported'],
                                        stand_in='bounded: refuter on CPython, %d executions' % evals) for r in unsup],
                  failed=[r['failed']['obligation'] for r in results if r['failed']],
                  functions_under_contract=funcs,
                  reachability_covers=len(covers),
                  checker_cmd='python3-vt -B run.py --property %s --tier %s' % (prop, tier),
                  trusted_base=TRUSTED,
                  cpython_cross_check=dict(evaluations=evals,
                                           distinct_nontrivial=sum(r.get('distinct', 0) for r in ref),
                                           samples=[s for r in ref for s in r.get('samples', [])][:4],
                                           rule=next((r['rule'] for r in ref if r.get('rule')), ''))))
    if load_error:
        ev['coverage']['load_error'] = load_error[-1500:]
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s %s: %d/%d obligations discharged in %d units (%d undecided), %d cross-check executions, %.1f s -> %s' % (
        prop, tier, dis, ob, len(results), len(unsup), evals, time.time() - t0,
        'holds' if status == 0 else 'VIOLATED' if status == 1 else 'error'))
    for u in unsup[:10]:
        print('  undecided: %s (%s)' % (u['name'], u['unsupported']))
    if load_error:
        print(load_error[-1500:])
    for e in errors[:1]:
        print('refuter error: ' + e[-800:])
    sys.stdout.flush()
    sys.exit(status)


def assumptions_of(prop):
    try:
        from specs import assumptions
        return assumptions.ASSUMPTIONS.get('*', []) + assumptions.ASSUMPTIONS.get(prop, [])
    except ImportError:
        return []


if __name__ == '__main__':
    main()

"""Check driver:  python3-vt -m vc.run <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]

Re-extracts the functions of /repo a property depends on, runs every contract case, and reports.
exit 0 every obligation discharged (or only bounded stand-ins, searched without failure); 1 a VIOLATION line was printed; 2 error.
"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vc import build, kernel, solver  # noqa: E402

TRUSTED = [
    'clang 18 front end (C++ source of /repo -> LLVM IR) and the LLVM normalisation passes sroa, early-cse, simplifycfg, inline, instcombine, loop-simplify',
    'vc: the LLVM IR / AVX2 semantics and the verification-condition generator written for this task (/verif/vc)',
    'z3 4.x and cvc5 1.1.2',
]
BASE_ASSUME = [
    'extraction drops: exceptions and unwinding (calls are assumed not to throw), debug info, volatile/atomic ordering inside a single kernel; the release build by gcc is assumed to implement the same C++ (clang compiles the same text, with __clang__ undefined so that the gcc branches of the source are the ones taken)',
    'integer overflow wraps (-fwrapv), no strict aliasing, no floating contraction',
    'array lengths below 2^40 elements, strides between -65536 and 65536 bytes, loop counts below 2^46 (no address arithmetic overflow)',
    'array data are aligned to their element size (numpy arrays flagged ALIGNED)',
    'distinct arrays do not overlap unless a case states that they coincide',
    'partial correctness: termination is not proved',
    'NaN payloads are not distinguished; results that differ only in the sign of a zero are identified',
    'the interruption flag (Ctrl-C) stays clear',
]


def work(job):
    i, tier, seed, deadline, rb = job
    c = CASES[i]
    if deadline and time.time() > deadline:
        return i, dict(name=c.name, obs=[], err='time budget of the check exhausted before this case', fail=[], violation=None, fns=[], assume=[],
                       bounded=None, loops=0, secs=0.0, skipped=True, stats={})
    try:
        r = kernel.run_case(c, tier=tier, seed=seed, replay_budget=rb)
    except build.ExtractionError:
        raise
    except Exception as e:
        r = dict(name=c.name, obs=[], err='internal %s: %s' % (type(e).__name__, e), fail=[], violation=None, fns=[], assume=[], bounded=None,
                 loops=0, secs=0.0, trace=traceback.format_exc()[-2000:], stats={})
    return i, r


CASES = []


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VC_JOBS', '8')))
    ap.add_argument('--budget', type=float, default=780.0)
    ap.add_argument('--no-replay', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mods = [importlib.import_module('contracts.' + m) for m in importlib.import_module('contracts').PROPERTIES[a.prop]['modules']]
    tus = sorted({t for m in mods for t in m.TUS(a.prop)})
    print('%s: extracting %s from %s' % (a.prop, ', '.join(tus), build.REPO), flush=True)
    try:
        with mp.Pool(min(a.j, len(tus))) as p:
            p.map(build.extract, tus)
        for t in tus:
            build.module(t)
    except build.ExtractionError as e:
        print('ERROR extraction failed: %s' % e)
        sys.exit(2)
    t1 = time.time()
    for m in mods:
        CASES.extend(m.cases(a.prop, a.tier))
    if a.only:
        CASES[:] = [c for c in CASES if re.search(a.only, c.name)]
    names = [c.name for c in CASES]
    assert len(set(names)) == len(names), 'duplicate case names'
    deadline = t0 + (a.budget if a.tier == 'quick' else 6 * 3600)
    jobs = [(i, a.tier, seed, deadline, 0.0 if a.no_replay else (20.0 if a.tier == 'quick' else 90.0)) for i in sorted(range(len(CASES)), key=lambda i: -CASES[i].cost)]
    res = [None] * len(CASES)
    nviol = 0
    with mp.Pool(a.j, maxtasksperchild=40) as p:
        for i, r in p.imap_unordered(work, jobs, chunksize=1):
            res[i] = r
            n = len(r['obs'])
            d = sum(1 for o in r['obs'] if o[2] == 'proved')
            if a.v or r['err'] or d != n:
                print('  %-60s %d/%d %.1fs%s%s' % (r['name'], d, n, r['secs'], '  [%s]' % r['err'] if r['err'] else '', '' if d == n else '  FAILED ' + '; '.join('%s: %s (%s)' % (f['kind'], f['where'], f['status']) for f in r['fail'][:3])), flush=True)
                if a.v and r.get('trace'):
                    print(r['trace'])
                if a.v:
                    for f in r['fail'][:3]:
                        print('     ', f['goal'][:1500])
    finish(a, seed, res, mods, tus, t0, t1)


def finish(a, seed, res, mods, tus, t0, t1):
    prop = a.prop
    known = [k for k in load_known() if k['property'] == prop and not k.get('fixed')]
    nob = dis = 0
    by = {}
    kinds = {}
    fns, assume = set(), set()
    bounded, errors, viol = [], [], []
    stats = {}
    for c, r in zip(CASES, res):
        nob += len(r['obs'])
        for kind, where, status, b, secs in r['obs']:
            kinds[kind] = kinds.get(kind, 0) + 1
            if status == 'proved':
                dis += 1
                by[b] = by.get(b, 0) + 1
        fns |= set(r['fns'])
        assume |= set(r['assume'])
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        if r['violation']:
            viol.append((c, r, True))
        elif r['fail']:
            viol.append((c, r, False))
        elif r['err']:
            if r.get('skipped'):
                errors.append((c, r))
            elif c.bounded_ok and r.get('replay_tried'):
                bounded.append((c, r))
            elif r['err'].startswith('broken:'):
                viol.append((c, r, False))
            elif r.get('replay_tried') and not r['err'].startswith('internal'):
                bounded.append((c, r))
            else:
                errors.append((c, r))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', prop + '-*.json')):
        os.unlink(f)
    seen = set()
    nv = 0
    for c, r, found in sorted(viol, key=lambda x: not x[2]):
        key = (c.group, found)
        if key in seen:
            continue
        seen.add(key)
        nv += 1
        fn = os.path.join('evidence', 'replay', '%s-%s.json' % (prop, hashlib.md5(c.name.encode()).hexdigest()[:10]))
        body = dict(property=prop, case=c.name, tu=c.tu, failed_obligations=r['fail'], error=r['err'], failing_input=r['violation'],
                    replay_cmd='python3-vt -m vc.run %s --only %s -v' % (prop, repr('^' + re.escape(c.name) + '$')))
        if not found:
            body['note'] = 'no failing input found by the native search'
        json.dump(body, open(os.path.join(HERE, fn), 'w'), indent=1)
        if nv <= 20:
            print('VIOLATION property=%s replay=%s%s' % (prop, fn, '' if found else ' no-failing-input-found'))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    samples = []
    for c, r in list(zip(CASES, res))[:: max(1, len(CASES) // 12)]:
        samples.append(dict(case=c.name, obligations=[('%s %s: %s by %s' % (o[0], o[1], o[2], o[3])) for o in r['obs'][:8]], secs=round(r['secs'], 2)))
    ev = dict(property=prop, tier=a.tier, seed=seed, level='proof',
              coverage=dict(obligations=nob, discharged=dis, checker_cmd='python3-vt -m vc.run %s --tier %s' % (prop, a.tier),
                            trusted_base=TRUSTED + sorted({t for m in mods for t in getattr(m, 'TRUSTED', [])}),
                            contract_cases=len(CASES), cases_proved=sum(1 for r in res if not r['err'] and r['obs'] and all(o[2] == 'proved' for o in r['obs'])),
                            by_backend=by, by_kind=kinds, functions_under_contract=len(fns), functions=sorted(fns)[:400],
                            solver_seconds=round(stats.get('time', 0.0), 2), cvc5_seconds=round(stats.get('cvc5_time', 0.0), 2), solver_queries=stats.get('queries', 0),
                            loops_summarised=sum(r['loops'] for r in res),
                            extracted_translation_units=tus, extraction_seconds=round(t1 - t0, 2),
                            bounded_stand_ins=[dict(case=c.name, reason=r['err'], bound='native search, %s inputs' % r.get('replay_tried', 0)) for c, r in bounded],
                            undecided=[dict(case=c.name, reason=r['err']) for c, r in errors],
                            samples=samples),
              assumptions=BASE_ASSUME + sorted(assume) + sorted({t for m in mods for t in getattr(m, 'ASSUME', [])}), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d cases, %d obligations, %d discharged (%s), %d functions, %d bounded stand-ins, %d undecided, %.1fs (solver %.1fs)' % (
        prop, len(CASES), nob, dis, ', '.join('%s %d' % kv for kv in sorted(by.items())), len(fns), len(bounded), len(errors), time.time() - t0, stats.get('time', 0.0)))
    build.prune_cache()
    if viol:
        sys.exit(1)
    if errors or not CASES:
        print('ERROR: %d cases undecided' % len(errors))
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    from vc import run
    run.main()

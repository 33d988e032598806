#!/usr/bin/env python3-vt
"""Decides one property: every contract of the property is discharged on the
current source of /repo, and replayed against the running package.

  check.py ID [--tier quick|thorough]      exit 0 / 1, see MANIFEST.json
  check.py --replay FILE                   reproduce a reported violation
"""
import glob
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_SCRATCH', HERE)
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', VERIF_REPO=REPO, PYTHONPATH=HERE, PYTHONHASHSEED='0')


def contracts_of(prop):
    """[(file, contract name, variants, funcs, bounded, seeds)] without importing the code under test."""
    from vc import api
    import importlib.util
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c_*.py'))):
        api.REG.clear()
        spec = importlib.util.spec_from_file_location('contracts_' + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for c in api.REG.get(prop, []):
            out.append((p, c))
    return out


def sym_job(a):
    path, cname, variant, tl, budget, record, deadline = a
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        sys.setrecursionlimit(60000)
        from vc import symenv
        try:
            box['r'] = symenv.run_contract(path, cname, variant, tl, budget, REPO, record)
            if record:
                box['r']['records'] = evaluate_records(box['r']['records'], record)
        except BaseException as e:
            import traceback
            box['r'] = {'contract': cname, 'variant': variant, 'paths': 0, 'dead': 0, 'error': None,
                        'unsupported': 'engine: %r %s' % (e, traceback.format_exc()[-1500:]), 'results': [], 'time': 0, 'stats': {}}
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(max(5.0, min(budget, deadline - time.time())))
    r = box.get('r') or {'contract': cname, 'variant': variant, 'paths': 0, 'dead': 0, 'error': None, 'results': [], 'time': 0, 'stats': {},
                         'unsupported': 'the proof did not finish within its time limit'}
    r['path'] = path
    return r


def evaluate_records(recs, samples):
    """Compare the engine's terms with the values the real code produced."""
    from vc import terms as tm
    from vc import numeval
    return numeval.compare(recs, samples)


def conc_run(path, tasks, budget):
    with tempfile.TemporaryDirectory(prefix='vcjob') as tmp:
        job = {'path': path, 'tasks': tasks, 'budget': budget, 'out': os.path.join(tmp, 'out.json')}
        jf = os.path.join(tmp, 'job.json')
        json.dump(job, open(jf, 'w'))
        try:
            p = subprocess.run([PY, '-m', 'vc.conc', jf], cwd=HERE, env=ENV, capture_output=True, text=True, timeout=budget + 60)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        if p.returncode or not os.path.exists(job['out']):
            return None, (p.stdout + p.stderr)[-2000:]
        return json.load(open(job['out'])), None


def conc_job(a):
    path, task, budget = a[:3]
    if len(a) > 3:
        budget = max(10.0, min(budget, a[3] - time.time()))
    r, err = conc_run(path, [task], budget)
    if r is None:
        return {'contract': task['contract'], 'variant': task['variant'], 'runs': 0, 'discarded': 0, 'claims': 0,
                'labels': {}, 'fail': None, 'error': err, 'path': path, 'records': []}
    r[0]['path'] = path
    r[0]['error'] = None
    return r[0]


def lost(a):
    return {'contract': a[1]['contract'], 'variant': a[1]['variant'], 'runs': 0, 'discarded': 0, 'claims': 0, 'labels': {}, 'fail': None,
            'error': 'the process running the real code was lost', 'path': a[0], 'records': []}


def gather(pool, f, tasks, deadline, default):
    """Like pool.map, but a worker that dies or never answers costs only its own task."""
    rs = [pool.apply_async(f, (t,)) for t in tasks]
    out = []
    for r, t in zip(rs, tasks):
        try:
            out.append(r.get(max(1.0, deadline - time.time())))
        except mp.TimeoutError:
            out.append(default(t))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    return check(a)


def replay(f):
    d = json.load(open(f))
    print(json.dumps(d, indent=1)[:6000])
    if d.get('seed') is None:
        print('no failing input was found; the failed obligation is above')
        return 1
    r, err = conc_run(os.path.join(HERE, d['file']), [{'contract': d['contract'], 'variant': d['variant'], 'seeds': [d['seed']],
                                                       'overrides': d.get('overrides')}], 120)
    if err:
        print(err)
        return 1
    print('replayed:', json.dumps(r[0]['fail'], indent=1)[:3000])
    return 1 if r[0]['fail'] else 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'finding':
                    out.append(d)
    return out


def vkey(contract, variant):
    return contract + ('' if variant is None else '[%s]' % (variant if isinstance(variant, str) else json.dumps(variant)))


def check(a):
    t0 = time.time()
    prop = a.prop
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    quick = tier != 'thorough'
    cs = contracts_of(prop)
    if a.only:
        cs = [(p, c) for p, c in cs if c.name in a.only.split(',')]
    if not cs:
        print('no contracts for', prop)
        return 2
    known = known_findings(prop)
    kset = {(k['contract'], k.get('label')) for k in known}
    nseeds = 24 if quick else 400
    ctx = mp.get_context('fork')
    jobs = [(p, c.name, v, c) for p, c in cs for v in c.variants]
    violations = []
    with ctx.Pool(min(NPROC, max(1, len(jobs) * 2)), maxtasksperchild=1) as pool:
        # concrete witnesses first (they also feed the engine cross-check)
        ctasks = []
        for p, n, v, c in jobs:
            m = max(4, int(nseeds * c.seeds))
            ctasks.append((p, {'contract': n, 'variant': v, 'from': seed * 100000, 'to': seed * 100000 + m, 'record': True,
                               'known': [k['label'] for k in known if k['contract'] == n]}, 60 if quick else 400))
        cres = gather(pool, conc_job, ctasks, t0 + (200 if quick else 3000), lost)
        stasks = []
        for (p, n, v, c), cr in zip(jobs, cres):
            stasks.append((p, n, v, 60.0 if quick else 200.0, 300.0 if quick else 3000.0, (cr['records'] or [])[:6 if quick else 30] or [None],
                           t0 + (560 if quick else 20000)))
        sres = gather(pool, sym_job, stasks, t0 + (600 if quick else 21000), lambda a: {
            'contract': a[1], 'variant': a[2], 'path': a[0], 'paths': 0, 'dead': 0, 'error': None, 'results': [], 'time': 0, 'stats': {},
            'unsupported': 'the prover process was lost'})
        # ---- judge
        bad = []
        total = discharged = 0
        solver = {}
        by = {}
        xc = [0, 0, []]
        for (p, n, v, c), r in zip(jobs, sres):
            if r['unsupported']:
                bad.append((p, c, v, 'verification incomplete', r['unsupported']))
            if r['error']:
                if (n, 'no-exception') in kset:
                    pass
                else:
                    bad.append((p, c, v, 'no-exception', r['error'] + '\n' + r.get('trace', '')))
            total += 1           # the implicit obligation: no exception on any path
            if not r['error'] and not r['unsupported']:
                discharged += 1
            if not r['unsupported'] and not r['error'] and not r['paths']:
                bad.append((p, c, v, 'vacuous', 'no feasible path'))
            for q in r['results']:
                if (n, q['label']) in kset:
                    continue
                total += 1
                if q['ok'] and q['paths'] and not r['unsupported']:
                    discharged += 1
                    for b, m in q['by'].items():
                        by[b] = by.get(b, 0) + m
                elif not q['ok']:
                    bad.append((p, c, v, q['label'], q['why']))
            for k2, m in (r.get('stats') or {}).items():
                solver[k2] = solver.get(k2, 0) + m
            x = r.get('records')
            if isinstance(x, dict):
                xc[0] += x['compared']
                xc[1] += x['mismatch']
                xc[2] += x['examples']
        extra = []
        if bad or os.environ.get('VERIF_HUNT'):
            hunt_end = time.time() + (200 if quick else 3000)
            names = {(p, c.name, json.dumps(v)) for p, c, v, l, w in bad}
            m = 1500 if quick else 8000
            tasks = []
            for p, n, v, c in jobs:
                if (p, n, json.dumps(v)) in names or os.environ.get('VERIF_HUNT'):
                    for q in range(4):
                        lo = seed * 100000 + 1000 + q * m
                        tasks.append((p, {'contract': n, 'variant': v, 'from': lo, 'to': lo + m,
                                          'known': [k['label'] for k in known if k['contract'] == n]}, 60 if quick else 400, hunt_end))
            if not any(r["fail"] for r in cres) and not os.environ.get("VERIF_NOHUNT"):
                extra = gather(pool, conc_job, tasks, hunt_end + 60, lost)
    for r in cres + extra:
        if r['fail']:
            violations.append((r, r['fail']))
    for r in cres:
        if r['error']:
            bad.append((r['path'], None, r['variant'], 'witness', 'concrete run failed: %s' % r['error']))
        elif not r['runs']:
            bad.append((r['path'], None, r['variant'], 'witness', 'no input satisfied the preconditions of %s' % r['contract']))
    runs = sum(r['runs'] for r in cres + extra)
    claims = sum(r['claims'] for r in cres + extra)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    rc = 0
    if violations:
        r, f = violations[0]
        rp = os.path.join('replay', '%s.json' % prop)
        json.dump({'property': prop, 'file': os.path.relpath(r['path'], HERE), 'contract': r['contract'], 'variant': r['variant'],
                   'seed': f['seed'], 'failed': f['fails'], 'inputs': f['values'],
                   'replay': './check.py --replay ' + rp,
                   'obligations_not_discharged': [[vkey(c.name if c else '', v), l, w[:1500]] for p, c, v, l, w in bad][:10]},
                  open(os.path.join(OUT, rp), 'w'), indent=1)
        for p, c, v, l, w in bad[:6]:
            print('obligation not discharged: %s / %s: %s' % (vkey(c.name if c else '', v), l, (w or '')[:300]))
        print('failing input: %s seed %s: %s' % (vkey(r['contract'], r['variant']), f['seed'], f['fails'][0]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif bad:
        rp = os.path.join('replay', '%s.json' % prop)
        json.dump({'property': prop, 'seed': None,
                   'failed_obligations': [{'contract': vkey(c.name if c else '', v), 'file': os.path.relpath(p, HERE), 'obligation': l, 'verifier': w}
                                          for p, c, v, l, w in bad]}, open(os.path.join(OUT, rp), 'w'), indent=1)
        for p, c, v, l, w in bad[:12 if not a.v else 200]:
            print('obligation not discharged: %s / %s: %s' % (vkey(c.name if c else '', v), l, (w or '')[:600 if not a.v else 3000]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    if xc[1] and not rc:
        # the engine's reading of the source disagrees with CPython: nothing it proves can be trusted
        rp = os.path.join('replay', '%s.json' % prop)
        json.dump({'property': prop, 'seed': None, 'engine_mismatch': xc[2][:20]}, open(os.path.join(OUT, rp), 'w'), indent=1)
        print('engine cross-check mismatch: %s' % (xc[2][:5],))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    evidence(prop, tier, seed, jobs, sres, cres, total, discharged, by, solver, xc, runs, claims, rc, t0, known)
    print('%s: %d/%d obligations discharged, %d contracts, %d concrete runs, %d terms cross-checked, %.1f s' % (
        prop, discharged, total, len(jobs), runs, xc[0], time.time() - t0))
    if a.v:
        for r in sorted(sres, key=lambda r: -r['time']):
            print('  %7.1fs  %-40s paths=%d dead=%d' % (r['time'], vkey(r['contract'], r['variant']), r['paths'], r['dead']))
            for q in r['results']:
                print('           %-40s %s paths=%d %s %.2fs' % (q['label'], 'ok' if q['ok'] else 'FAIL', q['paths'], q['by'], q['time']))
    return rc


def evidence(prop, tier, seed, jobs, sres, cres, total, discharged, by, solver, xc, runs, claims, rc, t0, known):
    from vc import trust
    bounded = sorted({c.bounded for _, _, _, c in jobs if c.bounded})
    funcs = sorted({f for _, _, _, c in jobs for f in c.funcs})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': discharged,
            'checker_cmd': './check.py %s' % prop,
            'trusted_base': trust.TRUSTED_BASE,
            'functions_under_contract': funcs,
            'contracts': [vkey(n, v) for _, n, v, _ in jobs],
            'paths_explored': sum(r['paths'] for r in sres),
            'discharged_by': by,
            'solver_time_s': round(solver.get('z3_time', 0), 2),
            'solver_queries': solver.get('queries', 0),
            'bounded_parts': bounded,
            'concrete_witness_runs': runs, 'concrete_claims_checked': claims,
            'engine_terms_compared_with_cpython': xc[0], 'engine_mismatches': xc[1],
            'per_contract': [{'contract': vkey(r['contract'], r['variant']), 'paths': r['paths'],
                              'obligations': [[q['label'], 'discharged' if q['ok'] else 'failed', q['by']] for q in r['results']],
                              'time_s': r['time']} for r in sres],
            'samples': [{'contract': r['contract'], 'inputs': (r['records'] or [{}])[0].get('values')} for r in cres[:2]],
        },
        'assumptions': trust.ASSUMPTIONS + trust.PER_PROPERTY.get(prop, []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0 if rc == 0 else 1,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', '%s.json' % prop), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())

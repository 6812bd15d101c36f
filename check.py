#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N]      decide one property
   check.py --replay FILE                                 run one recorded case again

Deciding step: the deductive verifier (vcg/, proofs/<prop>.py) generates every proof
obligation from /repo's current sources and has to discharge them all.  Beside it the real
code runs on generated inputs (rt/): this supplies failing inputs for obligations that are not
discharged, and is the labelled bounded stand-in for the code that is not under contract."""
import argparse, json, os, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rt'))
VT = '/opt/veriftools/pyvenv/bin/python3'
REPLAY = os.path.join(HERE, 'replay')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True


def known():
    """input-identified findings that are recorded, not repaired"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith('finding:'):
            out.append(json.loads(l[len('finding:'):]))
    return out


def run_proof(prop, tier, limit, res):
    t = time.time()
    out = os.path.join(HERE, '.build', 'proof_%s.json' % prop)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([VT, os.path.join(HERE, 'vcg', 'prove.py'), prop, '--tier', tier, '--out', out],
                           capture_output=True, text=True, errors='replace', timeout=limit)
        log = p.stdout[-2000:] + p.stderr[-4000:]
    except subprocess.TimeoutExpired:
        log = 'the verifier did not finish within %d s' % limit
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = dict(obligations=[dict(name='verifier', status='unknown', function='', detail=log, backend='', seconds=0)],
                 functions=[], assumptions=[], trusted=[], error=log)
    r['log'] = log
    r['wall'] = time.time() - t
    res['proof'] = r


def run_rt(prop, tier, seed, budget, res, key='rt', timeout=None):
    import runner
    t = time.time()
    try:
        r = runner.run(prop, tier, seed, budget, timeout=timeout)
    except Exception:
        r = dict(stats={}, samples=[], failure=None, note='run-time side not available: ' + traceback.format_exc(limit=-3)[-1500:])
    if r.get('harness_error'):
        r['note'] = (r.get('note') or '') + ' harness error: ' + r['harness_error'][-1500:]
        r['failure'] = None
    r['wall'] = time.time() - t
    res[key] = r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--no-rt', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop
    quick = a.tier != 'thorough'
    cfg = json.load(open(os.path.join(HERE, 'checks.json')))[prop]
    res = {}
    th = []
    proved = os.path.exists(os.path.join(HERE, 'proofs', prop.lower() + '.py'))
    if proved:
        th.append(threading.Thread(target=run_proof, args=(prop, a.tier, 600 if quick else 3000, res)))
    if not a.no_rt:
        th.append(threading.Thread(target=run_rt, args=(prop, a.tier, a.seed, cfg.get('rt', 12) if quick else 300, res)))
    for t in th:
        t.start()
    for t in th:
        t.join()
    pr, rt = res.get('proof'), res.get('rt')
    failed = [o for o in pr['obligations'] if o['status'] != 'discharged'] if pr else []
    if pr and not pr['obligations']:
        failed = [dict(name='no obligations generated', status='unknown', function='', detail=pr['log'])]
    if failed and rt and not rt['failure'] and not a.no_rt:
        # an undischarged obligation: look harder for an input that shows it
        run_rt(prop, 'thorough', a.seed + 1000, 90 if quick else 400, res, 'rt2')
        if res['rt2']['failure']:
            rt['failure'] = res['rt2']['failure']
    violations = 0
    lines = []
    os.makedirs(REPLAY, exist_ok=True)
    rp = os.path.join(REPLAY, prop + '.json')
    fail = rt and rt['failure']
    kf = [k for k in known() if k['property'] == prop]
    for k in kf:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fail:
        violations = 1
        json.dump(dict(property=prop, case=fail['case'], message=fail['message'],
                       obligations=[dict(o) for o in failed]), open(rp, 'w'), indent=1, default=str)
        lines.append('failing input: %s' % json.dumps(fail['case'], default=str)[:600])
        lines.append(fail['message'][:3000])
        for o in failed[:10]:
            lines.append('undischarged obligation: %s %s' % (o.get('function', ''), o['name']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    elif failed:
        violations = len(failed)
        json.dump(dict(property=prop, case=None, obligations=[dict(o) for o in failed], verifier_output=pr['log']),
                  open(rp, 'w'), indent=1, default=str)
        for o in failed[:20]:
            lines.append('undischarged obligation: %s: %s [%s] %s' % (o.get('function', ''), o['name'], o['status'], str(o.get('detail', ''))[:1500]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    write_evidence(prop, a, cfg, pr, res, failed, violations, time.time() - t0)
    n = len(pr['obligations']) if pr else 0
    print('%s: %d of %d obligations discharged%s; %s' % (
        prop, n - len([o for o in failed if o in (pr['obligations'] if pr else [])]), n,
        ' (%.0f s)' % pr['wall'] if pr else '',
        'run-time cases %s (%.0f s) %s' % (rt['stats'], rt['wall'], rt.get('note') or '') if rt else ''))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if violations else 0


def write_evidence(prop, a, cfg, pr, res, failed, violations, wall):
    cov = {}
    ev = sum(sum(res[k]['stats'].values()) for k in ('rt', 'rt2') if k in res)
    samples = (res.get('rt') or {}).get('samples', [])
    if pr:
        ob = pr['obligations']
        by, secs = {}, 0.0
        for o in ob:
            if o['status'] == 'discharged':
                by[o.get('backend') or '?'] = by.get(o.get('backend') or '?', 0) + 1
            secs += o.get('seconds') or 0
        cov.update(obligations=len(ob), discharged=len([o for o in ob if o['status'] == 'discharged']),
                   checker_cmd='cd /verif && %s vcg/prove.py %s --out OUT.json' % (VT, prop),
                   trusted_base=pr.get('trusted', []), functions_under_contract=pr.get('functions', []),
                   discharged_by_back_end=by, solver_seconds=round(secs, 2),
                   undischarged=[dict(function=o.get('function'), name=o['name'], status=o['status']) for o in failed])
        if pr.get('vacuity'):
            cov['vacuity_checks'] = pr['vacuity']
        cov['bounded_stand_in'] = dict(
            what=cfg.get('bounded', ''), evaluations=ev, cases=(res.get('rt') or {}).get('stats', {}),
            note='bounded: sampled inputs only, not counted as proved', samples=samples[:4])
        cov['evaluations'] = ev
    else:
        cov.update(evaluations=ev, distinct_nontrivial=ev, samples=samples[:6],
                   rule='random cases from a seeded generator covering shapes, types, partitions and options; each case runs the real code and compares with an oracle written from the statement')
    e = dict(property=prop, tier=a.tier, seed=a.seed, level=cfg['level'], coverage=cov,
             assumptions=(pr or {}).get('assumptions', []) + cfg.get('assumptions', []), wall_s=round(wall, 2), violations=violations)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1, default=str)


def replay(path):
    r = json.load(open(path))
    prop = r['property']
    if not r.get('case'):
        print('no failing input recorded; undischarged obligations:')
        for o in r['obligations']:
            print('  %s: %s [%s] %s' % (o.get('function'), o['name'], o['status'], o.get('detail', '')))
        res = {}
        run_proof(prop, 'quick', 900, res)
        bad = [o for o in res['proof']['obligations'] if o['status'] != 'discharged']
        print('now undischarged: %s' % [o['name'] for o in bad])
        return 1 if bad else 0
    import runner
    q = os.path.join(HERE, '.build', 'replay_case.json')
    os.makedirs(os.path.dirname(q), exist_ok=True)
    json.dump(r['case'], open(q, 'w'))
    out = runner.run(prop, case=q)
    if out['failure']:
        print(out['failure']['message'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('this case passes')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)

#!/usr/bin/env python3
"""Make /verif/seeded/<id> from tools/seedspec/<id>.py and confirm it against /repo (development
tool: applies the patch to /repo, builds, tests, runs the demo, and undoes it)."""
import json, os, runpy, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
SH = '''#!/bin/bash
# run in /repo after the build: 0 if the property holds on this input, nonzero if not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/_build/lib PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
exec timeout 250 /opt/stempy-venv/bin/python -W ignore "$here/demo.py"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def main(ids):
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(HERE + '/seedspec') if f.endswith('.py'))
    assert not sh('git', '-C', '/repo', 'status', '--porcelain', '-uno').stdout
    for i in ids:
        s = runpy.run_path('%s/seedspec/%s.py' % (HERE, i))
        d = os.path.join(SEED, i)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        run = lambda: sh('bash', d + '/demo.sh', cwd='/repo')
        sh('bash', '/opt/vp/build.sh')
        r0 = run()
        try:
            for f, old, new in s['EDITS']:
                p = '/repo/' + f
                t = open(p).read()
                n = t.count(old)
                assert n == 1, '%s: %d matches in %s' % (i, n, f)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git', '-C', '/repo', 'diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            b = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            res = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            missing = [t for t in base if t not in res['passed']]
            r1 = run()
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        ok = r0.returncode == 0 and r1.returncode != 0 and not missing
        print('%s %s unchanged=%d patched=%d tests-missing=%s' % ('OK  ' if ok else 'BAD ', i, r0.returncode, r1.returncode, missing), flush=True)
        if not ok:
            print(r0.stdout[-600:], r0.stderr[-1200:], '----', r1.stdout[-600:], r1.stderr[-600:], b.stderr[-800:] if missing else '')
        else:
            print('     ', (r1.stdout + r1.stderr).strip().splitlines()[-1:])
    sh('bash', '/opt/vp/build.sh')
if __name__ == '__main__':
    main(sys.argv[1:])

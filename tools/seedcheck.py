#!/usr/bin/env python3
"""Run each seeded bug's own check (or the checks given with -p) against a scratch clone of /repo with the
bug applied; prints which are caught.  Development tool."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/tmp/seedcheck'
def one(i):
    d = '%s/%s' % (ROOT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (HERE, i)], cwd=d + '/repo', check=True)
        subprocess.run(['git', 'clone', '-q', HERE, d + '/verif'], check=True)
        for x in ('rt', 'vcg', 'proofs', 'harness', 'check.py', 'checks.json'):
            subprocess.run('rm -rf %s/verif/%s; cp -a %s/%s %s/verif/' % (d, x, HERE, x, d), shell=True)
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
        p = subprocess.run(['python3', 'check.py', meta['property']] + FLAGS, cwd=d + '/verif', env=env, capture_output=True, text=True, timeout=1500)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        o = [l for l in p.stdout.splitlines() if l.startswith('undischarged')]
        return '%-28s %s rc=%d %s | %s' % (i, meta['property'], p.returncode, 'CAUGHT ' + ('(no input)' if v and 'no-failing' in v[0] else '') if v else 'MISSED', '; '.join(o)[:300] + (p.stderr[-300:] if p.returncode not in (0, 1) else ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)
FLAGS = []
if __name__ == '__main__':
    a = sys.argv[1:]
    j = 4
    if a and a[0].startswith('-j'):
        j = int(a.pop(0)[2:])
    ids = a or sorted(os.listdir(HERE + '/seeded'))
    with ThreadPoolExecutor(j) as tp:
        for r in tp.map(one, ids):
            print(r, flush=True)

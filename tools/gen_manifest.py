#!/usr/bin/env python3
"""MANIFEST.json and checks.json from one table (edit here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/veriftools/pyvenv/bin/python3'
NA = {'C22': 'schedules: the threaded readers and the counting lambda synchronise with mutexes, atomics and condition variables; contract-based deductive verification of this C++ needs a permission/ownership logic for threads that no installed verifier offers for C++, and termination under every schedule is a liveness property. The sequential contracts of the same functions are covered under C04, C05, C07, C12; schedule independence is recorded there as an assumption.'}
# property -> (level, technique, note, bounded stand-in, rt seconds)
from manifest_table import T
checks, cfg = [], {}
for p in ['C%02d' % i for i in range(1, 22)]:
    t = T[p]
    proved = os.path.exists(os.path.join(HERE, 'proofs', p.lower() + '.py'))
    level = 'proof' if proved else 'exploration'
    cfg[p] = dict(level=level, bounded=t['bounded'], rt=t.get('rt', 12), assumptions=t.get('assumptions', []))
    checks.append(dict(property=p, quick_cmd='/usr/bin/python3 check.py %s --tier quick' % p,
                       thorough_cmd='/usr/bin/python3 check.py %s --tier thorough' % p,
                       technique=t['technique'] if proved else 'bounded run-time check of the contract', level=level, level_note=t['note']))
m = dict(version=1, setup_cmd='/usr/bin/python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='See DESIGN.md. Defects repaired in /repo: known_findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
json.dump(cfg, open(os.path.join(HERE, 'checks.json'), 'w'), indent=1)

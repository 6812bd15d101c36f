"""Runs the runtime side of one property in a subprocess (so that a crash of the real code is a
finding about the case it was running, not the end of the check)."""
import json, os, subprocess, sys
import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = {'C01', 'C02', 'C03'}
PUREPY = {'C15', 'C16', 'C17', 'C18', 'C19', 'C20'}


def pure_lib():
    """the Python package with the compiled modules stubbed"""
    d = os.path.join(VERIF_BUILD, 'pylib')
    pkg = os.path.join(d, 'stempy')
    os.makedirs(pkg, exist_ok=True)
    B.link_python(pkg)
    return d


VERIF_BUILD = os.path.join(B.VERIF, '.build')


def trim(t):
    i = t.find('==ERROR')
    t = t[max(i, 0):] if i >= 0 else t[-2500:]
    return '\n'.join(l[:160] for l in t.split('\n')[:14])


def run(prop, tier='quick', seed=1, budget=20, case=None, timeout=None):
    os.makedirs(VERIF_BUILD, exist_ok=True)
    note = ''
    if prop in PUREPY:
        lib = pure_lib()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.join(HERE, 'stubs') + ':' + lib,
                   VERIF_STUB='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    elif prop == 'C21':
        lib, env = None, dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    else:
        lib, note = B.build(native=prop in NATIVE)
        env = B.env(lib)
    env['VERIF_REPO'] = B.REPO
    tag = os.path.join(VERIF_BUILD, 'rt_%s' % prop)
    for s in ('.state', '.out'):
        if os.path.exists(tag + s):
            os.unlink(tag + s)
    cmd = [B.PY, os.path.join(HERE, 'base.py'), prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget),
           '--state', tag + '.state', '--out', tag + '.out']
    if case:
        cmd += ['--case', case]
    try:
        p = subprocess.run(cmd, env=env, capture_output=True, text=True, errors='replace',
                           timeout=timeout or budget * 3 + 90)
        log, rc = p.stdout[-1500:] + trim(p.stderr), p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = 'the real code did not return within the time limit', -99
    if os.path.exists(tag + '.out') and rc == 0:
        res = json.load(open(tag + '.out'))
    else:
        st = None
        if os.path.exists(tag + '.state'):
            try:
                st = json.load(open(tag + '.state'))
            except ValueError:
                pass
        if case:
            st = json.load(open(case)); st = st.get('case', st)
        res = dict(stats={}, samples=[], failure=dict(case=st, message='the process died (exit %d) on this case: %s'
                                                     % (rc, log[-5000:])))
        if st is None:
            res['harness_error'] = log
    res['note'] = note + res.get('skipped', '')
    return res


if __name__ == '__main__':
    import time
    for p in sys.argv[1].split(','):
        t = time.time()
        r = run(p, budget=float(sys.argv[2]) if len(sys.argv) > 2 else 15)
        print(p, r['stats'], r['note'], '%.1fs' % (time.time() - t))
        if r['failure']:
            print('   FAIL', json.dumps(r['failure']['case'])[:400], '\n', r['failure']['message'][:2500])

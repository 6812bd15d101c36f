"""Runtime side of the checks: run the real code on generated inputs and compare with an
oracle written from the property statement.  Used (a) to look for a failing input when a
proof obligation is not discharged and (b) as the labelled *bounded* stand-in for glue the
verifier does not reach.  A case is a JSON dict; replaying it re-generates its arrays."""
import json, os, sys, time, traceback
import numpy as np


class Bad(Exception):
    """the property does not hold on this input"""


class Skip(Exception):
    """this kind of cases cannot be run on the current sources (says why); not a finding"""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


def same(got, exp, what):
    got = np.asarray(got); exp = np.asarray(exp)
    need(got.shape == exp.shape, '%s: shape %s, expected %s', what, got.shape, exp.shape)
    if not np.array_equal(got, exp):
        bad = np.argwhere(got != exp)
        i = tuple(int(x) for x in bad[0])
        raise Bad('%s: element %s is %r, expected %r (%d elements differ)'
                  % (what, i, got[i] if i else got, exp[i] if i else exp, len(bad)))


def close(got, exp, what, rtol=1e-6, atol=1e-9):
    got = np.asarray(got, dtype=float); exp = np.asarray(exp, dtype=float)
    need(got.shape == exp.shape, '%s: shape %s, expected %s', what, got.shape, exp.shape)
    ok = np.isclose(got, exp, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Bad('%s: element %s is %r, expected %r' % (what, i, got[i], exp[i]))


def rng_of(case):
    return np.random.default_rng(case['seed'])


def sparse(rng, nscan, nframes, npix, density=None, empty=0.25, dtype=np.uint32,
           ordered=True):
    """object array nscan x nframes of event lists, each pixel at most once per frame"""
    data = np.empty((nscan, nframes), dtype=object)
    for i in range(nscan):
        allempty = rng.random() < empty / 2
        for j in range(nframes):
            if allempty or rng.random() < empty:
                ev = np.array([], dtype=dtype)
            else:
                k = rng.integers(0, npix + 1) if density is None else \
                    rng.binomial(npix, density)
                ev = rng.choice(npix, size=int(k), replace=False).astype(dtype)
                if ordered:
                    ev.sort()
            data[i, j] = ev
    return data


def dense(data, scan_shape, frame_shape):
    n = int(np.prod(frame_shape))
    out = np.zeros((len(data), n), dtype=np.int64)
    for i, frames in enumerate(data):
        for f in frames:
            np.add.at(out[i], np.asarray(f, dtype=np.int64), 1)
    return out.reshape(tuple(scan_shape) + tuple(frame_shape))


SKIPPED = ''


def run(module, prop, tier, seed, budget, state, only=None):
    """Run every kind of cases of a property module within the time budget.
    `state` = path where the case being run is kept (read back if the process dies)."""
    global SKIPPED
    t0 = time.time()
    kinds = module.KINDS
    stats = {}
    gens = {}
    for idx, name in enumerate(kinds):
        if only and name not in only:
            continue
        rng = np.random.default_rng([seed, idx])
        gens[name] = kinds[name][0](rng, tier)
        stats[name] = 0
    samples = []
    while gens:
        for name in list(gens):
            if time.time() - t0 > budget:
                gens = {}
                break
            try:
                case = next(gens[name])
            except StopIteration:
                del gens[name]
                continue
            case = dict(case, kind=name)
            with open(state, 'w') as f:
                json.dump(case, f)
            try:
                kinds[name][1](case)
            except Bad as e:
                return stats, samples, dict(case=case, message=str(e))
            except Skip as e:
                SKIPPED += '%s: %s; ' % (name, e)
                del gens[name]
                continue
            except Exception as e:       # an exception the property does not allow
                return stats, samples, dict(case=case, message='unexpected exception: %s'
                                            % traceback.format_exc(limit=-6))
            stats[name] += 1
            if len(samples) < 12 and stats[name] <= 2:
                samples.append(case)
    return stats, samples, None


def main(argv):
    import argparse, importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--state', required=True); ap.add_argument('--out', required=True)
    ap.add_argument('--case')
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    mod = importlib.import_module(a.prop.lower())
    if a.case:
        case = json.load(open(a.case))
        case = case.get('case', case)
        try:
            mod.KINDS[case['kind']][1](case)
            res = dict(stats={case['kind']: 1}, samples=[case], failure=None)
        except Bad as e:
            res = dict(stats={}, samples=[], failure=dict(case=case, message=str(e)))
        except Skip as e:
            res = dict(stats={}, samples=[], failure=None, skipped=str(e))
        except Exception:
            res = dict(stats={}, samples=[], failure=dict(case=case, message=
                       'unexpected exception: ' + traceback.format_exc(limit=-6)))
    else:
        stats, samples, failure = run(mod, a.prop, a.tier, a.seed, a.budget, a.state)
        res = dict(stats=stats, samples=samples, failure=failure, skipped=SKIPPED)
    with open(a.out, 'w') as f:
        json.dump(res, f, default=str)
    if res['failure']:
        print('FAIL', res['failure']['message'])
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    # import as a proper module, so that `base.Bad` is one class
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import base
    base.main(sys.argv[1:])

from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), b=int(rng.integers(1, 4)), what=str(rng.choice(['scan', 'frame'])),
                   inplace=bool(rng.integers(2)), ev=str(rng.choice(['uint32', 'uint32', 'int64'])))


def blocks(d, b, axes):
    for ax in axes:
        sh = d.shape[:ax] + (d.shape[ax] // b, b) + d.shape[ax + 1:]
        d = d.reshape(sh).sum(axis=ax + 1)
    return d


def check(c):
    r = rng_of(c)
    b = c['b']
    a, d = make(r, ndim=4 if c['what'] == 'scan' else None, bins=b, maxf=4, evdtype=np.dtype(c['ev']))
    s = snapshot(a)
    nd = len(a.shape)
    f, axes = (a.bin_scans, (0, 1)) if c['what'] == 'scan' else (a.bin_frames, (nd - 2, nd - 1))
    res = f(b, in_place=c['inplace'])
    exp = blocks(d, b, axes)
    same(tuple(res.scan_shape) + tuple(res.frame_shape), exp.shape, 'shape')
    for row in res.data:
        for fr in row:
            need(len(fr) == 0 or (int(np.min(fr)) >= 0 and int(np.max(fr)) < int(np.prod(res.frame_shape))), 'event outside the binned frame')
    same(expand(res), exp, 'binned by %d along the %s axes' % (b, c['what']))
    same(res.to_dense(), exp, 'to_dense() of the binned array')
    norepeat(res, 'binned array')
    if c['inplace']:
        need(res is a, 'in-place binning did not return the array itself')
    else:
        need(res is not a, 'binning returned the original')
        unchanged(a, s, 'binning')
    # bin again
    if r.random() < .3 and all(x % 2 == 0 for x in (np.array(exp.shape)[list(axes)])):
        f2 = res.bin_scans if c['what'] == 'scan' else res.bin_frames
        same(expand(f2(2)), blocks(exp, 2, axes), 'binned twice')
    bad = [k for k in range(2, 8) if any(x % k for x in np.array(exp.shape)[list(axes)])]
    if bad:
        try:
            (res.bin_scans if c['what'] == 'scan' else res.bin_frames)(bad[0])
            ok = False
        except ValueError:
            ok = True
        need(ok, 'binning by a factor that does not divide the shape raised no error')


KINDS = {'binning': (gen, check)}

from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), version=int(rng.integers(2)), crop=bool(rng.integers(2)),
                   init=bool(rng.integers(2)), nan=bool(rng.integers(2)), ev=str(rng.choice(['uint32', 'uint32', 'int64', 'uint8', 'uint16'])),
                   big=bool(rng.random() < .2))


def check(c):
    import stempy.image as im
    r = rng_of(c)
    big = c['big'] and c['ev'] != 'uint8'
    a, d = make(r, ndim=4, nonempty=True, maxf=15 if not big else 40, evdtype=np.dtype(c['ev']), density=.15 if big else None)
    sh, fs = a.scan_shape, a.frame_shape
    crop = None
    if c['crop']:
        crop = int(r.integers(1, max(fs) + 1))
        if r.random() < .3:
            crop = (crop, int(r.integers(1, crop + 1)))
    init = None
    if c['init']:
        init = (int(r.integers(0, fs[0])), int(r.integers(0, fs[1])))
        if r.random() < .3:
            init = (init[0] + 0.25, init[1] - 0.5)
    kw = {} if crop is None and r.random() < .5 else dict(crop_to=crop)
    R = None if crop is None else max(crop) if isinstance(crop, tuple) else crop
    exp = np.full((2,) + tuple(sh), np.nan)
    rows, cols = np.mgrid[0:fs[0], 0:fs[1]]
    for i in range(sh[0]):
        for j in range(sh[1]):
            w = d[i, j].astype(float)
            if w.sum() == 0:
                continue
            cy, cx = (w * rows).sum() / w.sum(), (w * cols).sum() / w.sum()
            if R is not None:
                o = init if init is not None else (cy, cx)
                dist = np.sqrt((rows - o[0]) ** 2 + (cols - o[1]) ** 2)
                near = np.abs(dist - R) < 1e-4
                if (near & (w > 0)).any():
                    exact = init is not None
                    if not exact:
                        return              # a tie in the rounding of the centre: no claim
                w = w * (dist <= R + (1e-9 if init is not None else 0))
                if w.sum() == 0:
                    continue
                cy, cx = (w * rows).sum() / w.sum(), (w * cols).sum() / w.sum()
            exp[:, i, j] = cx, cy
    if c['nan']:
        if np.isnan(exp).all():
            return
        for k in range(2):
            exp[k][np.isnan(exp[k])] = np.nanmean(exp[k])
    s = snapshot(a)
    got = im.com_sparse(a, init_center=init, replace_nans=c['nan'], version=c['version'], **kw)
    close(got, exp, 'centre of mass (version %d, radius %s, centre %s)' % (c['version'], crop, init), rtol=2e-5, atol=2e-4)
    unchanged(a, s, 'com_sparse')


KINDS = {'com': (gen, check)}

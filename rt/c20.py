from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), ev=str(rng.choice(['uint32', 'uint32', 'int64', 'uint8', 'uint16'])))


def check(c):
    import stempy.image as im
    r = rng_of(c)
    a, d = make(r, ndim=4, maxf=15, evdtype=np.dtype(c['ev']))
    sh, fs = tuple(a.scan_shape), tuple(a.frame_shape)
    s = snapshot(a)
    n = sh[0] * sh[1]
    # sum of event lists
    sel = r.choice(n, int(r.integers(1, n + 1)), replace=False)
    ev = a.data[sel] if r.random() < .5 else np.array([f for i in sel for f in a.data[i]] + [None], dtype=object)[:-1]
    same(im.calculate_sum_sparse(ev, fs), d.reshape((n,) + fs)[sel].sum(axis=0), 'summed diffraction pattern')
    # mask
    mask = r.random(sh) < .5
    if r.random() < .5:
        mask = mask.astype(int)
    same(im.mask_real_space(a, mask), d[mask.astype(bool)].sum(axis=0), 'sum over the masked positions')
    # apertures
    k = int(r.integers(1, 4))
    cx = [int(x) for x in r.integers(-1, fs[1] + 2, k)]; cy = [int(x) for x in r.integers(-1, fs[0] + 2, k)]
    rad = [int(x) for x in r.integers(1, max(fs) + 2, k)]
    rows, cols = np.mgrid[0:fs[0], 0:fs[1]]
    exp = sum(d[:, :, (rows - y) ** 2 + (cols - x) ** 2 < q * q].sum(axis=-1) for x, y, q in zip(cx, cy, rad))
    if k == 1 and r.random() < .5:
        got = im.virtual_darkfield(a, cx[0], cy[0], rad[0])
    else:
        got = im.virtual_darkfield(a, tuple(cx), tuple(cy), tuple(rad))
    same(got, exp, 'virtual dark field (centres %s %s, radii %s)' % (cx, cy, rad))
    # radial sum
    nb = max(fs) // 2
    if nb >= 1:
        ctr = (int(r.integers(-1, fs[0] + 1)), int(r.integers(-1, fs[1] + 1)))
        if r.random() < .3:
            ctr = (fs[0] / 2, fs[1] / 2)
        dist = np.sqrt((rows - ctr[0]) ** 2 + (cols - ctr[1]) ** 2)
        exp = np.zeros(sh + (nb,), int)
        for b in range(nb):
            m = (dist >= b) & ((dist < b + 1) | ((b == nb - 1) & (dist == nb)))
            exp[:, :, b] = d[:, :, m].sum(axis=-1)
        same(im.radial_sum_sparse(a, ctr), exp, 'radial sum (centre %s)' % (ctr,))
    unchanged(a, s, 'image calculations')


KINDS = {'images': (gen, check)}

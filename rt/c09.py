from frames import *


def gen(rng, tier):
    for rangev in (1, 2, 3, 7, 10, 100, 65535):
        for nb in (1, 2, 3, 5, 7, 10, 49, 98, 100, 103):
            yield dict(seed=int(rng.integers(1 << 30)), n=12, rng=rangev, nb=nb)
    for rangev in (6, 14, 49, 98, 103, 210, 1001):
        for nb in (3, 7, 9, 21, 35, 49, 60, 98, 103, 111):
            yield dict(seed=int(rng.integers(1 << 30)), n=rangev + 1, rng=rangev, nb=nb, full=1)
    while True:
        if rng.integers(3) == 0:
            m = int(rng.integers(2, 400))
            yield dict(seed=int(rng.integers(1 << 30)), n=m + 1, rng=m, nb=int(rng.integers(2, 200)), full=1)
        yield dict(seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 40)), rng=int(rng.choice([0, 1, 5, 60000, int(rng.integers(1, 60000))])),
                   nb=int(rng.integers(1, 130)))


def check(c):
    import stempy.image as im
    r = rng_of(c)
    lo = int(r.integers(0, 65536 - c['rng']))
    vals = r.integers(lo, lo + c['rng'] + 1, c['n'])
    if c.get('full'):
        vals = r.permutation(np.arange(lo, lo + c['rng'] + 1))
    elif c['n'] > 1:
        vals[r.integers(0, c['n'])] = lo
        vals[int(r.integers(0, c['n']))] = lo + c['rng']
    frames = vals.astype(np.uint16).reshape(-1, 1, 1)
    sw = c['n']
    bins, freqs = im.create_stem_histogram(c['nb'], pyreader(frames, range(c['n']), (sw, 1), 5), [0], [4], center=(0, 0))
    b = np.asarray(bins[0], float); f = np.asarray(freqs[0])
    need(len(bins) == 1 and len(freqs) == 1, 'one histogram per radius pair')
    need(b.shape == (c['nb'] + 1,) and f.shape == (c['nb'],), 'sizes %s %s', b.shape, f.shape)
    mn, mx = float(vals.min()), float(vals.max())
    need(b[0] == mn, 'first edge %r, minimum is %r', b[0], mn)
    need(b[-1] == mx, 'last edge %r, maximum is %r', b[-1], mx)
    need((np.diff(b) >= 0).all(), 'edges not ascending')
    close(b, np.linspace(mn, mx, c['nb'] + 1), 'equally spaced edges', rtol=1e-9, atol=1e-9 * max(1, mx))
    if mn < mx:
        exp = np.zeros(c['nb'], int)
        for v in vals:
            j = c['nb'] - 1 if v == mx else int(np.searchsorted(b, v, side='right')) - 1
            exp[j] += 1
        same(f, exp, 'frequencies')
        need(int(f.sum()) == c['n'], 'counts add up to %d, image has %d pixels', int(f.sum()), c['n'])


def gen_shape(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, nb=int(rng.integers(1, 30)))


def check_shape(c):
    """non-square scans with several radius pairs"""
    import stempy.image as im
    from c05 import annulus
    r = rng_of(c)
    n = c['h'] * c['w']
    frames = r.integers(0, 65536, (n, 3, 4)).astype(np.uint16)
    bins, freqs = im.create_stem_histogram(c['nb'], pyreader(frames, range(n), (c['w'], c['h']), 5), [0, 1], [2, 9])
    for k, (a, o) in enumerate(((0, 2), (1, 9))):
        m = annulus(3, 4, a, o, (-1, -1))
        v = frames[:, m].astype(np.int64).sum(axis=1).astype(float)
        need(bins[k][0] == v.min() and bins[k][-1] == v.max(), 'edges run from %r to %r, image from %r to %r', bins[k][0], bins[k][-1], v.min(), v.max())
        if v.min() < v.max():
            b = np.asarray(bins[k])
            exp = np.zeros(c['nb'], int)
            for x in v:
                j = c['nb'] - 1 if x == v.max() else int(np.searchsorted(b, x, side='right')) - 1
                exp[j] += 1
            same(freqs[k], exp, 'frequencies of image %d' % k)


KINDS = {'hist': (gen, check), 'scan': (gen_shape, check_shape)}

from frames import *


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(4, len(SHAPES)))] if rng.random() < .5 else (16, 20)
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, dark=bool(rng.integers(2)), gain=bool(rng.integers(2)),
                   samples=int(rng.integers(1, 6)), dist=str(rng.choice(['gauss', 'gauss', 'wide', 'const', 'ext', 'two'])),
                   frames=int(rng.integers(1, 4)), img=bool(rng.random() < .2))


def check(c):
    from stempy import _image
    import stempy.image as im
    r = rng_of(c)
    h, w, n = c['h'], c['w'], c['frames']
    hi = 65535 if r.random() < .02 else 800
    if c['dist'] == 'gauss':
        f = np.clip(r.normal(100, 8, (h, w)), 0, 65535)
    elif c['dist'] == 'wide':
        f = r.integers(0, hi + 1, (h, w))
    elif c['dist'] == 'const':
        f = np.full((h, w), int(r.choice([0, 7, hi])))
    elif c['dist'] == 'two':
        f = r.choice([0, hi], (h, w))
    else:
        f = np.zeros((h, w)); f.flat[int(r.integers(h * w))] = hi
    f = f.astype(np.uint16)
    if hi < 1000 and r.random() < .9:
        f += 20
    # every frame holds the same (position, value) pairs per pixel, so that the random choice of
    # frames does not matter: the statistics are exact
    frames = np.repeat(f[None], n, 0)
    sane = c['dist'] == 'gauss' or r.random() < .9
    dark = None
    if c['dark']:
        dark = (r.integers(0, 20, (h, w)) if sane else r.integers(-30000, 30001, (h, w)) if hi > 1000 else r.integers(-200, 500, (h, w)) if c['gain'] else r.integers(0, 10, (h, w))).astype(np.float32)
        if r.random() < .3:
            dark = dark + np.float32(0.5)
    gain = None
    if c['gain']:
        gain = (2.0 ** r.integers(-1, 2, (h, w)) if sane else r.uniform(-3, 3, (h, w))).astype(np.float32)
    rd = pyreader(frames, range(n), (n, 1), n)
    blk = rd.read()._block
    nb, nx = float(r.integers(1, 6)), float(r.integers(1, 12))
    args = [[blk] * int(r.integers(1, 3))]
    if dark is not None:
        args.append(dark)
    args += [c['samples'], nb, nx]
    if gain is not None:
        args.append(gain)
    try:
        res = _image.calculate_thresholds(*args)
    except (RuntimeError, MemoryError):
        return                       # no fit: no result, but also no memory error
    v = f.astype(np.float64)
    d = None if dark is None else dark.astype(np.float64)
    if gain is not None:
        # the arithmetic of the pixel type: single precision
        v = f.astype(np.float32)
        if d is not None:
            v = v - dark.astype(np.float32)
        exp = [(v * gain).astype(np.float64)]
    elif d is not None:
        # integer pixels: the dark reference is subtracted as an integer (16 bit)
        exp = [((f.astype(np.int64) - np.trunc(d).astype(np.int64)) % 65536).astype(float)]
    else:
        exp = [v]
    s = np.concatenate([exp[0].ravel()] * c['samples'])
    scale = max(1.0, float(np.abs(s).max()))
    if len(s) < 2:
        return
    mean, var = s.mean(), s.var(ddof=1)

    def chk(name, got, e, rtol=1e-9):
        need(abs(got - e) <= rtol * scale ** (2 if name == 'variance' else 1) + 1e-6, '%s is %r, that of the sample is %r', name, got, e)
    need(res.number_of_samples == c['samples'], 'number of samples')
    chk('mean', res.mean, mean)
    chk('variance', res.variance, var)
    chk('standard deviation', res.std_dev, np.sqrt(var))
    chk('minimum', res.min_sample, s.min())
    chk('x-ray threshold', res.xray_threshold, mean + nx * np.sqrt(var))
    chk('background threshold', res.background_threshold, res.optimized_mean + nb * res.optimized_std_dev)


KINDS = {'stats': (gen, check)}

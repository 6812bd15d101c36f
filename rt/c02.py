from frames import *
from c01 import _native


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, dark=bool(rng.integers(2)),
                   gain=bool(rng.integers(2)), k=str(rng.choice(FRAME_KINDS)))


def setup(c):
    r = rng_of(c)
    f = random_frame(r, c['h'], c['w'], c['k'], hi=1000)
    f = np.minimum(f, 1000).astype(np.uint16)
    # integer-valued dark (the integer path stores integers); may exceed the pixel
    dark = r.integers(0, 40, f.shape).astype(np.float32) if c['dark'] else None
    if dark is not None and c['gain']:
        dark = dark + np.float32(0.5) * r.integers(0, 2, f.shape).astype(np.float32)
    gain = (2.0 ** r.integers(-2, 3, f.shape)).astype(np.float32) if c['gain'] else None
    bg = float(r.integers(0, 30))
    xr = float(r.choice([5, 50, 600, 1001, 30000]))
    v = f.astype(np.float64)
    if dark is not None:
        v = v - dark
    if gain is not None:
        v = v * gain
    # thresholds equal to occurring values, so that strictness matters
    if r.random() < 0.5 and (v > 0).any():
        bg = float(r.choice(v[v >= 0]))
    if r.random() < 0.3 and (v > bg).any():
        xr = float(r.choice(v[v > bg]))
    # thresholds need not be whole numbers: a pixel just below a fractional
    # x-ray threshold survives, a pixel just below a fractional background is 0
    if r.random() < 0.4 and (v > bg).any():
        xr = float(r.choice(v[v > bg])) + 0.5
    if r.random() < 0.3 and (v > 0).any():
        bg = float(r.choice(v[v >= 0])) + float(r.choice([-0.5, 0.5]))
        bg = max(bg, 0.0)
    exp = np.where((v > bg) & (v < xr), v, 0.0)
    return r, f, dark, gain, bg, xr, exp


def check_kernel(c):
    m = _native()
    if m is None:
        return
    r, f, dark, gain, bg, xr, exp = setup(c)
    fn = getattr(m, 'ec_%s%s' % ('f32' if gain is not None else 'u16', '_dark' if dark is not None else ''))
    fl = f.ravel().tolist()
    if gain is not None:
        fl = [float(x) for x in fl]
    ev, out = fn(fl, c['w'], c['h'], [] if dark is None else dark.ravel().tolist(), bg, xr,
                 [] if gain is None else gain.ravel().tolist(), False, 0.0, True)
    same(np.array(out, float).reshape(exp.shape), exp, 'preprocessed frame')
    same(ev, maxima(exp), 'events')


def check_e2e(c):
    if c['h'] * c['w'] < 2:
        return
    from stempy import _image
    r, f, dark, gain, bg, xr, exp = setup(c)
    n = int(r.integers(1, 5))
    frames = np.array([f] + [np.minimum(random_frame(r, c['h'], c['w'], 'rand', hi=900), 1000) for _ in range(n - 1)])
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold = bg
    o.x_ray_threshold = xr
    o.scan_dimensions = (n, 1)
    if dark is not None:
        o.dark_reference = dark
    if gain is not None:
        o.gain = gain
    rd = pyreader(frames, range(n), (n, 1), int(r.integers(1, n + 1)))
    d = _image.electron_count(rd.begin(), rd.end(), o)
    for i in range(n):
        v = frames[i].astype(np.float64)
        if dark is not None:
            v = v - dark
        if gain is not None:
            v = v * gain
        exp = np.where((v > bg) & (v < xr), v, 0.0)
        same(d.data[i][0], maxima(exp), 'events of frame %d' % i)


def gen_api(rng, tier):
    for i in range(40 if tier == 'quick' else 400):
        yield dict(seed=int(rng.integers(1 << 30)), dark=bool(i % 2), gain=bool(i // 2 % 2),
                   order='F' if i // 4 % 2 else 'C')


def check_api(c):
    """the public electron_count: dark/gain of any memory order are applied per pixel"""
    import stempy.image as im
    r = rng_of(c)
    h, w = (12, 12) if r.random() < 0.5 else (10, 14)
    n = 6
    frames = np.clip(r.normal(100, 8, (n, h, w)), 0, 65535)
    hits = r.random((n, h, w)) < 0.05
    frames[hits] += r.integers(60, 90, hits.sum())
    frames = frames.astype(np.uint16)
    dark = np.asarray(r.integers(0, 60, (h, w)), np.float32, order=c['order']) if c['dark'] else None
    gain = np.asarray(2.0 ** r.integers(-1, 2, (h, w)), np.float32, order=c['order']) if c['gain'] else None
    rd = pyreader(frames, range(n), (n, 1), 3)
    try:
        sa = im.electron_count(rd, darkreference=dark, gain=gain, number_of_samples=30,
                               scan_dimensions=(n, 1))
    except RuntimeError:
        return              # the fit did not converge: no claim
    md = sa._electron_counted_data
    # thresholds are random (sampling); recover them by recounting with given thresholds
    from stempy import _image
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold = 70.0
    o.x_ray_threshold = 5000.0
    o.scan_dimensions = (n, 1)
    if dark is not None:
        o.dark_reference = im._safe_cast(dark, np.float32, 'dark')
    if gain is not None:
        o.gain = im._safe_cast(np.power(gain, -1), np.float32, 'gain')
    rd.reset()
    d = _image.electron_count(rd.begin(), rd.end(), o)
    for i in range(n):
        v = frames[i].astype(float)
        if dark is not None:
            v = v - dark
        if gain is not None:
            v = v / gain
        exp = np.where((v > 70.0) & (v < 5000.0), v, 0.0)
        same(d.data[i][0], maxima(exp), 'events of frame %d' % i)


KINDS = {'kernel': (gen, check_kernel), 'driver': (gen, check_e2e), 'api': (gen_api, check_api)}

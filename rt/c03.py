from frames import *
from c01 import _native


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, dark=bool(rng.integers(2)),
                   gain=bool(rng.integers(2)), mean=bool(rng.integers(2)))


def oracle(f, dark, gain, bg, xr, om, use_mean, integral):
    h, w = f.shape
    out = np.zeros((h, w))
    margin = np.inf
    for r in range(h):
        for a, b in ((0, w // 2), (w // 2, w)):
            if b == a:
                continue
            part = f[r, a:b].astype(np.float64)
            s = np.float32(part.mean() if use_mean else np.median(part))
            for c in range(a, b):
                v = float(f[r, c])
                if dark is not None:
                    v = v - dark[r, c]
                v = v * (np.float32(om) / s)
                if integral:
                    fr = v - np.floor(v)
                    # truncation to an integer pixel: stay away from rounding edges
                    margin = min(margin, 1.0 if v == np.floor(v) and s == om else min(fr, 1 - fr) if fr else 1e-9)
                    v = np.floor(v)
                if gain is not None:
                    v = v * gain[r, c]
                margin = min(margin, abs(v - bg), abs(v - xr))
                out[r, c] = v if bg < v < xr else 0.0
    return out, margin


def setup(c):
    r = rng_of(c)
    f = r.integers(40, 400, (c['h'], c['w'])).astype(np.uint16)
    dark = r.integers(0, 30, f.shape).astype(np.float32) if c['dark'] else None
    gain = (2.0 ** r.integers(-1, 2, f.shape)).astype(np.float32) if c['gain'] else None
    bg = float(r.integers(10, 60)) + 0.37
    xr = float(r.integers(150, 600)) + 0.41
    om = float(r.integers(60, 200))
    return r, f, dark, gain, bg, xr, om


def check_kernel(c):
    m = _native()
    if m is None:
        return
    r, f, dark, gain, bg, xr, om = setup(c)
    exp, margin = oracle(f, dark, gain, bg, xr, om, c['mean'], gain is None)
    if margin < 1e-3:
        return
    fn = getattr(m, 'ec_%s%s' % ('f32' if gain is not None else 'u16', '_dark' if dark is not None else ''))
    fl = f.ravel().tolist()
    if gain is not None:
        fl = [float(x) for x in fl]
    ev, out = fn(fl, c['w'], c['h'], [] if dark is None else dark.ravel().tolist(), bg, xr,
                 [] if gain is None else gain.ravel().tolist(), True, om, c['mean'])
    close(np.array(out, float).reshape(exp.shape), exp, 'row-dark corrected frame', rtol=1e-5)


def check_e2e(c):
    from stempy import _image
    if c['h'] * c['w'] < 2:
        return
    r, f, dark, gain, bg, xr, om = setup(c)
    exp, margin = oracle(f, dark, gain, bg, xr, om, c['mean'], gain is None)
    vals = np.sort(np.unique(exp))
    if margin < 1e-3 or (len(vals) > 1 and np.diff(vals).min() < 1e-3):
        return
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold = bg
    o.x_ray_threshold = xr
    o.scan_dimensions = (1, 1)
    o.apply_row_dark_subtraction = True
    o.apply_row_dark_use_mean = c['mean']
    o.optimized_mean = om
    if dark is not None:
        o.dark_reference = dark
    if gain is not None:
        o.gain = gain
    rd = pyreader(f[None], [0], (1, 1), 1)
    d = _image.electron_count(rd.begin(), rd.end(), o)
    same(d.data[0][0], maxima(exp), 'events after row-dark correction')


KINDS = {'kernel': (gen, check_kernel), 'driver': (gen, check_e2e)}

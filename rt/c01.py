from frames import *


def _native():
    try:
        import _verif
        return _verif
    except ImportError:
        return None


def gen(rng, tier):
    # small exhaustive family first: all shapes x kinds
    for s in SHAPES:
        for k in FRAME_KINDS:
            yield dict(seed=int(rng.integers(1 << 30)), h=s[0], w=s[1], k=k)
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), h=int(rng.integers(1, 14)),
                   w=int(rng.integers(1, 14)), k=str(rng.choice(FRAME_KINDS)))


def check_kernel(c):
    m = _native()
    if m is None:
        return
    r = rng_of(c)
    f = random_frame(r, c['h'], c['w'], c['k'])
    same(m.mp_u16(f.ravel().tolist(), c['w'], c['h']), maxima(f), 'maxima (uint16)')
    g = f.astype(np.float32) / np.float32(7) - np.float32(r.integers(0, 3))
    same(m.mp_f32(g.ravel().tolist(), c['w'], c['h']), maxima(g), 'maxima (float)')


def gen_e2e(rng, tier):
    for c in gen(rng, tier):
        if c['h'] * c['w'] >= 2:
            yield c


def check_e2e(c):
    from stempy import _image
    r = rng_of(c)
    frames = np.array([random_frame(r, c['h'], c['w'], c['k']) for _ in range(3)])
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold = 0.0
    o.x_ray_threshold = 1e9
    o.scan_dimensions = (3, 1)
    if r.random() < 0.5:
        o.dark_reference = np.zeros((c['h'], c['w']), np.float32)
    if r.random() < 0.5:
        o.gain = np.ones((c['h'], c['w']), np.float32)
    rd = pyreader(frames, range(3), (3, 1), int(r.integers(1, 4)))
    d = _image.electron_count(rd.begin(), rd.end(), o)
    for i in range(3):
        same(d.data[i][0], maxima(frames[i]), 'events of frame %d' % i)


def gen_big(rng, tier):
    for h, w in ((64, 64), (37, 91), (130, 70), (300, 257), (576, 576)):
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w)


def check_big(c):
    m = _native()
    if m is None:
        return
    r = rng_of(c)
    f = r.integers(0, 50, (c['h'], c['w'])).astype(np.uint16)
    p = np.full((c['h'] + 2, c['w'] + 2), -1)
    p[1:-1, 1:-1] = f
    ok = np.ones(f.shape, bool)
    for a in range(3):
        for b in range(3):
            if (a, b) != (1, 1):
                ok &= f > p[a:a + c['h'], b:b + c['w']]
    same(m.mp_u16(f.ravel().tolist(), c['w'], c['h']), np.flatnonzero(ok), 'maxima (large)')


KINDS = {'kernel': (gen, check_kernel), 'counted': (gen_e2e, check_e2e), 'large': (gen_big, check_big)}

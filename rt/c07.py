import os, tempfile
from frames import *
import math


def expected(frames, pos, n, h, w, center):
    cx = int(np.floor(w / 2 + 0.5)) if center[0] < 0 else center[0]
    cy = int(np.floor(h / 2 + 0.5)) if center[1] < 0 else center[1]
    y, x = np.mgrid[0:h, 0:w]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    rad = np.array([[math.isqrt(int(v) - 1) + 1 if v else 0 for v in row] for row in d2])
    out = {}
    for p, f in zip(pos, frames):
        for k in range(rad.max() + 1):
            s = int(f[rad == k].astype(np.uint64).sum())
            if s:
                out[(k, int(p))] = s
    return out, int(rad.max())


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=int(rng.integers(1, 5)), sh=int(rng.integers(1, 5)),
                   src=str(rng.choice(['py', 'v1'])), missing=int(rng.integers(0, 3)))


def verify(rs, frames, pos, c, center):
    n = c['sw'] * c['sh']
    exp, rmax = expected(frames, pos, n, c['h'], c['w'], center)
    need(rs.ndim == 3 and rs.shape[1:] == (c['sh'], c['sw']), 'result shape %s', rs.shape)
    need(rs.shape[0] > rmax, 'radius axis %d too short for radius %d', rs.shape[0], rmax)
    full = np.zeros(rs.shape, np.uint64)
    for (k, p), v in exp.items():
        full[k, p // c['sw'], p % c['sw']] = v
    same(rs, full, 'radial sum (centre %s)' % (center,))


def check(c):
    import stempy.image as im
    import stempy.io as sio
    r = rng_of(c)
    n = c['sw'] * c['sh']
    pos = r.permutation(n)[:max(1, n - c['missing'])]
    frames = np.array([random_frame(r, c['h'], c['w'], str(r.choice(['rand', 'small']))) for _ in pos])
    center = (-1 if r.random() < .3 else int(r.integers(0, c['w'])), -1 if r.random() < .3 else int(r.integers(0, c['h'])))
    with tempfile.TemporaryDirectory() as td:
        if c['src'] == 'py':
            rs = im.radial_sum(pyreader(frames, pos, (c['sw'], c['sh']), int(r.integers(1, len(pos) + 1))), center=center)
        else:
            files = []
            for k, p in enumerate(perm_partition(r, len(pos))):
                files.append(os.path.join(td, 'f%d' % k))
                write_v1(files[-1], [([int(pos[i]) for i in p], frames[list(p)])])
            rs = im.radial_sum(sio.reader(files, version=1), center=center, scan_dimensions=(c['sw'], c['sh']))
    verify(rs, frames, pos, c, center)


def gen_big(rng, tier):
    for h, w in ((130, 260), (257, 64), (576, 576)):
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=2, sh=3)


def check_big(c):
    import stempy.image as im
    r = rng_of(c)
    frames = r.integers(0, 65536, (6, c['h'], c['w'])).astype(np.uint16)
    frames[2] = 65535
    pos = r.permutation(6)
    center = (int(r.integers(0, c['w'])), 0)
    rs = im.radial_sum(pyreader(frames, pos, (2, 3), 2), center=center)
    verify(rs, frames, pos, c, center)


KINDS = {'radial': (gen, check), 'large': (gen_big, check_big)}

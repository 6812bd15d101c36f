import os, tempfile
from frames import *


def annulus(h, w, inner, outer, center):
    cx = int(np.floor(w / 2 + 0.5)) if center[0] < 0 else center[0]
    cy = int(np.floor(h / 2 + 0.5)) if center[1] < 0 else center[1]
    y, x = np.mgrid[0:h, 0:w]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    return (d2 >= inner ** 2) & (d2 < outer ** 2)


def rand_center(r, h, w):
    k = r.integers(0, 6)
    if k == 0:
        return (-1, -1)
    if k == 1:
        return (-1, int(r.integers(0, h)))
    if k == 2:
        return (int(r.integers(0, w)), -1)
    if k == 3:
        return (int(r.integers(w, 2 * w + 3)), int(r.integers(h, 2 * h + 3)))
    return (int(r.integers(0, w)), int(r.integers(0, h)))


def rand_radii(r, h, w):
    n = int(r.integers(1, 4))
    inner, outer = [], []
    for _ in range(n):
        a = int(r.integers(0, max(h, w) + 1)); b = int(r.integers(0, max(h, w) + 3))
        if r.random() < 0.8 and a > b:
            a, b = b, a
        inner.append(a); outer.append(b)
    return inner, outer


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=int(rng.integers(1, 5)), sh=int(rng.integers(1, 5)),
                   src=str(rng.choice(['py', 'nd', 'v1'])), missing=int(rng.integers(0, 3)))


def check(c):
    import stempy.image as im
    import stempy.io as sio
    r = rng_of(c)
    n = c['sw'] * c['sh']
    pos = r.permutation(n)
    if c['src'] == 'nd':
        pos = np.arange(n)
    pos = pos[:max(1, n - c['missing'])]
    frames = np.array([random_frame(r, c['h'], c['w'], str(r.choice(['rand', 'small', 'spike']))) for _ in pos])
    inner, outer = rand_radii(r, c['h'], c['w'])
    center = rand_center(r, c['h'], c['w'])
    with tempfile.TemporaryDirectory() as td:
        if c['src'] == 'py':
            src = pyreader(frames, pos, (c['sw'], c['sh']), int(r.integers(1, len(pos) + 1)))
            imgs = im.create_stem_images(src, inner, outer, center=center)
        elif c['src'] == 'nd':
            imgs = im.create_stem_images(frames, inner, outer, scan_dimensions=(c['sw'], c['sh']), center=center)
        else:
            files = []
            for k, p in enumerate(perm_partition(r, len(pos))):
                path = os.path.join(td, 'f%d' % k)
                files.append(path)
                write_v1(path, [([int(pos[i]) for i in p], frames[list(p)])])
            imgs = im.create_stem_images(sio.reader(files, version=1), inner, outer,
                                         scan_dimensions=(c['sw'], c['sh']), center=center)
    need(len(imgs) == len(inner), 'one image per radius pair')
    for k in range(len(inner)):
        m = annulus(c['h'], c['w'], inner[k], outer[k], center)
        exp = np.zeros(n, np.uint64)
        for p, f in zip(pos, frames):
            exp[p] = f[m].astype(np.uint64).sum()
        same(imgs[k], exp.reshape(c['sh'], c['sw']), 'STEM image %d (radii %d,%d centre %s)' % (k, inner[k], outer[k], center))


def gen_big(rng, tier):
    for h, w in ((300, 300), (257, 410)):
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w)
    for h, w in ((70, 700), (576, 576), (33, 1200)):
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w)


def check_big(c):
    import stempy.image as im
    r = rng_of(c)
    frames = np.full((3, c['h'], c['w']), 65535, np.uint16)
    frames[1] = r.integers(0, 65536, (c['h'], c['w']))
    inner, outer = [0, 3, 40], [5000, 17, 200]
    imgs = im.create_stem_images(frames, inner, outer, scan_dimensions=(3, 1))
    for k in range(3):
        m = annulus(c['h'], c['w'], inner[k], outer[k], (-1, -1))
        same(imgs[k].ravel(), [int(f[m].astype(np.uint64).sum()) for f in frames], 'STEM image %d, large frame' % k)


def gen_block(rng, tier):
    for nf, b in ((70, 32), (64, 64), (33, 7), (100, 1)):
        yield dict(seed=int(rng.integers(1 << 30)), nf=nf, b=b)


def check_block(c):
    """many frames, many blocks"""
    import stempy.image as im
    r = rng_of(c)
    frames = r.integers(0, 65536, (c['nf'], 4, 5)).astype(np.uint16)
    pos = r.permutation(c['nf'])
    imgs = im.create_stem_images(pyreader(frames, pos, (c['nf'], 1), c['b']), [0, 1], [3, 9])
    for k, (a, b) in enumerate(((0, 3), (1, 9))):
        m = annulus(4, 5, a, b, (-1, -1))
        exp = np.zeros(c['nf'], np.uint64)
        exp[pos] = frames[:, m].astype(np.uint64).sum(axis=1)
        same(imgs[k].ravel(), exp, 'STEM image over many blocks')


KINDS = {'images': (gen, check), 'large': (gen_big, check_big), 'blocks': (gen_block, check_block)}

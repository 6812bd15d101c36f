from frames import *
from c05 import annulus, rand_center, rand_radii


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(4, len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=int(rng.integers(1, 5)), sh=int(rng.integers(1, 5)),
                   nf=int(rng.integers(1, 4)), src=str(rng.choice(['sparse', 'nd', 'nd1', 'ecd', 'ecd1', 'strided'])))


def check(c):
    import stempy.image as im
    from stempy.io import SparseArray
    from collections import namedtuple
    r = rng_of(c)
    n = c['sw'] * c['sh']
    if c['src'] in ('nd1', 'ecd1'):
        c = dict(c, nf=1)
    data = sparse(r, n, c['nf'], c['h'] * c['w'])
    if c['src'] == 'strided':
        for i in range(n):
            for j in range(c['nf']):
                data[i, j] = np.repeat(data[i, j], 2)[::2]
    inner, outer = rand_radii(r, c['h'], c['w'])
    center = rand_center(r, c['h'], c['w'])
    if c['src'] in ('sparse', 'strided'):
        sa = SparseArray(data, (c['sh'], c['sw']), (c['h'], c['w']))
        imgs = im.create_stem_images(sa, inner, outer, center=center)
    elif c['src'] in ('nd', 'nd1'):
        x = data[:, 0] if c['src'] == 'nd1' else data
        imgs = im.create_stem_images(x, inner, outer, scan_dimensions=(c['sw'], c['sh']),
                                     frame_dimensions=(c['w'], c['h']), center=center)
    else:
        ECD = namedtuple('ECD', ['data', 'scan_dimensions', 'frame_dimensions'])
        x = data[:, 0] if c['src'] == 'ecd1' else data
        imgs = im.create_stem_images(ECD(x, (c['sw'], c['sh']), (c['w'], c['h'])), inner, outer, center=center)
    full = dense(data, (n,), (c['h'], c['w']))
    for k in range(len(inner)):
        m = annulus(c['h'], c['w'], inner[k], outer[k], center)
        exp = full[:, m].sum(axis=1).astype(np.uint64) * 65535
        same(imgs[k], exp.reshape(c['sh'], c['sw']), 'sparse STEM image %d (radii %d,%d centre %s)' % (k, inner[k], outer[k], center))


def gen_counted(rng, tier):
    for i in range(12 if tier == 'quick' else 200):
        h, w = [(8, 8), (6, 11), (11, 6)][i % 3]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w)


def check_counted(c):
    """counted-data object and sparse array give the same images"""
    import stempy.image as im
    from stempy.io import SparseArray
    r = rng_of(c)
    n = 6
    frames = np.clip(r.normal(100, 9, (n, c['h'], c['w'])), 0, 60000).astype(np.uint16)
    hits = r.random(frames.shape) < 0.05
    frames[hits] += r.integers(80, 100, hits.sum()).astype(np.uint16)
    try:
        sa = im.electron_count(pyreader(frames, r.permutation(n), (3, 2), 4), number_of_samples=20,
                               darkreference=np.zeros((c['h'], c['w'])))
    except RuntimeError:
        return
    a = im.create_stem_images(sa, [0, 1], [3, 6])
    sb = SparseArray(sa.data, (2, 3), (c['h'], c['w']))
    b = im.create_stem_images(sb, [0, 1], [3, 6])
    same(a, b, 'counted-data images vs sparse-array images')
    full = dense(sa.data, (n,), (c['h'], c['w']))
    for k, (p, q) in enumerate(((0, 3), (1, 6))):
        m = annulus(c['h'], c['w'], p, q, (-1, -1))
        same(a[k].ravel(), full[:, m].sum(axis=1) * 65535, 'counted-data STEM image')


KINDS = {'images': (gen, check), 'counted': (gen_counted, check_counted)}

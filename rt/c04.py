import os, tempfile
from frames import *


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(4, len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=int(rng.integers(1, 5)),
                   sh=int(rng.integers(1, 5)), src=str(rng.choice(['py', 'v1', 'v1multi'])),
                   missing=int(rng.integers(0, 3)), given=bool(rng.integers(2)))


def check(c):
    from stempy import _image
    import stempy.io as sio
    r = rng_of(c)
    n = c['sw'] * c['sh']
    pos = r.permutation(n) if r.random() < 0.7 else np.arange(n)
    pos = pos[:max(1, n - c['missing'])]
    frames = np.array([random_frame(r, c['h'], c['w'], 'rand', hi=500) for _ in pos])
    o = _image.ElectronCountOptionsClassic()
    o.background_threshold = 5.0
    o.x_ray_threshold = 1e6
    given = c['given'] or c['src'] != 'py'
    if given:
        o.scan_dimensions = (c['sw'], c['sh'])
    hdr = (c['sw'], c['sh'])
    if given and c['src'] == 'py':
        hdr = (9, 9)                  # the given dimensions win over the header's
    with tempfile.TemporaryDirectory() as td:
        if c['src'] == 'py':
            rd = pyreader(frames, pos, hdr, int(r.integers(1, len(pos) + 1)))
        else:
            parts = perm_partition(r, len(pos))
            files = []
            for k, p in enumerate(parts):
                path = os.path.join(td, 'f%d' % (k if c['src'] == 'v1multi' else 0))
                if path not in files:
                    files.append(path)
                write_v1(path, [([int(pos[i]) for i in p], frames[list(p)])])
            rd = sio.reader(files, version=1)
        d = _image.electron_count(rd.begin(), rd.end(), o)
    need(len(d.data) == n, 'counted %d positions, scan has %d', len(d.data), n)
    same(d.scan_dimensions, (c['sw'], c['sh']), 'scan dimensions')
    same(d.frame_dimensions, (c['w'], c['h']), 'frame dimensions')
    exp = {int(p): maxima(np.where(f > 5, f, 0)) for p, f in zip(pos, frames)}
    for p in range(n):
        got = [int(x) for fr in d.data[p] for x in fr]
        same(got, exp.get(p, []), 'events at position %d' % p)


def gen_api(rng, tier):
    shapes = [(8, 8), (6, 10), (10, 6), (5, 12)]
    for i in range(24 if tier == 'quick' else 300):
        h, w = shapes[i % 4]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, sw=int(rng.integers(1, 4)), sh=int(rng.integers(1, 4)))


def check_api(c):
    import stempy.image as im
    r = rng_of(c)
    n = c['sw'] * c['sh']
    frames = np.clip(r.normal(100, 9, (n, c['h'], c['w'])), 0, 60000).astype(np.uint16)
    hits = r.random(frames.shape) < 0.05
    frames[hits] += r.integers(80, 100, hits.sum()).astype(np.uint16)
    pos = r.permutation(n)
    rd = pyreader(frames, pos, (c['sw'], c['sh']), int(r.integers(1, n + 1)))
    try:
        sa = im.electron_count(rd, number_of_samples=20, darkreference=np.zeros((c['h'], c['w'])))
    except RuntimeError:
        return
    same(sa.scan_shape, (c['sh'], c['sw']), 'scan shape')
    same(sa.frame_shape, (c['h'], c['w']), 'frame shape (rows, columns)')
    need(sa.data.shape[0] == n, 'number of positions')
    same(sa.to_dense().shape, (c['sh'], c['sw'], c['h'], c['w']), 'dense shape')
    for p in range(n):
        src = frames[list(pos).index(p)]
        mx = set(maxima(src))
        got = [int(x) for f in sa.data[p] for x in f]
        need(len(set(got)) == len(got), 'repeated events at position %d', p)
        # thresholded maxima: every event is a maximum of that frame or isolated by thresholding
        for e in got:
            row, col = divmod(e, c['w'])
            need(row < c['h'], 'event outside the frame')
            need(e in mx, 'event %d at position %d is no maximum of its frame', e, p)


KINDS = {'driver': (gen, check), 'api': (gen_api, check_api)}

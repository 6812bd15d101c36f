import os, tempfile
from frames import *

N576 = 576 * 576


def write_v3(path, blocks):
    """blocks: (scan number, frame number, (scan w, h), (x, y), frame 576x576)"""
    with open(path, 'ab') as f:
        for sn, fn, sc, xy, fr in blocks:
            f.write(np.array([sn, fn], '<u4').tobytes())
            f.write(np.array([sc[0], sc[1], xy[0], xy[1]], '<u2').tobytes())
            f.write(np.ascontiguousarray(fr, '<u2').tobytes())


def expect(b, nums, fr, what, scan=None, version=None):
    need(b is not None, '%s: end of data instead of a block', what)
    same(list(b.header.image_numbers), nums, what + ': image numbers')
    need(b.header.images_in_block == len(nums), '%s: images in block', what)
    same(b.header.frame_dimensions, (fr.shape[2], fr.shape[1]), what + ': frame dimensions')
    if version is not None:
        need(b.header.version == version, '%s: version', what)
    if scan is not None:
        same(b.header.scan_dimensions, scan, what + ': scan dimensions')
    need(b.data.dtype == np.uint16, '%s: dtype', what)
    same(b.data, fr, what + ': pixels')


def gen_v1(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, nb=int(rng.integers(1, 6)), files=int(rng.integers(1, 4)),
                   trunc=bool(rng.random() < 0.4), big=bool(rng.random() < 0.05))


def check_v1(c):
    import stempy.io as sio
    r = rng_of(c)
    with tempfile.TemporaryDirectory() as td:
        files = [os.path.join(td, 'f%d' % i) for i in range(c['files'])]
        for f in files:
            open(f, 'wb').close()
        blocks, where = [], np.sort(r.integers(0, c['files'], c['nb']))
        ends = {}
        for k in range(c['nb']):
            # the shape may differ from block to block
            h, w = (c['h'], c['w']) if r.random() < 0.8 else (c['h'] + 1, c['w'] + 2)
            n = int(r.integers(1, 6)) if not c['big'] else int(r.choice([1014, 200]))
            fr = r.integers(0, 65536, (n, h, w)).astype(np.uint16)
            nums = r.integers(0, 1 << 20, n)
            if r.random() < .3:
                nums = np.arange(n) + k * n
            write_v1(files[where[k]], [(nums, fr)])
            blocks.append((nums, fr))
            ends[k] = os.path.getsize(files[where[k]])
        stop, err = c['nb'], False
        if c['trunc']:
            lasts = [k for k in range(c['nb']) if k == c['nb'] - 1 or where[k + 1] != where[k]]
            k = int(r.choice(lasts))
            size = 4096 + blocks[k][1].nbytes
            choices = [1, 4095, 4096, size - 1, size - 2, int(r.integers(1, size))]
            cut = ends[k] - size + int(r.choice(choices))
            os.truncate(files[where[k]], cut)
            stop, err = k, True
        rd = sio.reader(files if c['files'] > 1 or r.random() < .5 else files[0], version=1)

        def readto(m):
            for k in range(m):
                expect(rd.read(), blocks[k][0], blocks[k][1], 'block %d' % k, version=1)
        for _ in range(int(r.integers(0, 3))):
            readto(int(r.integers(0, stop + 1)))
            rd.reset()
        readto(stop)
        if err:
            try:
                b = rd.read()
            except Exception:
                b = 'error'
            need(b == 'error', 'truncated block %d was returned as %s', stop, 'a block' if b else 'end of data')
        else:
            for _ in range(2):
                need(rd.read() is None, 'a block after the end')
            if r.random() < .5:
                rd.reset()
                readto(stop)


def gen_v3(rng, tier):
    for i in range(6 if tier == 'quick' else 60):
        yield dict(seed=int(rng.integers(1 << 30)), nb=int(rng.integers(1, 4)), files=int(rng.integers(1, 3)), trunc=bool(i % 2))


def check_v3(c):
    import stempy.io as sio
    r = rng_of(c)
    with tempfile.TemporaryDirectory() as td:
        files = [os.path.join(td, 'g%d' % i) for i in range(c['files'])]
        for f in files:
            open(f, 'wb').close()
        where = np.sort(r.integers(0, c['files'], c['nb']))
        bl = []
        for k in range(c['nb']):
            sc = (int(r.integers(1, 300)), int(r.integers(1, 300)))
            if k == 0 and r.random() < .5:
                sc = (1024, 1024)
            xy = (int(r.integers(0, sc[0])), int(r.integers(0, sc[1])))
            fr = r.integers(0, 65536, (576, 576)).astype(np.uint16)
            bl.append((7, k + 1, sc, xy, fr))
            write_v3(files[where[k]], [bl[-1]])
        stop = c['nb']
        if c['trunc']:
            os.truncate(files[where[-1]], os.path.getsize(files[where[-1]]) - int(r.choice([1, 2 * N576, 2 * N576 + 3])))
            stop -= 1
        rd = sio.reader(files, version=3)
        for rep in range(2):
            for k in range(stop):
                _, _, sc, xy, fr = bl[k]
                expect(rd.read(), [xy[1] * sc[0] + xy[0]], fr[None], 'v3 block %d' % k, scan=sc, version=3)
            if c['trunc']:
                try:
                    b = rd.read()
                except Exception:
                    b = 'error'
                need(b == 'error', 'truncated v3 block was returned as %s', 'a block' if b else 'end of data')
            else:
                need(rd.read() is None, 'a block after the end')
            rd.reset()


def gen_v2(rng, tier):
    yield dict(seed=int(rng.integers(1 << 30)), trunc=True)
    yield dict(seed=int(rng.integers(1 << 30)), trunc=False)


def check_v2(c):
    import stempy.io as sio
    r = rng_of(c)
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, 'v2')
        marks = []
        with open(p, 'wb') as f:
            f.write(np.array([12345], '<u4').tobytes())
            for _ in range(20):
                i, px, v = int(r.integers(0, 3 if c['trunc'] else 1600)), int(r.integers(N576)), int(r.integers(1, 65536))
                f.seek(4 + 2 * (i * N576 + px))
                f.write(np.array([v], '<u2').tobytes())
                marks = [m for m in marks if m[:2] != (i, px)] + [(i, px, v)]
            f.truncate(4 + 2 * 1600 * N576 - (2 * 1590 * N576 + 1 if c['trunc'] else 0))
        rd = sio.reader(p, version=2)
        if c['trunc']:
            try:
                b = rd.read()
            except Exception:
                b = 'error'
            need(b == 'error', 'truncated v2 block returned')
            return
        b = rd.read()
        need(b is not None, 'no block')
        same(list(b.header.image_numbers), np.arange(1600), 'v2 image numbers')
        same(b.data.shape, (1600, 576, 576), 'v2 block shape')
        for i, px, v in marks:
            need(b.data[i, px // 576, px % 576] == v, 'v2 pixel %d of frame %d', px, i)
        tot = sum(m[2] for m in marks)
        need(int(b.data[::1].sum(dtype=np.int64)) == tot, 'v2 pixel sum')
        need(rd.read() is None, 'a block after the end')


KINDS = {'v3': (gen_v3, check_v3), 'v2': (gen_v2, check_v2), 'v1': (gen_v1, check_v1)}

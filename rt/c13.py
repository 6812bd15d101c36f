import os, tempfile
from frames import *

LAYOUTS = ['C', 'F', 'strided', 'transposed', 'negative', 'h5', 'h5reader', 'list', 'int32', 'bigendian']


def gen(rng, tier):
    i = 0
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, n=int(rng.integers(1, 14)), layout=LAYOUTS[i % len(LAYOUTS)],
                   b=int(rng.integers(1, 7)))
        i += 1


class DS:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, s):
        return self.a[s]


def check(c):
    import stempy.io as sio, h5py
    r = rng_of(c)
    n, h, w, lay = c['n'], c['h'], c['w'], c['layout']
    if lay in ('h5reader', 'h5') and r.random() < .5:
        n = int(r.choice([31, 32, 33, 64, 65, 70]))
    fr = r.integers(0, 65536, (n, h, w)).astype(np.uint16)
    nums = [int(x) for x in r.permutation(n)]
    b = min(c['b'], n + 2)
    with tempfile.TemporaryDirectory() as td:
        ds, f = fr, None
        if lay == 'F':
            ds = np.asfortranarray(fr)
        elif lay == 'strided':
            big = np.zeros((n, h * 2, w * 3), np.uint16); big[:, ::2, ::3] = fr
            ds = big[:, ::2, ::3]
        elif lay == 'transposed':
            ds = np.ascontiguousarray(fr.transpose(2, 0, 1)).transpose(1, 2, 0)
        elif lay == 'negative':
            ds = np.ascontiguousarray(fr[:, ::-1, ::-1])[:, ::-1, ::-1]
        elif lay == 'list':
            ds = DS(fr)
        elif lay == 'int32':
            ds = fr.astype(np.int32)
        elif lay == 'bigendian':
            ds = fr.astype('>u2')
        elif lay in ('h5', 'h5reader'):
            f = h5py.File(os.path.join(td, 'x.h5'), 'w')
            ds = f.create_dataset('frames', data=fr)
            ds.attrs['scan_dimensions'] = (n, 1)
            if r.random() < .5:
                f.create_dataset('scan_positions', data=np.array(nums))
            elif lay == 'h5reader':
                nums = list(range(n))
        if lay == 'h5reader':
            rd, b = sio.reader(f), 32
        else:
            rd = sio.PyReader(ds, nums, (n, 1), b, n)

        def full(limit=None):
            i, k = 0, 0
            while limit is None or k < limit:
                blk = rd.read()
                if blk is None:
                    need(i == n, 'the data ended after frame %d of %d', i, n)
                    return
                m = min(b, n - i)
                need(m > 0, 'a block after the last frame')
                need(blk.header.images_in_block == m, 'block at frame %d has %d images, expected %d', i, blk.header.images_in_block, m)
                same(list(blk.header.image_numbers), nums[i:i + m], 'image numbers of the block at frame %d' % i)
                same(blk.header.frame_dimensions, (w, h), 'frame dimensions')
                same(blk.header.scan_dimensions, (n, 1), 'scan dimensions')
                same(blk.data, fr[i:i + m], 'pixels of the block at frame %d (%s)' % (i, lay))
                i += m; k += 1
        for _ in range(int(r.integers(0, 3))):
            full(int(r.integers(0, n // b + 3)))
            rd.reset()
        full()
        need(rd.read() is None, 'a block after the end')
        if f is not None:
            del rd
            f.close()


KINDS = {'blocks': (gen, check)}

import os, tempfile
from frames import *

W = H = 576


def sector_of(frame, k, version):
    return frame[:, k * 144:(k + 1) * 144] if version == 4 else frame[k * 144:(k + 1) * 144, :]


def write_sector(f, scan_no, frame_no, scan, x, y, px):
    f.write(np.array([scan_no, frame_no], '<u4').tobytes())
    f.write(np.array([scan[0], scan[1], x, y], '<u2').tobytes())
    f.write(np.ascontiguousarray(px, '<u2').tobytes())


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        yield dict(seed=int(rng.integers(1 << 30)), version=4 + i % 2, n=int(rng.integers(1, 5)),
                   miss=float(rng.choice([0, 0, .2, .5])), per=int(rng.integers(1, 3)), reset=bool(rng.random() < .4))


def check(c):
    import stempy.io as sio
    r = rng_of(c)
    sw = int(r.integers(2, 9)); sh = int(r.integers(2, 9))
    pos = r.choice(sw * sh, size=min(c['n'], sw * sh), replace=False)
    base = r.integers(0, 65536, (len(pos), H, W)).astype(np.uint16)
    have = r.random((len(pos), 4)) >= c['miss']
    have[np.arange(len(pos)), r.integers(0, 4, len(pos))] |= ~have.any(axis=1)
    with tempfile.TemporaryDirectory() as td:
        files, handles = [], {}
        for k in range(4):
            for q in range(c['per']):
                path = os.path.join(td, 'data_module%d_scan%d.data' % (k, q))
                files.append(path); handles[k, q] = open(path, 'wb')
        for k in range(4):
            order = r.permutation(len(pos)) if r.random() < .6 else np.arange(len(pos))
            for i in order:
                if have[i, k]:
                    q = int(r.integers(c['per']))
                    write_sector(handles[k, q], 3, i + 1, (sw, sh), pos[i] % sw, pos[i] // sw,
                                 sector_of(base[i], k, c['version']))
        for f in handles.values():
            f.close()
        files = [files[i] for i in r.permutation(len(files))]
        rd = sio.reader(files, version=c['version'])
        exp = {}
        for i, p in enumerate(pos):
            fr = np.zeros((H, W), np.uint16)
            for k in range(4):
                if have[i, k]:
                    sector_of(fr, k, c['version'])[...] = sector_of(base[i], k, c['version'])
            exp[int(p)] = (fr, have[i].all())
        if c['reset']:
            for _ in range(int(r.integers(1, len(pos) + 2))):
                rd.read()
            rd.reset()
        got, partial = [], False
        while True:
            b = rd.read()
            if b is None:
                break
            p = [int(x) for x in b.header.image_numbers]
            need(len(p) == 1 and p[0] in exp, 'frame with image number %s was never stored', p)
            need(p[0] not in got, 'frame of position %d returned twice', p[0])
            got.append(p[0])
            same(b.header.frame_dimensions, (W, H), 'frame dimensions')
            same(b.header.scan_dimensions, (sw, sh), 'scan dimensions')
            need(b.header.images_in_block == 1, 'images in block')
            same(b.data[0], exp[p[0]][0], 'frame of position %d (%s)' % (p[0], 'complete' if exp[p[0]][1] else 'incomplete'))
            if exp[p[0]][1]:
                need(not partial, 'complete frame of position %d only returned after incomplete ones', p[0])
            else:
                partial = True
        need(set(got) == set(exp), 'positions %s returned, %s stored', sorted(got), sorted(exp))
        need(rd.read() is None, 'a block after the end')


KINDS = {'sectors': (gen, check)}

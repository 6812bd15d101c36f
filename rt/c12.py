import os, tempfile
from frames import *
from c11 import sector_of, write_sector, W, H


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), threads=int(rng.integers(1, 9)), npos=int(rng.integers(1, 4)),
                   nf=int(rng.integers(1, 4)), miss=float(rng.choice([0, .3])), per=int(rng.integers(1, 3)))


def check(c):
    import stempy.io as sio
    r = rng_of(c)
    sw = int(r.integers(2, 6)); sh = int(r.integers(2, 6))
    pos = r.choice(sw * sh, size=min(c['npos'], sw * sh), replace=False)
    fnum, frames = iter(r.permutation(200)), {}
    for p in pos:
        for _ in range(int(r.integers(1, c['nf'] + 1))):
            have = r.random(4) >= c['miss']
            have[r.integers(4)] = True
            frames[int(p), int(next(fnum))] = (r.integers(0, 65536, (H, W)).astype(np.uint16), have)
    with tempfile.TemporaryDirectory() as td:
        files, hd = [], {}
        for k in range(4):
            for q in range(c['per']):
                path = os.path.join(td, 'x_module%d_%d.data' % (k, q))
                files.append(path); hd[k, q] = open(path, 'wb')
        keys = list(frames)
        for k in range(4):
            for i in r.permutation(len(keys)):
                p, fn = keys[i]
                if frames[keys[i]][1][k]:
                    write_sector(hd[k, int(r.integers(c['per']))], 9, fn, (sw, sh), p % sw, p // sw,
                                 sector_of(frames[keys[i]][0], k, 5))
        for f in hd.values():
            f.close()
        # every file must at least hold one header: the scan size comes from the first one
        files = [f for f in files if os.path.getsize(f)]
        files = [files[i] for i in r.permutation(len(files))]
        rd = sio.reader(files, version=5, backend='multi-pass', threads=c['threads'])
        by = {}
        for p, fn in sorted(keys):
            by.setdefault(p, []).append(fn)
        nmax = max(len(v) for v in by.values())
        if r.random() < .5:
            same(rd.scan_shape, (sh, sw), 'scan shape')
        if r.random() < .5:
            need(rd.num_frames_per_scan == nmax, 'frames per position %d, expected %d', rd.num_frames_per_scan, nmax)

        def image(p, fn):
            fr = np.zeros((H, W), np.uint16)
            full, have = frames[p, fn]
            for k in range(4):
                if have[k]:
                    sector_of(fr, k, 5)[...] = sector_of(full, k, 5)
            return fr
        for _ in range(5):
            p = int(r.choice(list(by) + [int(r.integers(sw * sh))]))
            lst = by.get(p, [])
            what = int(r.integers(6))
            arg = p if r.random() < .5 else (p // sw, p % sw)
            if what == 0:
                bad = [(sh, 0), (0, sw), sw * sh, sw * sh + 5][int(r.integers(4))]
                try:
                    rd.read_frames(bad, 0)
                    ok = False
                except Exception:
                    ok = True
                need(ok, 'position %s outside the %dx%d scan raises no error', bad, sh, sw)
            elif what == 1:
                idx = len(lst) if r.random() < .5 else nmax + 1
                try:
                    rd.read_frames(arg, idx)
                    ok = False
                except Exception:
                    ok = True
                need(ok, 'frame index %d of %d raises no error', idx, len(lst))
            elif lst:
                idx = [int(x) for x in r.integers(0, len(lst), int(r.integers(1, 4)))]
                if what == 2:
                    idx = list(range(len(lst)))
                got = rd.read_frames(arg, idx) if what != 3 else [rd.read_frames(arg, idx[0])]
                idx = idx if what != 3 else idx[:1]
                need(len(got) == len(idx), 'number of frames')
                for g, i in zip(got, idx):
                    same(list(g.header.image_numbers), [p], 'image number')
                    same(g.header.frame_dimensions, (W, H), 'frame dimensions')
                    same(g.header.scan_dimensions, (sw, sh), 'scan dimensions')
                    if hasattr(g.header, 'frame_number'):
                        need(g.header.frame_number == lst[i], 'frame number')
                    same(g.data, image(p, lst[i]), 'frame %d of position %d' % (i, p))
        need(rd.num_frames_per_scan == nmax, 'frames per position')


KINDS = {'frames': (gen, check)}

import os, tempfile
from frames import *


def gen(rng, tier):
    while True:
        h, w = SHAPES[int(rng.integers(len(SHAPES)))]
        yield dict(seed=int(rng.integers(1 << 30)), h=h, w=w, n=int(rng.integers(1, 12)),
                   src=str(rng.choice(['py', 'v1'])), dark=bool(rng.integers(2)), k=str(rng.choice(FRAME_KINDS)))


def check(c):
    import stempy.image as im
    import stempy.io as sio
    r = rng_of(c)
    frames = np.array([random_frame(r, c['h'], c['w'], c['k']) for _ in range(c['n'])])
    with tempfile.TemporaryDirectory() as td:
        if c['src'] == 'py':
            b = int(r.integers(1, c['n'] + 1))
            mk = lambda: pyreader(frames, range(c['n']), (c['n'], 1), b)
        else:
            files = []
            for k, p in enumerate(perm_partition(r, c['n'])):
                files.append(os.path.join(td, 'f%d' % k))
                write_v1(files[-1], [(list(p), frames[list(p)])])
            mk = lambda: sio.reader(files, version=1)
        avg = im.calculate_average(mk())
        close(avg, frames.astype(np.float64).mean(axis=0), 'average image', rtol=1e-12)
        mx = im.maximum_diffraction_pattern(mk())
        same(mx, frames.max(axis=0).astype(float), 'maximum diffraction pattern')
        if c['dark']:
            other = np.array([random_frame(r, c['h'], c['w'], 'rand') for _ in range(2)])
            dk = im.calculate_average(pyreader(other, [0, 1], (2, 1), 2))
            md = im.maximum_diffraction_pattern(mk(), dk)
            close(md, frames.max(axis=0) - other.mean(axis=0), 'maximum diffraction pattern minus dark', rtol=1e-6, atol=1e-2)


KINDS = {'images': (gen, check)}

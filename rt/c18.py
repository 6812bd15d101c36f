import os, tempfile
from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), version=int(rng.choice([3, 3, 1, 2])), flyback=bool(rng.random() < .6))


def rand_meta(r, depth=0):
    m = {}
    for i in range(int(r.integers(0, 4))):
        k = int(r.integers(5))
        m['k%d' % i] = ([int(r.integers(-5, 99)), float(r.random()), 'text%d' % i, np.arange(int(r.integers(1, 5))),
                         rand_meta(r, depth + 1) if depth < 2 else 3][k])
    return m


def same_meta(a, b, path=''):
    need(set(a) == set(b), 'metadata keys %s are %s, expected %s', path, sorted(a), sorted(b))
    for k in b:
        if isinstance(b[k], dict):
            need(isinstance(a[k], dict), 'metadata %s%s', path, k)
            same_meta(a[k], b[k], path + k + '/')
        else:
            same(a[k], b[k], 'metadata ' + path + k)


def check(c):
    import stempy.io as sio, h5py
    r = rng_of(c)
    a, d = make(r, ndim=4, nonempty=True)
    sh, fs = tuple(a.scan_shape), tuple(a.frame_shape)
    if sh[1] == 1:
        c = dict(c, flyback=True)
    n = sh[0] * sh[1]
    ordered = True
    with tempfile.TemporaryDirectory() as td:
        path = os.path.join(td, 'x.h5')
        meta = {}
        if c['version'] == 3:
            a.metadata = meta = rand_meta(r)
            s = snapshot(a)
            sio.save_electron_counts(path, a)
            unchanged(a, s, 'saving')
        else:
            # version 1: one row per position (possibly with repeated events); version 2: any
            # number of rows per position, in any order
            if c['version'] == 1:
                rows = [np.concatenate(list(x)) if len(x) else np.array([], int) for x in a.data]
                pos = np.arange(n)
                if r.random() < .4:
                    rows = [np.unique(x) for x in rows]
                if r.random() < .5:
                    p = r.permutation(n); rows = [rows[i] for i in p]; pos = pos[p]
            else:
                rows, pos = [], []
                for i in range(n):
                    for f in a.data[i]:
                        if len(f) or r.random() < .5:
                            rows.append(f); pos.append(i)
                p = r.permutation(len(rows)) if r.random() < .6 else np.arange(len(rows))
                rows = [rows[i] for i in p]; pos = np.array(pos, dtype=int)[p]
                if not rows:
                    rows, pos = [np.array([], int)], np.array([0])
            d = np.zeros((n, fs[0] * fs[1]), int)
            for x, i in zip(rows, pos):
                np.add.at(d[i], np.asarray(x, int), 1)
            d = d.reshape(sh + fs)
            with h5py.File(path, 'w') as f:
                if c['version'] == 2 or r.random() < .5:
                    f.attrs['version'] = c['version']
                g = f.require_group('electron_events')
                sp = g.create_dataset('scan_positions', data=np.asarray(pos, np.uint32))
                sp.attrs['Nx'], sp.attrs['Ny'] = sh[1], sh[0]
                fr = g.create_dataset('frames', (len(rows),), dtype=h5py.special_dtype(vlen=np.uint32))
                fr.attrs['Nx'], fr.attrs['Ny'] = fs
                for i, x in enumerate(rows):
                    fr[i] = np.asarray(x, np.uint32)
        b = sio.load_electron_counts(path, keep_flyback=c['flyback'])
        exp = d if c['flyback'] else d[:, :-1]
        same(tuple(b.scan_shape), exp.shape[:2], 'scan shape')
        same(tuple(b.frame_shape), fs, 'frame shape')
        need(len(b.data) == exp.shape[0] * exp.shape[1], 'number of positions')
        same(expand(b), exp, 'events of a version %d file%s' % (c['version'], '' if c['flyback'] else ' without flyback'))
        norepeat(b, 'loaded array')
        if c['version'] == 3:
            same_meta(b.metadata, meta)
            if c['flyback']:
                for i in range(n):
                    for j in range(a.data.shape[1]):
                        same(b.data[i, j], a.data[i, j], 'events of frame (%d, %d)' % (i, j))
        # saved again
        p2 = os.path.join(td, 'y.h5')
        sio.save_electron_counts(p2, b)
        e = sio.load_electron_counts(p2)
        same(expand(e), exp, 'events after saving the loaded array')


KINDS = {'files': (gen, check)}

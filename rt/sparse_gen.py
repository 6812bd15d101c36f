from frames import *


def make(r, ndim=None, dtype=None, nonempty=False, maxf=6, evdtype=np.uint32, bins=1, npf=None, density=None):
    from stempy.io import SparseArray
    ndim = ndim or int(r.choice([3, 4]))
    sc = tuple(int(x) * bins for x in (r.integers(1, 4, 2) if ndim == 4 else r.integers(1, 7, 1)))
    fs = tuple(int(x) * bins for x in r.integers(1, maxf, 2))
    n, nf = int(np.prod(sc)), int(r.integers(1, 4)) if npf is None else npf
    d = sparse(r, n, nf, fs[0] * fs[1], dtype=evdtype, ordered=bool(r.integers(2)), density=density)
    if r.random() < .2:                       # full frames
        d[int(r.integers(n)), int(r.integers(nf))] = np.arange(fs[0] * fs[1]).astype(evdtype)
    if nonempty and not any(len(f) for row in d for f in row):
        d[int(r.integers(n)), 0] = np.array([int(r.integers(fs[0] * fs[1]))], dtype=evdtype)
    kw = {} if dtype is None else dict(dtype=dtype)
    return SparseArray(d, sc, fs, **kw), dense(d, sc, fs)


def expand(a):
    """dense expansion from the event lists, not through the code under test"""
    return dense(a.data, a.scan_shape, a.frame_shape)


def snapshot(a):
    return ([[f.copy() for f in row] for row in a.data], tuple(a.scan_shape), tuple(a.frame_shape), a.dtype)


def unchanged(a, s, what):
    need(tuple(a.scan_shape) == s[1] and tuple(a.frame_shape) == s[2] and a.dtype == s[3], '%s changed the shape of the original', what)
    need(len(a.data) == len(s[0]) and all(len(x) == len(y) for x, y in zip(a.data, s[0])), '%s changed the original', what)
    for x, y in zip(a.data, s[0]):
        for p, q in zip(x, y):
            same(p, q, what + ' changed the original: frame')


def norepeat(a, what):
    for i, row in enumerate(a.data):
        for j, f in enumerate(row):
            f = np.asarray(f)
            need(np.issubdtype(f.dtype, np.integer), '%s: frame (%d, %d) has no integer type', what, i, j)
            need(len(np.unique(f)) == len(f), '%s: frame (%d, %d) lists a pixel twice', what, i, j)

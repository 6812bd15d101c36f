from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), sparse=bool(rng.integers(2)))


def rand_slice(r, n):
    k = int(r.integers(8))
    if k < 2:
        return slice(None)
    a, b = (None if r.random() < .3 else int(r.integers(-n - 1, n + 2)) for _ in range(2))
    st = int(r.choice([1, 1, 2, 3, -1, -2])) if r.random() < .7 else None
    return slice(a, b, st)


def rand_list(r, n):
    m = int(r.integers(1, n + 1))
    x = r.choice(n, m, replace=False)
    x = np.where(r.random(m) < .3, x - n, x)
    k = int(r.integers(4))
    if k == 0:
        return [int(i) for i in x]
    if k == 1:
        return x
    mask = np.zeros(n, bool); mask[x] = True
    return mask if k == 2 else [bool(i) for i in mask]


def basic(r, shape):
    out = []
    for n in shape[:int(r.integers(0, len(shape) + 1))]:
        out.append(int(r.integers(-n, n)) if r.random() < .35 else rand_slice(r, n))
    return tuple(out)


def index(r, a):
    shape = tuple(a.scan_shape) + tuple(a.frame_shape)
    ns = len(a.scan_shape)
    if r.random() < .5:
        i = basic(r, shape)
        if len(i) == 1 and r.random() < .5:
            return i[0]
        return i if i else (slice(None),)
    # advanced indexing on one of the two groups, slices elsewhere
    if r.random() < .5:
        grp, off = a.scan_shape, 0
    else:
        grp, off = a.frame_shape, ns
    pre = [rand_slice(r, n) for n in shape[:off]]
    k = int(r.integers(4))
    if len(grp) == 2 and k == 0:
        m = r.random(grp) < .5
        adv = [m]
        used = 2
    elif len(grp) == 2 and k == 1:
        m = min(grp)
        p = r.choice(grp[0] * grp[1], int(r.integers(1, m + 1)), replace=False)
        adv = [np.array(p // grp[1]), np.array(p % grp[1])]
        used = 2
    elif len(grp) == 2 and k == 2:
        adv = [rand_slice(r, grp[0]), rand_list(r, grp[1])]
        used = 2
    else:
        adv = [rand_list(r, grp[0])]
        used = 1
    rest = [rand_slice(r, n) for n in shape[off + used:]]
    if off + used == ns - 0 and False:
        pass
    if off == 0 and used < ns:
        pass
    rest = rest[:int(r.integers(0, len(rest) + 1))]
    i = tuple(pre + adv + rest)
    return i[0] if len(i) == 1 and r.random() < .5 else i


def as_dense(x):
    from stempy.io import SparseArray
    if isinstance(x, SparseArray):
        norepeat(x, 'indexed array')
        e = expand(x)
        same(x.to_dense(), e, 'to_dense() of the result')
        return e
    return np.asarray(x)


def check(c):
    r = rng_of(c)
    a, d = make(r, maxf=5)
    a.sparse_slicing = c['sparse']
    a.allow_full_expand = True
    s = snapshot(a)
    for _ in range(4):
        i = index(r, a)
        desc = repr(i)
        same(as_dense(a[i]), d[i], 'index %s of shape %s' % (desc, a.shape))
        unchanged(a, s, 'indexing')
    # mutating the result must not reach the original
    b = a[tuple(slice(None) for _ in range(len(a.shape)))]
    if hasattr(b, 'data') and hasattr(b, 'scan_shape'):
        for row in b.data:
            for f in row:
                if len(f):
                    f += 1
        unchanged(a, s, 'modifying the result of an index')


def gen_reshape(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)))


def factor2(r, n):
    ds = [k for k in range(1, n + 1) if n % k == 0]
    k = int(r.choice(ds))
    return (k, n // k)


def check_reshape(c):
    r = rng_of(c)
    a, d = make(r)
    n, m = int(np.prod(a.scan_shape)), int(np.prod(a.frame_shape))
    new = (factor2(r, n) if r.random() < .6 else (n,)) + factor2(r, m)
    k = int(r.integers(4))
    if k == 0:
        x = a.reshape(new)
    elif k == 1:
        x = a.reshape(*new)
    elif k == 2:
        a.shape = new; x = a
    else:
        new = (n,) + tuple(a.frame_shape)
        x = a.ravel_scans()
    need(x is a, 'reshape returns the array')
    same(tuple(a.shape), new, 'shape')
    same(expand(a), d.reshape(new), 'reshaped array')
    same(a.to_dense(), d.reshape(new), 'to_dense() of the reshaped array')
    try:
        a.reshape((n + 1,) + tuple(a.frame_shape))
        ok = False
    except ValueError:
        ok = True
    need(ok, 'reshape to another size raised no error')
    same(expand(a), d.reshape(new), 'array after a refused reshape')


KINDS = {'index': (gen, check), 'reshape': (gen_reshape, check_reshape)}

from sparse_gen import *


def gen(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), dtype=str(rng.choice(['none', 'uint16', 'uint64', 'int64', 'float32', 'float64'])),
                   ev=str(rng.choice(['uint32', 'uint32', 'int64', 'uint16'])))


def check(c):
    r = rng_of(c)
    a, d = make(r, dtype=None if c['dtype'] == 'none' else np.dtype(c['dtype']).type, evdtype=np.dtype(c['ev']))
    s = snapshot(a)
    nd = len(a.shape)
    sx, fx = tuple(range(nd - 2)), (nd - 2, nd - 1)
    for axes, names in ((sx, ['scan', sx, list(sx), sx[::-1]] + ([0] if len(sx) == 1 else [])), (fx, ['frame', fx, fx[::-1]])):
        ax = names[int(r.integers(len(names)))]
        what = '%s over the ' + ('scan' if axes == sx else 'frame') + ' axes'
        same(a.sum(axis=ax), d.sum(axis=axes), what % 'sum')
        same(a.max(axis=ax), d.max(axis=axes), what % 'max')
        same(a.min(axis=ax), d.min(axis=axes), what % 'min')
        close(a.mean(axis=ax), d.mean(axis=axes), what % 'mean', rtol=1e-5)
    unchanged(a, s, 'a reduction')


KINDS = {'reductions': (gen, check)}

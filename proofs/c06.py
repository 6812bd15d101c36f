"""C06: STEM images from counted data.

createAnnularMask: see masks.py.
calculateSTEMValuesSparse(events, mask, image)
  requires event positions inside the mask, image at least as long as events, mask values 0 or 0xFFFF;
  fewer than 2^32 scan positions, frames per position and events per frame.
  ensures image[i] = old value + sum over all frames j and events k of position i of 65535 if
  mask[events[i][j][k]] is set; nothing else is written.
createSTEMImages(events, inner, outer, scan, frame, center)
  ensures one image per radius pair, of one pixel per scan position; image m, pixel i = the sum above for the
  mask of (inner[m], outer[m]) (contract of createAnnularMask)."""
from blocks import *
from masks import *

ASSUMPTIONS = ['events lie inside the frame; fewer than 2^32 positions, frames per position and events per frame; fewer than 2^47 events per position',
               'std::vector<py::array_t> behaves like std::vector<std::vector> in the same template']

def nested(T, n):
    """a vector of n vectors of vectors of unsigned int -> (pointer, D0, D1, D2)"""
    ex = T.ex
    v, D0 = T.vector('events', 'std::vector<std::vector<unsigned int, std::allocator<unsigned int>>, std::allocator<std::vector<unsigned int, std::allocator<unsigned int>>>>', n, readonly=True)
    D1 = D0.vec[0]
    D2 = D1.vec[0]
    D1.readonly = D2.readonly = True
    return v, D0, D1, D2

class Events:
    def __init__(self, T, n):
        ctx, ex = T.ctx, T.ex
        self.ctx = ctx
        self.ptr, self.D0, self.D1, self.D2 = nested(T, n)
        s1, s2 = llexec.size_array(ex, T.st, self.D1), llexec.size_array(ex, T.st, self.D2)
        self.val = ex.array(T.st, self.D2, 0, ('int', 32))
        def small(v):
            ctx.add(And(v >= 0, v < (1 << 32)))
            return v
        self.frames = lambda i: small(P(s1.read((P(i),))))
        self.count = lambda i, j: small(P(s2.read((P(i), P(j)))))

def values(T):
    ctx, ex = T.ctx, T.ex
    n = T.int('positions', 64, 0, (1 << 32) - 1).p
    E = Events(T, n)
    NP, IS = T.int('maskSize', 64, 0, 1 << 40).p, T.int('imageSize', 64, 0, 1 << 40).p
    T.assume(IS >= n)
    M = T.array('mask', 'unsigned short', NP, readonly=True)
    IM = T.array('image', 'unsigned long', IS)
    image = T.record('STEMImage', {consts(T.task.unit.raw)['vc_image_data']: ptr(IM)})
    mask, img0 = ex.array(T.st, M, 0, ('int', 16)), ex.array(T.st, IM, 0, ('int', 64))
    def hit(i, j, k):
        pos = E.val.read((i, j, k))
        m = mask.read((pos,))
        ctx.add(And(Or(m.eq(0), m.eq(0xFFFF)), pos >= 0))
        ctx.add(Implies(And(i >= 0, i < n, j >= 0, j < E.frames(i), k >= 0, k < E.count(i, j)), pos < NP))       # requires
        return iteP(m.eq(0xFFFF), P(65535), P(0))
    S2 = Fold(ctx, 'S2', hit, arity=2, nonneg=True)
    S2.upper = 65535
    S1 = Fold(ctx, 'S1', lambda i, j: S2(i, j, E.count(i, j)), arity=1, nonneg=True)
    def small(i, x):
        ctx.add(x < (1 << 62))
        ctx.add(img0.read((i,)) < (1 << 62))
        return x
    def want(v, i):
        """image[i] at the head of the loop at this depth"""
        if v.depth == 1:
            return iteP(i < v.n, small(i, S1(i, E.frames(i))), P(0))
        r = v.outer[0][1]
        j = v.n if v.depth == 2 else v.outer[1][1]
        return iteP(i < r, small(i, S1(i, E.frames(i))), iteP(i.eq(r), small(i, S1(i, j)), P(0)))
    def lemma(v):
        hit(v.outer[0][1], v.outer[1][1], v.n)
        return TRUE
    def cands(view):
        yield Cand('image', key=('a', IM, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < IS), And(
            Implies(idx[0] < n, val.eq(img0.read(idx) + want(v, idx[0]))), Implies(idx[0] >= n, val.eq(img0.read(idx))))))
        if view.depth == 3:
            yield Cand('lemma', scalar=lemma)
            for nm, x in view.phis.items():
                if isinstance(x, I) and x.n == 64:
                    yield Cand('%s == S2' % nm, scalar=lambda v, nm=nm: v.phis[nm].p.eq(S2(v.outer[0][1], v.outer[1][1], v.n)) if isinstance(v.phis.get(nm), I) else FALSE)
    T.cands.append(cands)
    for st, v in T.run([E.ptr, ptr(M), ptr(image)]):
        i = fresh_int('i')
        val = ex.array(st, IM, 0, ('int', 64)).read((i,))
        T.ensure(st, Implies(And(i >= 0, i < n), val.eq(img0.read((i,)) + small(i, S1(i, E.frames(i))))), 'the pixel of position i grows by 65535 for every event of all its frames inside the mask')
        T.ensure(st, Implies(And(i >= n, i < IS), val.eq(img0.read((i,)))), 'other pixels are unchanged')

def tasks():
    import stem
    return mask_tasks() + [Task('calculateSTEMValuesSparse', UB, r'^void stempy::calculateSTEMValuesSparse<', values)] + stem.sparse_tasks()

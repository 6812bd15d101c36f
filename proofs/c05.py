"""C05: STEM images from frames: masked sums at the right place, annulus definition.

createAnnularMask: see masks.py.
calculateSTEMValues(data, offset, N, mask, imageNumber)
  requires data[offset .. offset+N), mask[0 .. N) exist, mask values 0 or 0xFFFF.
  ensures .data = sum of data[offset+k] over k < N with mask[k] = 0xFFFF (64 bit, no wrap-around),
  .imageNumber = imageNumber, nothing written.
_runCalculateSTEMValues(data, imageNumbers, N, mask, image)
  requires a block of imageNumbers.size() frames of N pixels, distinct image numbers inside the image.
  ensures image[imageNumbers[i]] = masked sum of frame i for every i, other pixels unchanged."""
from common import *
from masks import *

UI = unit('stempy/image.cpp', 'image')
ASSUMPTIONS = ['frame width, height <= 2^24, width*height < 2^32', 'the image numbers of one block are distinct and inside the image']

def masked_sum(ctx, data, mask, offset):
    """S(n): masked sum of the n pixels from offset"""
    def term(k):
        m = mask.read((k,))
        ctx.add(Or(m.eq(0), m.eq(0xFFFF)))
        return iteP(m.eq(0xFFFF), data.read((offset + k,)), P(0))
    S = Fold(ctx, 'S', term, nonneg=True)
    S.upper = 65535
    return S

def stem_values(T):
    ctx, ex = T.ctx, T.ex
    N, off, num = T.int('numberOfPixels', 32), T.int('offset', 64, 0, 1 << 60), T.int('imageNumber', 32)
    size = fresh_int('size')
    T.assume(And(size >= off.p + N.p, size < (1 << 61)))
    D, M = T.array('data', 'unsigned short', size, readonly=True), T.array('mask', 'unsigned short', N.p, readonly=True)
    S = masked_sum(ctx, ex.array(T.st, D, 0, ('int', 16)), ex.array(T.st, M, 0, ('int', 16)), off.p)
    def cands(view):
        sums = [nm for nm, v in view.phis.items() if isinstance(v, I) and v.n == 64]
        for nm in sums:
            yield Cand('%s == S(n)' % nm, scalar=lambda v, nm=nm: v.phis[nm].p.eq(S(v.n)) if isinstance(v.phis[nm], I) else FALSE)
    T.cands.append(cands)
    for st, v in T.run([ptr(D), off, N, ptr(M), num]):
        T.ensure(st, ex.u(st, v.v[0]).eq(S(N.p)), 'data is the sum of the pixels under the mask')
        T.ensure(st, ex.u(st, v.v[1]).eq(num.p), 'the image number is kept')

def run_values(T):
    ctx, ex = T.ctx, T.ex
    N, cnt, P_ = T.int('numberOfPixels', 32), T.int('frames', 32).p, T.int('imageSize', 64, 0, 1 << 40).p
    size = fresh_int('size')
    T.assume(And(size >= cnt * N.p, size < (1 << 64)))
    D, M = T.array('data', 'unsigned short', size, readonly=True), T.array('mask', 'unsigned short', N.p, readonly=True)
    nv, NU = T.vector('imageNumbers', 'unsigned int', cnt, readonly=True)
    IM = T.array('image', 'unsigned long', P_)
    image = T.record('STEMImage', {8: ptr(IM)})
    num, img0 = ex.array(T.st, NU, 0, ('int', 32)), ex.array(T.st, IM, 0, ('int', 64))
    inv = z3.Function('frameOf', z3.IntSort(), z3.IntSort())
    S = z3.Function('maskedSum', z3.IntSort(), z3.IntSort())        # sum of the frame that begins at this offset
    def frame_of(p):
        return P(inv(p.z()))
    def number(i):
        v = num.read((i,))
        ctx.add(Implies(And(i >= 0, i < cnt), And(frame_of(v).eq(i), v < P_)))
        return v
    def h(ex, st, d, a, ins):
        off = ex.simp(st, ex.u(st, a[1]))
        ex.oblige(st, And(B(stdlib.one(a[0])[1] is D), off >= 0, off + N.p <= size, off <= 1 << 60 << 4), 'calculateSTEMValues: the frame lies in the block', 'pre')
        ex.oblige(st, And(ex.u(st, a[2]).eq(N.p), B(stdlib.one(a[3])[1] is M)), 'calculateSTEMValues: all pixels, under the mask', 'pre')
        r = P(S((off + stdlib.one(a[0])[3]).z()))
        ctx.add(And(r >= 0, r < (1 << 48)))
        return Agg([I(r, 64, 0, 1 << 48), a[4]])
    ex.handlers = [(re.compile('stempy::calculateSTEMValues'), h)] + ex.handlers
    def fact(n, p, val):
        i = frame_of(p)
        mine = And(i >= 0, i < n, i < cnt, number(i).eq(p))
        return And(Implies(mine, val.eq(P(S((i * N.p).z())))), Implies(Not(mine), val.eq(img0.read((p,)))))
    def inv_(v, idx, val):
        number(v.n)
        number(v.n - 1)
        return fact(v.n, idx[0], val)
    T.cands.append(lambda view: [Cand('image', key=('a', IM, 0), forall=inv_)])
    for st, v in T.run([ptr(D), nv, N, ptr(M), image and ptr(image)]):
        p = fresh_int('p')
        T.ensure(st, Implies(And(p >= 0, p < P_), fact(cnt, p, ex.array(st, IM, 0, ('int', 64)).read((p,)))), 'the pixel of every frame of the block is its masked sum, the others are unchanged')

def tasks():
    import stem
    return mask_tasks() + [Task('calculateSTEMValues', UI, r'^stempy::calculateSTEMValues\(', stem_values),
                           Task('_runCalculateSTEMValues', UI, r'^stempy::.*_runCalculateSTEMValues\(', run_values, keep=lambda d: d.startswith("stempy::calculateSTEMValues("))] + stem.block_tasks()

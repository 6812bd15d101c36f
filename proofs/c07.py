"""C07: radial sums.

radialSumFrame(center, data, offset, dims, imageNumber, sum)
  requires data[offset .. offset+W*H) exists; sum has radii * P elements, radii * P < 2^32 (the index is
  computed in 32 bits); every pixel's rounded-up distance to the centre is below radii; 0 <= imageNumber < P;
  centre inside the frame, W, H <= 2^24.
  ensures sum[j] = old value + the sum of data[offset+k] over the pixels k with j = r*P + imageNumber, where r
  is the pixel's distance to the centre, rounded up; nothing else is written.
radialSumFrames: the same for all frames of a block, each with its own image number."""
from common import *

UI = unit('stempy/image.cpp', 'image')
ASSUMPTIONS = ['width, height <= 2^24, width*height < 2^32, radii*scan positions < 2^32, image numbers inside the scan',
               'sqrt is correctly rounded, so that ceil(sqrt(m)) is exact for the integers m < 2^52 that occur']
ceilsqrt = z3.Function('ceilsqrt', z3.IntSort(), z3.IntSort())

def frame(T):
    ctx, ex = T.ctx, T.ex
    W, H = T.int('width', 32, 1, 1 << 24), T.int('height', 32, 1, 1 << 24)
    cx, cy = T.int('cx', 32, 0, 1 << 24), T.int('cy', 32, 0, 1 << 24)
    N = W.p * H.p
    P_, radii = T.int('scanWidth', 32), T.int('scanHeight', 32)
    sw, sh = P_, radii
    radii = T.int('radii', 32, 0, 1 << 31).p
    T.assume(And(N < (1 << 32), cx.p <= W.p, cy.p <= H.p))
    pos = sw.p * sh.p
    T.assume(And(pos < (1 << 32), radii * pos < (1 << 32), pos >= 0))
    im = T.int('imageNumber', 32, 0, (1 << 31) - 1)
    T.assume(im.p < pos)
    off = T.int('offset', 64, 0, 1 << 60)
    size = fresh_int('size')
    T.assume(And(size >= off.p + N, size < (1 << 61)))
    D = T.array('data', 'unsigned short', size, readonly=True)
    A = T.array('sum', 'unsigned long', radii * pos)
    rs = T.record('RadialSum', {0: sw, 4: sh, 8: I(radii, 32), 16: ptr(A)})
    px, a0 = ex.array(T.st, D, 0, ('int', 16)), ex.array(T.st, A, 0, ('int', 64))
    def rad(k):
        y, x = ctx.divmod(k, W.p)
        d2 = (x - cx.p) * (x - cx.p) + (y - cy.p) * (y - cy.p)
        return P(ceilsqrt(d2.z()))
    bin_, define = defined(ctx, lambda k: rad(k) * pos + im.p, 'binOf')
    S = Fold(ctx, 'S', lambda j, k: iteP(bin_(k).eq(j), px.read((off.p + k,)), P(0)), arity=1, nonneg=True)
    S.upper = 65535
    def fact(n, j, val):
        ctx.add(a0.read((j,)) < (1 << 63))          # requires: no 64-bit overflow
        return val.eq(a0.read((j,)) + S(j, n))
    def at(v, k):
        define(k)
        r = rad(k)                       # the polynomial that the code multiplies
        ctx.add(Implies(And(k >= 0, k < N), And(r >= 0, r < radii)))             # requires
        ctx.add(Implies(And(r >= 0, r < radii), (r + 1) * pos <= radii * pos))   # radii * pos is monotone
        ctx.add(Implies(r >= 0, r * pos >= 0))
    def inv(v, idx, val):
        at(v, v.n)
        at(v, v.n - 1)
        return fact(v.n, idx[0], val)
    T.cands.append(lambda view: [Cand('lemmas', scalar=lambda v: at(v, v.n) or TRUE), Cand('sum', key=('a', A, 0), forall=inv)])
    for st, v in T.run([T.pair32(cx, cy), ptr(D), off, T.pair32(W, H), im, ptr(rs)]):
        j = fresh_int('j')
        T.ensure(st, fact(N, j, ex.array(st, A, 0, ('int', 64)).read((j,))), 'every bin of the scan position grows by the pixels of its radius, nothing else changes')

def frames(T):
    """contract of radialSumFrame at the call: sum[j] grows by Sframe(offset, imageNumber, j)"""
    ctx, ex = T.ctx, T.ex
    W, H = T.int('width', 32, 1, 1 << 24), T.int('height', 32, 1, 1 << 24)
    cx, cy = T.int('cx', 32, 0, 1 << 24), T.int('cy', 32, 0, 1 << 24)
    N = T.int('numberOfPixels', 32)
    T.assume(N.p.eq(W.p * H.p))
    cnt = T.int('frames', 32).p
    size, P_ = fresh_int('size'), T.int('bins', 32).p
    T.assume(And(size >= cnt * N.p, size < (1 << 61)))
    D = T.array('data', 'unsigned short', size, readonly=True)
    nv, NU = T.vector('imageNumbers', 'unsigned int', cnt, readonly=True)
    A = T.array('sum', 'unsigned long', P_)
    rs = T.record('RadialSum', {16: ptr(A)})
    num, a0 = ex.array(T.st, NU, 0, ('int', 32)), ex.array(T.st, A, 0, ('int', 64))
    Sf = z3.Function('Sframe', *[z3.IntSort()] * 4)
    def bin_(off, no, j):
        return P(Sf(off.z(), no.z(), j.z()))
    S = Fold(ctx, 'S', lambda j, i: bin_(i * N.p, num.read((i,)), j), arity=1)
    C, Dm = T.pair32(cx, cy), T.pair32(W, H)
    def h(ex, st, d, a, ins):
        c, dat, off, dim, no, sm = a
        off = ex.simp(st, ex.u(st, off))
        ex.oblige(st, And(B(stdlib.one(dat)[1] is D), stdlib.one(dat)[3].eq(0), off >= 0, off + N.p <= size), 'radialSumFrame: the frame lies in the block', 'pre')
        ex.oblige(st, And(ex.u(st, c).eq(C.p), ex.u(st, dim).eq(Dm.p), B(stdlib.one(sm)[1] is rs)), 'radialSumFrame: the given centre, frame size and sum', 'pre')
        old = ex.array(st, A, 0, ('int', 64))
        new = ex.newbase(A, 0, ('int', 64), 'radial')
        nn = ex.u(st, no)
        new.facts.append(lambda idx, val: val.eq(old.read(idx) + bin_(off, nn, idx[0])))
        st.mem[('a', A, 0)] = new
        return None
    ex.handlers = [(re.compile('stempy::.*radialSumFrame\\('), h)] + ex.handlers
    T.cands.append(lambda view: [Cand('sum', key=('a', A, 0), forall=lambda v, idx, val: val.eq(a0.read(idx) + S(idx[0], v.n)))])
    for st, v in T.run([C, ptr(D), Dm, nv, N, ptr(rs)]):
        j = fresh_int('j')
        T.ensure(st, ex.array(st, A, 0, ('int', 64)).read((j,)).eq(a0.read((j,)) + S(j, cnt)), 'every frame of the block is added once, with its own image number')

def tasks():
    return [Task('radialSumFrame', UI, r'^stempy::radialSumFrame\(', frame),
            Task('radialSumFrames', UI, r'^stempy::.*radialSumFrames\(', frames, keep=lambda d: d.startswith('stempy::radialSumFrame('))]

"""Contract of createAnnularMask(dimensions, innerRadius, outerRadius, center), shared by C05 and C06.
requires width, height <= 2^24, width*height < 2^32, 0 <= radii <= 46340, centres at most 2^24 (negative: default).
ensures the result is a new array of width*height elements; element k is 0xFFFF if
inner^2 <= (k % width - cx)^2 + (k / width - cy)^2 < outer^2 and 0 otherwise, where a negative centre
coordinate stands for half the frame size, rounded half away from zero."""
from common import *

UM = unit('stempy/mask.cpp', 'mask')

def half_up(ctx, n):
    return ctx.divmod(P(n) + 1, P(2))[0]

def mask(T, negx, negy):
    ctx, ex = T.ctx, T.ex
    W, H = T.int('width', 32, 0, 1 << 24), T.int('height', 32, 0, 1 << 24)
    N = W.p * H.p
    T.assume(N < (1 << 32))
    ri, ro = T.int('inner', 32, 0, 46340), T.int('outer', 32, 0, 46340)
    # a centre coordinate as it is passed: 32 bits, the upper half of the range standing for negative numbers
    def coord(name, neg):
        return T.int(name, 32, 1 << 31, (1 << 32) - 1) if neg else T.int(name, 32, 0, 1 << 24)
    cx, cy = coord('cx', negx), coord('cy', negy)
    center = T.pair32(cx, cy)
    X = half_up(ctx, W.p) if negx else cx.p
    Y = half_up(ctx, H.p) if negy else cy.p
    def value(k):
        y, x = ctx.divmod(k, W.p)
        d = (x - X) * (x - X) + (y - Y) * (y - Y)
        return iteP(And(d >= ri.p * ri.p, d < ro.p * ro.p), P(0xFFFF), P(0))
    spec, define = defined(ctx, value, 'annulus')
    def inv(v, idx, val):
        define(v.n)
        define(v.n - 1)
        return And(Implies(And(idx[0] >= 0, idx[0] < v.n, idx[0] < N), val.eq(spec(idx[0]))), Implies(idx[0] >= v.n, val.eq(0)))
    def cands(view):
        for key in view_arrays(view, 'new[]'):
            yield Cand('mask', key=key, forall=inv)
    T.cands.append(cands)
    for st, v in T.run([T.pair32(W, H), ri, ro, center]):
        g, reg, par, off = stdlib.one(v)
        k = fresh_int('k')
        T.ensure(st, B(reg is not None and off.same(0)), 'a new array is returned')
        T.ensure(st, ex.size_now(st, reg, ()).eq(N) if reg.stride == 2 else FALSE, 'the mask has one 16-bit element per pixel')
        s = spec(k)
        T.ensure(st, Implies(And(k >= 0, k < N), ex.array(st, reg, 0, ('int', 16)).read((k,)).eq(s)), 'mask[k] is 0xFFFF inside the annulus, 0 outside')

def mask_tasks():
    return [Task('createAnnularMask, centre x %s, y %s' % tuple('default' if n else 'given' for n in (nx, ny)), UM, r'^stempy::createAnnularMask\(',
                 lambda T, nx=nx, ny=ny: mask(T, nx, ny)) for nx in (False, True) for ny in (False, True)]

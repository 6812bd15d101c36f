"""C03: row-dark correction.

Contract of applyRowDark<float|uint16_t, dark|no dark>(frame, dims, mean, background, xray, dark, gain, useMean).
requires: frame, dark and gain have width*height elements, width*height < 2^32.
ensures, with x0 the frame before: for every row r and column c, k = r*width + c,
  part(c) = [0, width/2) if c < width/2, else [width/2, width);
  stat = mean (useMean) or median of x0[r*width + part(c)], in single precision;
  v = (x0[k] - dark[k] if there is a dark reference) * (mean / stat) (* gain[k] for float frames), integer
  frames dropping the fractional part after each step;
  frame[k] = v if background < v < xray, else 0.
The mean is the single-precision sum in column order (the fold M) divided by the number of pixels; the median
is the middle order statistic, or half the sum of the two middle ones (contract of std::nth_element).
applyRowDark<..>(frame, ..., globalDark, ...) picks the instance with a dark reference iff one is given."""
from common import *

U = unit('stempy/electron.cpp', 'electron')
ASSUMPTIONS = ['width*height < 2^32; pixel, dark, gain and threshold values are finite',
               'std::nth_element puts the n-th smallest at n and the n smallest before it (trusted contract)']

def nth_handlers(T, OS, content):
    """contract of std::nth_element / std::max_element / std::sort on a copy of x0[start..start+len)"""
    ctx, ex = T.ctx, T.ex
    def whole(st, p, q):
        """the range [p, q) of a copy of a range of the frame -> (region, start in the frame, length)"""
        g, reg, par, off = stdlib.one(p)
        g2, reg2, par2, off2 = stdlib.one(q)
        org = getattr(reg, 'origin', None)
        if reg is not reg2 or org is None:
            raise Unsupported('order statistics of something other than a copy of a range of the frame')
        return reg, par, off, off2, org
    def nth(ex, st, d, a, ins):
        b, m, e = a[0], a[1], a[2]
        reg, par, off, off2, (start, n) = whole(st, b, e)
        z = reg.stride
        ty = reg.fields[0]
        moff = stdlib.one(m)[3]
        ex.oblige(st, And(off.eq(0), off2.eq(n * z), moff >= 0, moff <= off2), 'std::nth_element: a valid range, the whole copy', 'pre')
        j = fresh_int('j')
        old = ex.array(st, reg, 0, ty)
        ex.oblige(st, Implies(And(j >= 0, j < n), content.eq(old.read(tuple(par) + (j,)), content.x0(start + j))), 'the copy holds the uncorrected pixels of the part', 'pre')
        mi = moff.divexact(z)
        if mi is None:
            raise Unsupported('nth_element position')
        new = ex.newbase(reg, 0, ty, 'nth')
        ctx.add(Implies(And(*st.pc, mi < n), content.eq(new.read(tuple(par) + (mi,)), content.os(start, n, mi))))
        st.mem[('a', reg, 0)] = new
        reg.nth = (new, mi, start, n)
        ex.trusted.add('std::nth_element')
    def mx(ex, st, d, a, ins):
        b, e = a[0], a[1]
        reg, par, off, off2, org = whole(st, b, e)
        new, mi, start, n = reg.nth
        z = reg.stride
        cnt = off2.divexact(z)
        ex.oblige(st, And(off.eq(0), B(ex.array(st, reg, 0, reg.fields[0]) is new), cnt.eq(mi), mi >= 1), 'std::max_element: the elements before the n-th smallest', 'pre')
        at = fresh_int('at')
        ctx.add(And(at >= 0, Implies(mi >= 1, at < mi)))
        ctx.add(Implies(mi >= 1, content.eq(new.read(tuple(par) + (at,)), content.os(start, n, mi - 1))))
        ex.trusted.add('std::max_element')
        return ex.padd(ptr(reg, 0, par), at * z)
    return [(re.compile(r'\bstd::nth_element<'), nth), (re.compile(r'\bstd::max_element<'), mx)]

class Content:
    pass

def contract(real, dark):
    elem = 'float' if real else 'unsigned short'
    def fn(T):
        ctx, ex = T.ctx, T.ex
        W, H = T.int('width', 32), T.int('height', 32)
        N = W.p * H.p
        T.assume(N < (1 << 32))
        fv, F = T.vector('frame', elem, N)
        D = T.array('dark', 'float', N, readonly=True)
        G = T.array('gain', 'float', N, readonly=True)
        bg, xr = R(fresh_real('background'), 64), R(fresh_real('xray'), 64)
        mean = R(fresh_real('optimizedMean'), 32)
        usemean = fresh_bool('useMean')
        ty = F.fields[0]
        x0 = ex.array(T.st, F, 0, ty)
        da, ga = ex.array(T.st, D, 0, ('real', 32)), ex.array(T.st, G, 0, ('real', 32))
        eq = lambda a, b: a.eq(b) if isinstance(a, Poly) else a == b
        st0 = T.st
        def flt(x, w=32):
            """a pixel value as a floating-point number"""
            return R(x, w) if real else ex.rint(st0, x, 0, 65535, w)
        half, _ = ctx.divmod(W.p, P(2))
        def length(left):
            return half if left else W.p - half
        M = Fold(ctx, 'M', lambda s, i: flt(x0.read((s + i,))).z, sort='real', arity=1, init=z3.RealVal(0),
                 comb=lambda a, x: ex.rop(st0, 'fadd', R(a, 32), R(x, 32), 32).z)
        OSf = z3.Function('OS', *([z3.IntSort()] * 3 + [z3.RealSort() if real else z3.IntSort()]))
        c = Content()
        c.eq, c.x0 = eq, lambda k: x0.read((k,))
        def os_(s, n, i):
            v = OSf(s.z(), n.z(), i.z())
            if real:
                return v
            ctx.add(And(v >= 0, v <= 65535))
            return P(v)
        c.os = os_
        def stat(start, n):
            mn = ex.rop(st0, 'fdiv', R(M(start, n), 32), ex.rint(st0, n, None, None, 32), 32)
            m, odd = ctx.divmod(n, P(2))
            one_ = flt(os_(start, n, m)).z
            if real:
                two = ex.rop(st0, 'fadd', R(os_(start, n, m - 1), 32), R(os_(start, n, m), 32), 32)
            else:
                two = ex.rint(st0, os_(start, n, m - 1) + os_(start, n, m), 0, 2 * 65535, 32)
            two = ex.rop(st0, 'fdiv', two, ex.rconst(2.0, 32), 32)
            return R(z3.If(usemean, mn.z, z3.If(odd.eq(1), one_, two.z)), 32)
        def value(r, col, left):
            """the corrected pixel in row r, column col (an offset inside its part)"""
            start = r * W.p + (0 if left else half)
            k = start + col
            x = x0.read((k,))
            ratio = ex.rop(st0, 'fdiv', mean, stat(start, length(left)), 32)
            def step(op, x, y):
                v = ex.rop(st0, op, flt(x), y, 32)
                return v.z if real else ex.fptoi(v, 16, False).p
            if dark:
                x = step('fsub', x, R(da.read((k,)), 32))
            x = step('fmul', x, ratio)
            if real:
                x = step('fmul', x, R(ga.read((k,)), 32))
            w = x if real else z3.ToReal(x.z())
            ok = And(w > bg.z, w < xr.z)
            return z3.If(ok, x, z3.RealVal(0)) if real else iteP(ok, x, P(0))
        spec_ = z3.Function('corrected', z3.IntSort(), z3.RealSort() if real else z3.IntSort())
        spec = lambda k: spec_(P(k).z()) if real else P(spec_(P(k).z()))
        def define(r, col, left):
            """corrected(k) at k = r*width + (col or half + col)"""
            k = r * W.p + (P(0) if left else half) + col
            ctx.add(Implies(And(r >= 0, r < H.p, col >= 0, col < length(left)), And(eq(spec(k), value(r, col, left)), k >= 0, k < N)))
        def lemma(v):
            n = v.n if v.depth == 1 else v.outer[0][1]
            ctx.add(Implies(And(n >= 0, n < H.p), (n + 1) * W.p <= N))
            ctx.add(Implies(n >= 0, n * W.p >= 0))
            if v.depth == 2:
                define(n, v.n, True)
                define(n, v.n, False)
            return TRUE
        def inv(base):
            def f(v, idx, val):
                k = idx[0]
                b = base(v)
                return And(Implies(And(k >= 0, k < b), eq(val, spec(k))), Implies(k >= b, eq(val, x0.read(idx))))
            return f
        def cands(view):
            yield Cand('lemma', scalar=lemma)
            if view.depth == 1:
                yield Cand('rows', scalar=lambda v: v.n <= H.p)
                yield Cand('pixels', key=('a', F, 0), forall=inv(lambda v: v.n * W.p))
            elif view.depth == 2:
                for side, o in (('left', P(0)), ('right', half)):
                    yield Cand('pixels ' + side, key=('a', F, 0), forall=inv(lambda v, o=o: v.outer[0][1] * W.p + o + v.n))
                    for nm, x in view.phis.items():
                        if isinstance(x, R):
                            yield Cand('sum %s %s' % (nm, side), scalar=lambda v, nm=nm, o=o: v.phis[nm].z == M(v.outer[0][1] * W.p + o, v.n) if isinstance(v.phis.get(nm), R) else FALSE)
        T.cands.append(cands)
        ex.handlers = nth_handlers(T, OSf, c) + ex.handlers
        for st, v in T.run([fv, T.pair32(W, H), mean, bg, xr, ptr(D), ptr(G), Bo(usemean)]):
            for left in (True, False):
                r, col = fresh_int('r'), fresh_int('c')
                define(r, col, left)
                k = r * W.p + (P(0) if left else half) + col
                val = ex.array(st, F, 0, ty).read((k,))
                T.ensure(st, Implies(And(r >= 0, r < H.p, col >= 0, col < length(left)), eq(val, value(r, col, left))), 'every pixel of the %s part is corrected with the statistic of its own part' % ('left' if left else 'right'))
    return fn

def select(real):
    """the public applyRowDark: the instance with a dark reference iff one is given"""
    elem = 'float' if real else 'unsigned short'
    def fn(T):
        ctx, ex = T.ctx, T.ex
        W, H = T.int('width', 32), T.int('height', 32)
        fv, F = T.vector('frame', elem, fresh_int('size'))
        D, G = T.array('dark', 'float', P(1)), T.array('gain', 'float', P(1))
        given = fresh_bool('given')
        dp = Ptr([(given, D, (), P(0)), (Not(given), None, (), P(0))])
        bg, xr, mean, um = R(fresh_real('background'), 64), R(fresh_real('xray'), 64), R(fresh_real('mean'), 32), fresh_bool('useMean')
        dims = T.pair32(W, H)
        gh = ex.region('ghost')
        gh.init = lambda o, ty: I(P(0), 32)
        n = lambda st: st.mem.get(('c', gh, 0), I(P(0), 32)).p
        def h(ex, st, d, a, ins):
            f, dm, mn, b, x, dk, gn, u = a
            with_dark = bool(re.search(r'applyRowDark<[a-z ]+, true>', d))
            Dv, par = vec_of(ex, st, f)
            ex.oblige(st, given if with_dark else Not(given), 'the dark reference is subtracted iff it is given', 'pre')
            same = And(B(Dv is F), ex.u(st, dm).eq(dims.p), mn.z == mean.z, b.z == bg.z, x.z == xr.z, u.b == um, B(stdlib.one(gn)[1] is G))
            if with_dark:
                same = And(same, Implies(And(*st.pc), Or(*[o[0] for o in dk.opts if o[1] is D])))
            ex.oblige(st, same, 'the arguments are passed on', 'pre')
            st.mem[('c', gh, 0)] = I(n(st) + 1, 32)
        ex.handlers = [(re.compile(r'applyRowDark<[a-z ]+, (true|false)>'), h)] + ex.handlers
        for st, v in T.run([fv, dims, mean, bg, xr, dp, ptr(G), Bo(um)]):
            T.ensure(st, n(st).eq(1), 'the frame is corrected once')
    return fn

def tasks():
    out = []
    for ty, real in (('float', True), ('unsigned short', False)):
        for dark in (True, False):
            r = r'^void stempy::applyRowDark<%s, %s>\(.*, bool\)$' % (ty, 'true' if dark else 'false')
            out.append(Task('applyRowDark<%s,%s>' % (ty, 'dark' if dark else 'no dark'), U, r, contract(real, dark),
                            keep=lambda d: bool(re.search(r'\bstd::(nth_element|max_element)<', d.split('(')[0]))))
        out.append(Task('applyRowDark<%s>' % ty, U, r'^void stempy::applyRowDark<%s>\(' % ty, select(real),
                        keep=lambda d: bool(re.search(r'^void stempy::applyRowDark<[a-z ]+, (true|false)>\(.*, bool\)$', d))))
    return out

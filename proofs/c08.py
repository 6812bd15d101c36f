"""C08: average and maximum diffraction pattern.

Over a sequence of B >= 1 blocks (ghost sequence of proofs/blocks.py), F = all their frames,
calculateAverage ensures result[j] = (sum over F of pixel j) / (number of frames), one correctly rounded
division of two exactly represented integers; maximumDiffractionPattern ensures result[j] = max over F of
pixel j (at least 0), minus the dark reference's pixel if one is given."""
from blocks import *

ASSUMPTIONS = ['sums below 2^53 and fewer than 2^32 pixels per block (the code indexes a block with 32 bits)',
               'all blocks have the frame size of the first']

def sums(T, b, comb=None):
    """S1(b, j, i): over the first i frames of block b; S0(j, n): over the first n blocks"""
    ctx = T.ctx
    S1 = Fold(ctx, 'S1', lambda blk, j, i: b.px.read((blk, i * b.N + j)), arity=2, nonneg=comb is None, comb=comb)
    S0 = Fold(ctx, 'S0', lambda j, n: S1(n, j, b.frames(n)), arity=1, nonneg=comb is None, comb=comb)
    return S0, S1

def average(T):
    ctx, ex = T.ctx, T.ex
    b = Blocks(T)
    T.assume(b.B >= 1)
    out = T.record('result')
    S0, S1 = sums(T, b)
    C = Fold(ctx, 'C', lambda n: b.frames(n), nonneg=True)       # number of frames
    def exact(x):
        """a number below 2^53 (the sums are, by precondition) is represented exactly"""
        ctx.add(Implies(And(x >= 0), x < (1 << 53)))
        r = z3.ToReal(x.z())
        ctx.add(Implies(And(x >= 0, x < (1 << 53)), rnd[64](r) == r))
        return r
    def value(v, j):
        """value of image[j] at the head of the loop at this depth"""
        if v.depth == 1:
            return S0(j, v.n)
        n = v.outer[0][1]
        if v.depth == 2:
            return S0(j, n) + S1(n, j, v.n)
        i = v.outer[1][1]
        return S0(j, n) + S1(n, j, i) + iteP(j < v.n, b.px.read((n, i * b.N + j)), P(0))
    def count(x):
        ctx.add(x < (1 << 53))
        return x
    def cands(view):
        over = calls(view, 'VcIt::')
        if view.depth == 1 and over:
            yield Cand('block', scalar=lambda v: v.n <= b.B)
        if view.depth == 2:
            yield Cand('lemma', scalar=lambda v: step_lemma(ctx, v.n, b.frames(v.outer[0][1]), b.N))
        for key in view_arrays(view, 'new[]'):
            if view.depth > 1 or over:
                yield Cand('image is the sum so far', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < b.N), val == exact(value(v, idx[0]))))
            else:
                yield Cand('image is the mean', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < b.N),
                    val == z3.If(idx[0] < v.n, mean(idx[0]), exact(S0(idx[0], b.B)))))
        for nm, x in view.phis.items():
            if isinstance(x, I) and x.n == 64 and over:
                yield Cand('%s counts the frames' % nm, scalar=lambda v, nm=nm: v.phis[nm].p.eq(count(C(v.n if v.depth == 1 else v.outer[0][1]))) if isinstance(v.phis[nm], I) else FALSE)
    def mean(j):
        return ex.rop(T.st, 'fdiv', R(exact(S0(j, b.B)), 64), R(exact(C(b.B)), 64), 64).z
    T.cands.append(cands)
    for st, v in T.run([ptr(out), I(P(0), 64), I(b.B, 64)]):
        dp = ex.load(st, ('ptr',), ptr(out, b.c['vc_image_data']), 'result')
        g, reg, par, off = stdlib.one(dp)
        j = fresh_int('j')
        T.ensure(st, ex.size_now(st, reg, ()).eq(b.N), 'the result has one value per detector pixel')
        T.ensure(st, Implies(And(j >= 0, j < b.N), ex.array(st, reg, 0, ('real', 64)).read((j,)) == mean(j)), 'result[j] is the mean of all frames at pixel j')

def maximum(with_dark):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        b = Blocks(T)
        T.assume(b.B >= 1)
        out = T.record('result')
        big = lambda x, y: iteP(P(y) > P(x), P(y), P(x))
        S0, S1 = sums(T, b, big)
        args = [ptr(out), I(P(0), 64), I(b.B, 64)]
        given = FALSE
        if with_dark:
            dw, dh = T.int('darkWidth', 32), T.int('darkHeight', 32)
            given = dw.p > 0
            T.assume(Implies(given, And(dw.p.eq(b.W.p), dh.p.eq(b.H.p))))
            DK = T.array('dark', 'float', b.N, readonly=True)
            dk = ex.array(T.st, DK, 0, ('real', 32))
            args.append(ptr(T.record('dark', {0: dw, 4: dh, b.c['vc_image_data']: ptr(DK)})))
        def nn(x):
            ctx.add(x >= 0)
            return z3.ToReal(x.z())
        def value(v, j):
            if v.depth == 1:
                return S0(j, v.n)
            n = v.outer[0][1]
            if v.depth == 2:
                return big(S0(j, n), S1(n, j, v.n))
            i = v.outer[1][1]
            old = big(S0(j, n), S1(n, j, i))
            return iteP(j < v.n, big(old, b.px.read((n, i * b.N + j))), old)
        def result(j):
            m = R(nn(S0(j, b.B)), 64)
            if not with_dark:
                return m.z
            return z3.If(given, ex.rop(T.st, 'fsub', m, R(dk.read((j,)), 64), 64).z, m.z)
        def cands(view):
            over = calls(view, 'VcIt::')
            if view.depth == 1 and over:
                yield Cand('block', scalar=lambda v: v.n <= b.B)
            if view.depth == 2:
                yield Cand('lemma', scalar=lambda v: step_lemma(ctx, v.n, b.frames(v.outer[0][1]), b.N))
            for key in view_arrays(view, 'new[]'):
                if view.depth > 1 or over:
                    yield Cand('image is the maximum so far', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < b.N), val == z3.ToReal(value(v, idx[0]).z())))
                elif with_dark:
                    yield Cand('dark reference subtracted', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < b.N, given),
                        val == z3.If(idx[0] < v.n, result(idx[0]), nn(S0(idx[0], b.B)))))
        T.cands.append(cands)
        for st, v in T.run(args):
            dp = ex.load(st, ('ptr',), ptr(out, b.c['vc_image_data']), 'result')
            g, reg, par, off = stdlib.one(dp)
            j = fresh_int('j')
            T.ensure(st, ex.size_now(st, reg, ()).eq(b.N), 'the result has one value per detector pixel')
            T.ensure(st, Implies(And(j >= 0, j < b.N), ex.array(st, reg, 0, ('real', 64)).read((j,)) == result(j)), 'result[j] is the maximum of all frames at pixel j' + (', less the dark reference if there is one' if with_dark else ''))
    return fn

def tasks():
    return [Task('calculateAverage', UB, r'^vc_average$', average, keep=KEEP),
            Task('maximumDiffractionPattern(dark)', UB, r'^vc_maximum$', maximum(True), keep=KEEP),
            Task('maximumDiffractionPattern', UB, r'^vc_maximum_plain$', maximum(False), keep=KEEP)]

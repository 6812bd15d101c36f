"""C09: histogram of a STEM image.

getContainer(image, n)          (edges)
  requires 1 <= n < 2^31 - 1, at least one pixel, pixel values below 2^53 (exact as double).
  ensures n+1 edges; edge 0 is exactly the minimum, edge n exactly the maximum; edge i in between is
  min + i * ((max - min) / n) (each operation rounded); edges never decrease.
createSTEMHistogram(image, n, edges)
  requires n >= 1, n+1 edges that never decrease, fewer than 2^31 pixels, pixel values below 2^53.
  ensures n counts; count j is the number of pixels in [edge j, edge j+1), plus, for j = n-1, those equal to
  edge n.
Lemma (over these contracts): if the edges never decrease, edge 0 <= v <= edge n, then v is counted in exactly one
bin; so the counts add up to the number of pixels."""
from common import *

UI = unit('stempy/image.cpp', 'image')
ASSUMPTIONS = ['pixel values below 2^53; at least one pixel, fewer than 2^31; 1 <= bins < 2^31 - 1',
               'std::minmax_element returns the places of the smallest and the largest element (trusted contract)',
               'IEEE double rounding is monotone, leaves representable numbers unchanged and has relative error at most 2^-53 (no underflow: the differences are integers divided by less than 2^31)']
U53 = z3.RealVal(1) / z3.RealVal(1 << 53)
rd = rnd[64]

def image(T, maxpix):
    ctx, ex = T.ctx, T.ex
    sw, sh = T.int('scanWidth', 32), T.int('scanHeight', 32)
    n = sw.p * sh.p
    T.assume(And(n >= 1, n < maxpix))
    D = T.array('image', 'unsigned long', n, readonly=True)
    c = {0: sw, 4: sh, 8: ptr(D)}
    img = ex.array(T.st, D, 0, ('int', 64))
    def px(k):
        v = img.read((P(k),))
        ctx.add(And(v >= 0, v < (1 << 53)))
        return v
    return sw, sh, n, D, ptr(T.record('STEMImage', c)), px

def monotone(ctx, xs):
    """rounding is monotone, on the given reals"""
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            ctx.add(z3.Implies(x <= y, rd(x) <= rd(y)))
            ctx.add(z3.Implies(y <= x, rd(y) <= rd(x)))

def edges(T):
    ctx, ex = T.ctx, T.ex
    sw, sh, n, D, im, px = image(T, 1 << 32)
    nb = T.int('numBins', 32, 1, (1 << 31) - 2)
    lo, hi = fresh_int('minimum'), fresh_int('maximum')
    ctx.setrange(lo, 0, (1 << 53) - 1)
    ctx.setrange(hi, 0, (1 << 53) - 1)
    def minmax(ex, st, d, a, ins):
        (p, q), f = a[:2], stdlib.one
        ex.oblige(st, And(B(f(p)[1] is D and f(q)[1] is D), f(p)[3].eq(0), ex.simp(st, f(q)[3]).eq(n * 8)), 'minmax_element: all pixels of the image', 'pre')
        out = []
        for want in (lo, hi):
            at = fresh_int('at')
            ctx.setrange(at, 0, (1 << 32) - 1)
            ctx.add(And(at >= 0, at < n, px(at).eq(want)))
            out.append(ex.padd(ptr(D), at * 8))
        ctx.add(lo <= hi)
        ex.trusted.add('std::minmax_element')
        return Agg(out)
    ex.handlers = [(re.compile(r'\bstd::minmax_element<'), minmax)] + ex.handlers
    MIN, MAX, NB = z3.ToReal(lo.z()), z3.ToReal(hi.z()), z3.ToReal(nb.p.z())
    span = z3.ToReal((hi - lo).z())
    step = rd(llexec.rdiv(span, NB))
    rmul = lambda i: ex.rmul(R(None, 64, P(i)), R(step, 64))
    def edge(i):
        """edge i, 0 <= i < n"""
        i = P(i)
        m = rmul(i)
        e = MIN + rd(m)
        facts(i, m, e)
        return rd(e)
    exact = lambda x: ctx.add(rd(x) == x)
    first = []
    seen = []
    def facts(i, m, e):
        if not first:
            first.append(1)
            for x in (MIN, MAX, span, z3.RealVal(0)):
                exact(x)
            ctx.add(z3.And(llexec.rdiv(span, NB) >= 0, step >= 0))          # quotient of a non-negative by a positive number, rounded
        if any(k.same(i) for k, _, _ in seen):
            return
        ctx.add(z3.Implies(i.z() == 0, m == 0))                           # real multiplication
        ctx.add(z3.Implies(i.z() >= 0, m >= 0))
        ctx.add(Implies(And(i >= 0, i < nb.p), B(m <= span)))             # lemma 'a multiple of the rounded step does not exceed the span'
        monotone(ctx, [m, z3.RealVal(0)])
        monotone(ctx, [m, span])
        monotone(ctx, [e, MIN])
        monotone(ctx, [e, MAX])
        for k, m2, e2 in seen:
            ctx.add(z3.And(z3.Implies(k.z() <= i.z(), m2 <= m), z3.Implies(i.z() <= k.z(), m <= m2)))
            monotone(ctx, [m, m2])
            monotone(ctx, [e, e2])
        seen.append((i, m, e))
    out = T.record('edges')
    out.vec = {0: data_region(ex, 'double', 'edges', 0)}
    E = out.vec[0]
    def want(i):
        return z3.If(i.eq(nb.p), MAX, edge(i))
    def cands(view):
        yield Cand('size', scalar=lambda v: dynsize(ex, v.st, E, ()).eq(v.n))
        yield Cand('at most one more', scalar=lambda v: v.n <= nb.p + 1)
        yield Cand('edges', key=('a', E, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < dynsize(ex, v.st, E, ())), B(val == want(idx[0]))))
    T.cands.append(cands)
    for st, v in T.run([ptr(out), im, nb]):
        T.ensure(st, dynsize(ex, st, E, ()).eq(nb.p + 1), 'one more edge than bins')
        a = ex.array(st, E, 0, ('double',) if False else E.fields[0])
        T.ensure(st, B(a.read((P(0),)) == MIN), 'the first edge is the minimum')
        T.ensure(st, B(a.read((nb.p,)) == MAX), 'the last edge is the maximum')
        i = fresh_int('i')
        T.ensure(st, Implies(And(i >= 0, i < nb.p), B(a.read((i,)) == edge(i))), 'the edges are equally spaced')
        T.ensure(st, Implies(And(i >= 0, i < nb.p), B(a.read((i,)) <= a.read((i + 1,)))), 'the edges never decrease')
        lemma(T, st, 'a multiple of the rounded step does not exceed the span', span_lemma)

def span_lemma():
    s, d, n, i = z3.Reals('s d n i')
    # s: rounded step, d: span, i <= n - 1, n < 2^31
    return [d >= 0, n >= 1, n < 1 << 31, i >= 0, i <= n - 1, s >= 0, s * n <= d * (1 + U53)], i * s <= d

def lemma(T, st, name, fn):
    """a fact of real arithmetic, decided on its own"""
    hyps, goal = fn()
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', 60000)
    s.add(*hyps, z3.Not(goal))
    T.ensure(st, B(z3.BoolVal(s.check() == z3.unsat)), 'lemma: ' + name)

def histogram(T):
    ctx, ex = T.ctx, T.ex
    sw, sh, n, D, im, px = image(T, 1 << 31)
    nb = T.int('numBins', 32, 1, (1 << 31) - 2)
    bv, BD = T.vector('bins', 'double', nb.p + 1, readonly=True)
    bins = ex.array(T.st, BD, 0, BD.fields[0])
    b = lambda j: bins.read((P(j),))
    out = T.record('frequencies')
    out.vec = {0: data_region(ex, 'int', 'frequencies', 0)}
    F = out.vec[0]
    val = lambda i: z3.ToReal(px(i).z())
    def inbin(i, j):
        i, j = P(i), P(j)
        ctx.add(Implies(And(j >= 0, j < nb.p), And(B(b(j) <= b(j + 1)), B(b(j + 1) <= b(nb.p)))))         # requires
        return And(B(val(i) >= b(j)), B(val(i) < b(j + 1)))
    top = lambda i, j: And(P(j).eq(nb.p - 1), B(val(i) == b(nb.p)))
    S = Fold(ctx, 'count', lambda j, i: iteP(inbin(i, j), P(1), P(0)) + iteP(top(i, j), P(1), P(0)), arity=1, nonneg=True)
    S.upper = 1
    def cands(view):
        def fact(v, idx, x):
            j = idx[0]
            if v.depth == 1:
                w = S(j, v.n)
            else:
                i = v.outer[0][1]
                w = S(j, i) + iteP(And(j < v.n, inbin(i, j)), P(1), P(0))
            return Implies(And(j >= 0, j < nb.p), And(x.eq(w), x >= 0))
        yield Cand('counts', key=('a', F, 0), forall=fact)
    T.cands.append(cands)
    for st, v in T.run([ptr(out), im, nb, bv]):
        T.ensure(st, dynsize(ex, st, F, ()).eq(nb.p), 'one count per bin')
        j = fresh_int('j')
        T.ensure(st, Implies(And(j >= 0, j < nb.p), ex.array(st, F, 0, ('int', 32)).read((j,)).eq(S(j, n))), 'count j is the number of pixels in bin j')
        # lemma: every pixel lies in exactly one bin
        i = fresh_int('i')
        k = fresh_int('k')
        c = Fold(ctx, 'bins containing pixel', lambda i, j: iteP(inbin(i, j), P(1), P(0)), arity=1)
        sorted_ = And(B(b(0) <= val(i)), B(b(k) <= b(k + 1)))
        T.ensure(st, c(i, P(0)).eq(0), 'lemma: no bin among the first 0 contains the pixel')
        T.ensure(st, Implies(And(k >= 0, k < nb.p, sorted_, c(i, k).eq(iteP(B(val(i) < b(k)), P(1), P(0)))), c(i, k + 1).eq(iteP(B(val(i) < b(k + 1)), P(1), P(0)))), 'lemma: exactly one of the first k+1 bins contains a pixel below edge k+1, none if it is not below')
        T.ensure(st, Implies(And(B(val(i) <= b(nb.p)), c(i, nb.p).eq(iteP(B(val(i) < b(nb.p)), P(1), P(0)))), (c(i, nb.p) + iteP(B(val(i) == b(nb.p)), P(1), P(0))).eq(1)), 'lemma: a pixel up to the last edge is counted exactly once')

def tasks():
    return [Task('getContainer', UI, r'^stempy::getContainer\(', edges, keep=lambda d: bool(re.search(r'\bstd::minmax_element<', d.split('(')[0]))),
            Task('createSTEMHistogram', UI, r'^stempy::createSTEMHistogram\(', histogram)]

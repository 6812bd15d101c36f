from pycommon import *
import pynp
ASSUMPTIONS = ['frames list each pixel at most once', 'the radii, centres and apertures are finite numbers; there are as many radii as centres']
SQ = pynp.SQRT

def sum_sparse(T):
    H, W, M = T.int('H', 1), T.int('W', 1), T.int('M', 0)
    N = z3.simplify(H * W)
    c, get = T.frames([M], N)
    ev = T.ex.new(OA([M], get))
    for st, v in T.normal(T.run(T.glob('image', 'calculate_sum_sparse'), [ev, (H, W)])):
        i, j = fresh('i'), fresh('j')
        d = T.dense(st, v, [H, W])
        T.ensure('every pixel counts its events', d.read(i, j) == T.th.sigma(M, lambda f: c(f, i * W + j)), st, [i >= 0, i < H, j >= 0, j < W])

def mask(T):
    A = T.array()
    m = T.th.fn('mask', 2)
    mk = T.ex.new(D(A.S, lambda i, j: m(i, j), DT('i8')))
    for st, v in T.normal(T.run(T.glob('image', 'mask_real_space'), [A.ref, mk])):
        d = T.dense(st, v, [A.H, A.W])
        i, j = fresh('i'), fresh('j')
        spec = T.th.sigma(A.S[0], lambda a: T.th.sigma(A.S[1], lambda b: ite(m(a, b) != 0, A.D(A.pos(a, b), i * A.W + j), 0)))
        T.ensure('every pixel counts the events of the selected positions', d.read(i, j) == spec, st, [i >= 0, i < A.H, j >= 0, j < A.W])
        T.unchanged(A, st)

def darkfield(single, sort=REAL):
    C = lambda n: z3.Const(n, sort)
    R_ = lambda x: z3.ToReal(x) if sort == INT else x
    def f(T):
        A = T.array()
        if single:
            R = z3.IntVal(1)
            x, y, r = C('cx'), C('cy'), C('radius')
            cx, cy, rr = (lambda k: x), (lambda k: y), (lambda k: r)
            args = [x, y, r]
        else:
            R = T.int('apertures', 0)
            cx, cy, rr = T.th.fn('cx', 1, sort), T.th.fn('cy', 1, sort), T.th.fn('rr', 1, sort)
            args = [Seq(R, lambda k: cx(k)), Seq(R, lambda k: cy(k)), Seq(R, lambda k: rr(k))]
        for st, v in T.normal(T.run(T.glob('image', 'virtual_darkfield'), [A.ref] + args)):
            d = T.dense(st, v, A.S)
            i, j = fresh('i'), fresh('j')
            p = A.pos(i, j)
            def inside(k, e):
                dr, dc = z3.ToReal(e / A.W) - R_(cy(k)), z3.ToReal(e % A.W) - R_(cx(k))
                return SQ(dr * dr + dc * dc) < R_(rr(k))
            spec = T.th.sigma(A.F, lambda f: T.th.sigma(R, lambda k: T.th.sigma(A.N, lambda e: ite(inside(k, e), A.c(p, f, e), 0))))
            T.ensure('every position counts the events inside the apertures', d.read(i, j) == spec, st, [i >= 0, i < A.S[0], j >= 0, j < A.S[1]])
            T.unchanged(A, st)
    return f

def radial(sort):
    R_ = lambda x: z3.ToReal(x) if sort == INT else x
    return lambda T: radial_(T, sort, R_)
def radial_(T, sort, R_):
    A = T.array()
    T.assume(Or(A.H >= 2, A.W >= 2))
    c0, c1 = z3.Const('center0', sort), z3.Const('center1', sort)
    for st, v in T.normal(T.run(T.glob('image', 'radial_sum_sparse'), [A.ref, (c0, c1)])):
        B = z3.If(A.H >= A.W, A.H, A.W) / 2
        d = T.dense(st, v, [A.S[0], A.S[1], B])
        i, j, k = fresh('i'), fresh('j'), fresh('k')
        p = A.pos(i, j)
        def inside(e):
            dr, dc = z3.ToReal(e / A.W) - R_(c0), z3.ToReal(e % A.W) - R_(c1)
            r = SQ(dr * dr + dc * dc)
            return Or(And(r >= z3.ToReal(k), r < z3.ToReal(k + 1)), And(k == B - 1, r == z3.ToReal(k + 1)))
        spec = T.th.sigma(A.F, lambda f: T.th.sigma(A.N, lambda e: ite(inside(e), A.c(p, f, e), 0)))
        T.ensure('every bin counts its events', d.read(i, j, k) == spec, st, [i >= 0, i < A.S[0], j >= 0, j < A.S[1], k >= 0, k < B])
        T.unchanged(A, st)

def tasks():
    return [PyTask('calculate_sum_sparse', sum_sparse), PyTask('mask_real_space', mask), PyTask('virtual_darkfield', darkfield(False)),
            PyTask('virtual_darkfield, one aperture', darkfield(True)), PyTask('virtual_darkfield, integer apertures', darkfield(False, INT)),
            PyTask('virtual_darkfield, one integer aperture', darkfield(True, INT)), PyTask('radial_sum_sparse', radial(REAL)), PyTask('radial_sum_sparse, integer centre', radial(INT))]

"""C01: maximalPoints(frame, dims) returns the strict local maxima, ascending, each once.

Contract.  requires: frame.size() >= width*height, 1 <= width, height <= 65535 (the code narrows
neighbour coordinates to 16 bits) and width*height < 2^32.
ensures: result.size() == C(width*height) where C(k) = number of strict local maxima among pixels
0..k-1, and for every j < result.size(): result[j] < width*height is a strict local maximum and
C(result[j]) == j.  As C is non-decreasing and steps exactly at the maxima this determines the
result: all maxima, ascending, each once."""
from common import *

U = unit('stempy/electron.cpp', 'electron')
ASSUMPTIONS = ['1 <= width, height <= 65535 and width*height < 2^32', 'pixel values are not NaN']

def contract(elem, real):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        W, H = T.int('width', 32, 1, 65535), T.int('height', 32, 1, 65535)
        N = W.p * H.p
        T.assume(N < (1 << 32))
        size = fresh_int('size')
        T.assume(And(size >= N, size < (1 << 60)))
        fv, F = T.vector('frame', elem, size, readonly=True)
        res = ex.region('result')
        arr = ex.array(T.st, F, 0, F.fields[0])
        isMax, define = local_max(ctx, lambda k: arr.read((k,)), W.p, H.p)
        C = Fold(ctx, 'C', lambda k: iteP(isMax(k), 1, 0), nonneg=True)
        C.upper = 1
        res.vec = {0: data_region(ex, 'unsigned int', 'events', 0)}
        E = res.vec[0]
        def fact(n, j, v, size):
            return Implies(And(j >= 0, j < size), And(v >= 0, v < n, isMax(v), C(v).eq(j)))
        def cands(view):
            st = view.st
            def scalar(v):
                define(v.n)
                return And(dynsize(ex, v.st, E, ()).eq(C(v.n)), C(v.n) <= v.n, v.n >= 0)
            yield Cand('size == C(n)', scalar=scalar)
            yield Cand('events', key=('a', E, 0), forall=lambda v, idx, val: fact(v.n, idx[0], val, dynsize(ex, v.st, E, ())))
        T.cands.append(cands)
        for st, v in T.run([ptr(res), fv, T.pair32(W, H)]):
            n = dynsize(ex, st, E, ())
            T.ensure(st, n.eq(C(N)), 'as many events as strict local maxima')
            j = fresh_int('j')
            T.ensure(st, fact(N, j, ex.array(st, E, 0, ('int', 32)).read((j,)), n), 'events[j] is the strict local maximum number j')
    return fn

def tasks():
    r = r'^std::vector<unsigned int, .*stempy::maximalPoints<%s>\('
    return [Task('maximalPoints<uint16_t>', U, r % 'unsigned short', contract('unsigned short', False)),
            Task('maximalPoints<float>', U, r % 'float', contract('float', True))]

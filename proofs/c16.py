from pycommon import *
ASSUMPTIONS = ['frames list each pixel at most once']

def bin_scans(in_place):
    def f(T):
        b, n0, n1 = T.int('b', 1), T.int('n0', 1), T.int('n1', 1)
        A = T.array(2, shape=[n0 * b, n1 * b])
        T.th.sum_rules.append(flat_rule(T))
        for st, v in T.normal(T.run(T.ex.getattr(A.ref, 'bin_scans'), [b, in_place])):
            R = Result(T, st, v)
            T.fact('the result is the array itself exactly if it is binned in place', (v == A.ref) == in_place)
            for x, y in zip(R.scan_shape + R.frame_shape, [n0, n1, A.H, A.W]):
                T.ensure('the result has the binned shape', x == y, st)
            T.ensure('there is one row per position', R.P == n0 * n1, st)
            p, e = fresh('p'), fresh('e')
            i, j = p / n1, p % n1
            inb = [p >= 0, p < n0 * n1, e >= 0, e < A.N]
            spec = T.th.sigma(b, lambda x: T.th.sigma(b, lambda y: A.D(A.pos(i * b + x, j * b + y), e)))
            T.ensure('every binned position is the sum of its block', R.D(p, e) == spec, st, inb)
            k = fresh('k')
            T.ensure('a frame lists a pixel at most once', R.frame(p, k, e) <= 1, st, inb + [k >= 0, k < R.F])
            if not in_place:
                T.unchanged(A, st)
    return f

def tasks():
    return [PyTask('SparseArray.bin_scans, in_place=%s' % p, bin_scans(p)) for p in (False, True)]

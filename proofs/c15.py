from pycommon import *
from pynp import MAXV
ASSUMPTIONS = ['frames list each pixel at most once; there is at least one frame per position', 'the counts fit the result type']

def red(name, group, scan):
    def f(T):
        A = T.array(scan)
        th = T.th
        th.fubini = group == 'frame' and name in ('sum', 'mean')
        T.assume(MAXV >= 1)
        pv = [fresh('p'), fresh('v')]
        axes = tuple(range(scan)) if group == 'scan' else (scan, scan + 1)
        variants = [axes, group, tuple(reversed(axes))] + ([0] if axes == (0,) else [])
        base = T.ex.st
        for ax in variants:
            T.ex.st = base.copy()
            b2 = T.ex.st
            for st, v in T.normal(T.run(T.ex.getattr(A.ref, name), [ax])):
                shape = [A.H, A.W] if group == 'scan' else A.S
                d = T.dense(st, v, shape)
                idx = [fresh('i') for _ in shape]
                inb = [And(i >= 0, i < s) for i, s in zip(idx, shape)]
                flat = idx[0] * A.W + idx[1] if group == 'scan' else A.pos(*idx)
                n = A.P if group == 'scan' else A.N
                cell = (lambda k: A.D(k, flat)) if group == 'scan' else (lambda k: A.D(flat, k))
                T.extra_hyps = []
                if name == 'sum':
                    spec = th.sigma(n, cell)
                elif name == 'mean':
                    spec = z3.ToReal(th.sigma(n, cell)) / z3.ToReal(n)
                elif name == 'max':
                    spec = th.rec(n, 0, lambda k, a: z3.If(cell(k) > a, cell(k), a))
                else:
                    # the counts fit the type, so that its largest value is an upper bound
                    th.cap = MAXV
                    spec = th.rec(n, MAXV, lambda k, a: z3.If(cell(k) < a, cell(k), a))
                hy = list(inb)
                if name == 'min' and group == 'frame':
                    mn = lambda m: th.rec(m, MAXV, lambda k, a: z3.If(cell(k) < a, cell(k), a))
                    nz = lambda m: th.sigma(m, lambda k: cell(k) > 0)
                    pr = lambda m: th.rec(m, MAXV, lambda k, a: ite(cell(k) > 0, z3.If(cell(k) < a, cell(k), a), a))
                    hy += T.induct('a positive minimum means that no pixel is empty', lambda m: And(mn(m) >= 0, nz(m) <= m, (mn(m) > 0) == (nz(m) == m), Implies(nz(m) == m, pr(m) == mn(m))), n, inb)
                T.ensure('%s over the %s axes equals the dense one' % (name, group), d.read(*idx) == spec, st, hy, fn='SparseArray.' + name)
                T.unchanged(A, st)
            T.obligations()
        T.ex.st = base
    return f

def tasks():
    return [PyTask('SparseArray.%s, %s axes, %d-D scan' % (n, g, s), red(n, g, s)) for n in ('sum', 'mean', 'max', 'min') for g in ('scan', 'frame') for s in (2, 1)]

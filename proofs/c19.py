from pycommon import *
import pynp
ASSUMPTIONS = ['frames list each pixel at most once', 'the crop radius and the initial centre are finite numbers']
SQ = pynp.SQRT

def com(version, crop, init, replace, one_frame=None):
    def f(T):
        A = T.array(frames=1 if one_frame else None)
        if one_frame is False:
            T.assume(A.F >= 2)
        frames = lambda g: g(z3.IntVal(0)) if one_frame else T.th.sigma(A.F, g)
        T.ex.nan_arrays = True
        args = [A.ref]
        c = z3.Const('crop', REAL) if crop else None
        i0, i1 = (z3.Const('init0', REAL), z3.Const('init1', REAL)) if init else (None, None)
        for st, v in T.normal(T.run(T.glob('image', 'com_sparse'), [A.ref], dict(crop_to=c, init_center=(i0, i1) if init else None, replace_nans=replace, version=version))):
            d = T.dense(st, v, [z3.IntVal(2), A.S[0], A.S[1]])
            th = T.th
            R_ = z3.ToReal
            S = lambda p, g: frames(lambda f: th.sigma(A.N, lambda e: g(e) * A.c(p, f, e)))
            row, col, one = (lambda e: e / A.W), (lambda e: e % A.W), (lambda e: 1)
            def parts(p):
                if not crop:
                    return tuple(S(p, g) for g in (one, row, col))
                r0, c0 = (i0, i1) if init else (R_(S(p, row)) / R_(S(p, one)), R_(S(p, col)) / R_(S(p, one)))
                near = lambda e: SQ((R_(row(e)) - r0) * (R_(row(e)) - r0) + (R_(col(e)) - c0) * (R_(col(e)) - c0)) <= c
                S2 = lambda g: frames(lambda f: th.sigma(A.N, lambda e: ite(near(e), g(e) * A.c(p, f, e), 0)))
                return S2(one), S2(row), S2(col)
            i, j = fresh('i'), fresh('j')
            p = A.pos(i, j)
            inb = [i >= 0, i < A.S[0], j >= 0, j < A.S[1]]
            pv = fresh('p')
            nrk = parts(pv)
            n, r, k = (z3.substitute(x, (pv, p)) for x in nrk)
            others = lambda g: th.sigma(A.S[0], lambda a: th.sigma(A.S[1], lambda b: z3.substitute(g, (pv, A.pos(a, b)))))
            if crop:
                T.lemma_le('no more events near the centre than there are', nrk[0], S(pv, one), pv)
            if version:
                inb = inb + T.points(st.pc, A.P, p) + T.ordered(st.pc, A.P)
                if replace:
                    rows = T.points(st.pc, A.S[0], i)
                    inb = inb + rows + T.points(rows, A.S[1], j)
            x = [d.read(z3.IntVal(t), i, j) for t in (0, 1)]
            if version and replace:
                c1 = ite(S(pv, one) > 0, z3.IntVal(1), z3.IntVal(0))
                inb = inb + T.flat('positions with events, counted by rows', c1, A.S[0], A.S[1], pv)
            nall = z3.substitute(S(pv, one), (pv, p))
            for case, some in ((', with events', [nall > 0]), (', without events', [nall == 0])) if version and crop and not init else (('', []),):
                for t, (s, nm) in enumerate(((k, 'column'), (r, 'row'))):
                    T.ensure('%s: defined where there are events' % (nm + case), Implies(n > 0, Not(x[t].nan)) if isinstance(x[t], F) else TRUE, st, inb + some)
                    T.ensure('%s: the mean of the events' % (nm + case), Implies(n > 0, (x[t].val if isinstance(x[t], F) else x[t]) == R_(s) / R_(n)), st, inb + some)
                    if not replace:
                        T.ensure('%s: not a number without events' % (nm + case), Implies(n == 0, x[t].nan), st, inb + some)
                    else:
                        cnt = others(ite(nrk[0] > 0, z3.IntVal(1), z3.IntVal(0)))
                        tot = others(ite(nrk[0] > 0, R_((nrk[2], nrk[1])[t]) / R_(nrk[0]), z3.RealVal(0)))
                        y = x[t] if isinstance(x[t], F) else F(False, x[t])
                        T.ensure('%s: without events anywhere not a number' % (nm + case), Implies(And(n == 0, cnt == 0), y.nan), st, inb + some)
                        T.ensure('%s: without events the mean of the others' % (nm + case), Implies(And(n == 0, cnt > 0), And(Not(y.nan), y.val == tot / R_(cnt))), st, inb + some)
            T.unchanged(A, st)
    return f

BOUNDED = 'version 1 of com_sparse with replace_nans, and with a crop radius around the full mean, is not under contract: run-time cases only'
ASSUMPTIONS.append(BOUNDED)
def tasks():
    name = 'com_sparse version %d, crop=%d, initial centre=%d, replace=%d%s'
    return [PyTask(name % (0, c, i, r, ''), com(0, c, i, r)) for c in (0, 1) for i in (0, 1) for r in (0, 1)] + \
        [PyTask(name % (1, c, i, 0, t), com(1, c, i, 0, o)) for t, o in ((', one frame per position', True), (', several frames per position', False)) for c, i in ((0, 0), (0, 1), (1, 1))]

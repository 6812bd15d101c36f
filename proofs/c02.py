"""C02: per-pixel preprocessing before events are searched.

Contract of electronCount(frame, dims, dark, background, xray, gain, rowDark, mean, useMean) for the
four instances (float|uint16_t) x (dark|no dark).
requires: frame, dark and gain have width*height elements, width*height < 2^32; for integer frames the
dark values lie in [0, 65536) and a pixel below its dark value wraps to at least the x-ray threshold.
ensures: without row-dark correction, at the one call of maximalPoints every pixel k of the frame
equals value(k) if background < value(k) < xray and 0 otherwise, where value(k) is pixel k minus
dark[k] (if there is a dark reference; its fractional part dropped for integer frames) times gain[k]
(float frames); the result is what maximalPoints returns (contract of C01) and only the frame is
written.  With row-dark correction the frame is handed to applyRowDark (contract of C03) unchanged,
with the same references and thresholds, and nothing else is done to it.
The driver over a sequence of blocks does the same inline: see counting.py."""
from common import *
import counting

U = unit('stempy/electron.cpp', 'electron')
ASSUMPTIONS = ['width*height < 2^32; pixel, dark, gain and threshold values are finite',
               'integer frames: dark values in [0, 65536); a pixel below its dark value wraps around to at least the x-ray threshold'] + counting.ASSUMPTIONS

def value(ex, st, real, x, d, g):
    """x: pixel (R or Poly), d/g: R or None -> the corrected value, as R (float frames) or Poly"""
    if real:
        v = x
        if d is not None:
            v = ex.rop(st, 'fsub', v, d, 32)
        return ex.rop(st, 'fmul', v, g, 32)
    return x if d is None else x - ex.fptoi(d, 16, False).p

def contract(real, dark):
    elem = 'float' if real else 'unsigned short'
    def fn(T):
        ctx, ex = T.ctx, T.ex
        W, H = T.int('width', 32), T.int('height', 32)
        N = W.p * H.p
        T.assume(N < (1 << 32))
        fv, F = T.vector('frame', elem, N)
        D = T.array('dark', 'float', N, readonly=True)
        G = T.array('gain', 'float', N, readonly=True)
        bg, xr = R(fresh_real('background'), 64), R(fresh_real('xray'), 64)
        mean = R(fresh_real('optimizedMean'), 32)
        rowdark, usemean = fresh_bool('applyRowDark'), fresh_bool('useMean')
        gh = ex.region('ghost')
        gh.init = lambda o, ty: I(P(0), 32)
        ty = F.fields[0]
        x0 = ex.array(T.st, F, 0, ty)
        da, ga = ex.array(T.st, D, 0, ('real', 32)), ex.array(T.st, G, 0, ('real', 32))
        res = ex.region('result')
        dims = T.pair32(W, H)
        def spec(k):
            x = x0.read((k,))
            d = R(da.read((k,)), 32) if dark else None
            g = R(ga.read((k,)), 32)
            if real:
                v = value(ex, T.st, True, R(x, 32), d, g).z
                return z3.If(And(v > bg.z, v < xr.z), v, z3.RealVal(0))
            if d is not None:
                ctx.add(Implies(And(k >= 0, k < N), And(d.z >= 0, d.z < 65536)))
            v = value(ex, T.st, False, x, d, g)
            if d is not None:
                ctx.add(Implies(And(k >= 0, k < N, v < 0), z3.ToReal((v + 65536).z()) >= xr.z))
            vz = z3.ToReal(v.z())
            ok = And(vz > bg.z, vz < xr.z)
            if d is not None:
                ok = And(ok, v >= 0)
            return iteP(ok, v, P(0))
        def eq(a, b):
            return a.eq(b) if isinstance(a, Poly) else a == b
        def inv(v, idx, val):
            k = idx[0]
            return And(Implies(And(k >= 0, k < v.n, k < N), eq(val, spec(k))), Implies(k >= v.n, eq(val, x0.read(idx))))
        def cands(view):
            yield Cand('pixels', key=('a', F, 0), forall=inv)
        T.cands.append(cands)
        def count(st):
            return st.mem.get(('c', gh, 0), I(P(0), 32)).p
        def args(st, a, dimpos):
            return
        def h_max(ex, st, d, a, ins):
            sr, f, dm = a
            rd = st.mem.get(('c', gh, 4), I(P(0), 32)).p
            k = fresh_int('k')
            val = ex.array(st, F, 0, ty).read((k,))
            sk = spec(k)
            ex.oblige(st, Implies(And(Not(rowdark), k >= 0, k < N), eq(val, sk)), 'the searched frame is the preprocessed frame', 'post')
            ex.oblige(st, Implies(Not(rowdark), rd.eq(0)), 'no row-dark correction unless requested', 'post')
            ex.oblige(st, Implies(rowdark, rd.eq(1)), 'row-dark correction exactly once when requested', 'post')
            ex.oblige(st, ex.u(st, dm).eq(dims.p), 'the frame is searched with its own dimensions', 'pre')
            Dv, par = vec_of(ex, st, f)
            ex.oblige(st, B(Dv is F), 'the events are searched in the frame', 'pre')
            E, epar = vec_of(ex, st, sr, 'unsigned int')
            ex.oblige(st, B(any(o[1] is res for o in sr.opts)), 'the result is what the search returns', 'post')
            st.mem[('c', gh, 0)] = I(count(st) + 1, 32)
        def h_row(ex, st, d, a, ins):
            f, dm, mn, b, x, dk, gn, um = a
            k = fresh_int('k')
            Dv, par = vec_of(ex, st, f)
            ex.oblige(st, And(rowdark, B(Dv is F)), 'row-dark correction of the frame, when requested', 'pre')
            ex.oblige(st, eq(ex.array(st, F, 0, ty).read((k,)), x0.read((k,))), 'row-dark correction of the uncorrected frame', 'pre')
            ex.oblige(st, And(ex.u(st, dm).eq(dims.p), mn.z == mean.z, b.z == bg.z, x.z == xr.z, um.b == usemean), 'row-dark correction with the given mean, thresholds and statistic', 'pre')
            ok = all(p.opts[0][1] is q and p.opts[0][3].same(0) for p, q in ((dk, D), (gn, G)))
            ex.oblige(st, B(ok), 'row-dark correction with the dark reference and gain', 'pre')
            st.mem[('c', gh, 4)] = I(st.mem.get(('c', gh, 4), I(P(0), 32)).p + 1, 32)
            st.mem[('a', F, 0)] = ex.newbase(F, 0, ty, 'rowdark')
        ex.handlers = [(re.compile('maximalPoints<'), h_max), (re.compile('applyRowDark<'), h_row)] + ex.handlers
        for st, v in T.run([ptr(res), fv, dims, ptr(D), bg, xr, ptr(G), Bo(rowdark), mean, Bo(usemean)]):
            T.ensure(st, count(st).eq(1), 'the frame is searched exactly once')
    return fn

def tasks():
    out = []
    for ty, real in (('float', True), ('unsigned short', False)):
        for dark in (True, False):
            r = r'^std::vector<unsigned int, .*> stempy::electronCount<%s, %s>\(std::vector<%s,.*bool\)$' % (ty, 'true' if dark else 'false', ty)
            out.append(Task('electronCount(frame)<%s,%s>' % (ty, 'dark' if dark else 'no dark'), U, r, contract(real, dark),
                            keep=lambda d: bool(re.search(r'^(void |std::vector<unsigned int, std::allocator<unsigned int>> )stempy::(maximalPoints<|applyRowDark<(float|unsigned short)>)', d))))
    return out + counting.driver_tasks()

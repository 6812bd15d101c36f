"""C14: calibration of the thresholds.

calculateMean(values)               ensures the sum of the values (each addition rounded), divided by their number.
calculateVariance(values, mean)     ensures the sum of the squared differences from mean, divided by the number - 1.
calculateThresholds<block type, sample type, with or without a dark reference>
  requires at least one block, at least one frame in each, all frames of W x H pixels; at least one sample;
  W*H*samples < 2^31, frames of a block < 2^31 with W*H*frames < 2^31, blocks <= 2^31.
  ensures: every access lies inside its object (the block, the dark reference, the gain, the samples, the histogram);
  each of the W*H*samples samples is the corrected pixel of some existing frame of some existing block, at the same
  place of the frame (lambda S below: any set that contains the corrected pixels contains the samples); the mean and
  the variance are those of all the samples; the standard deviation is the root of the variance; the minimum is the
  minimum of all the samples; the x-ray threshold is mean + n * standard deviation; the number of samples is kept.
  If the samples span no bin, or the fit fails, it throws.
The fit itself (Eigen) is opaque: it only sees its own copies of the bins and the histogram."""
from common import *
from stdlib import data_region, dynsize
from blocks import consts, Sub

U = unit(os.path.join(frontend.HARNESS, 'vc/thresholds.cpp'), 'thresholds', ['-I' + os.path.join(frontend.HARNESS, 'vc'), '-DEIGEN_DONT_VECTORIZE'])
ASSUMPTIONS = ['at least one block with at least one frame, at least one sample; W*H*samples, W*H*frames per block and the number of blocks below 2^31',
               'std::uniform_int_distribution(a, b) with a <= b gives numbers in [a, b] (trusted contract)',
               'Eigen and the random engines only touch their own objects (trusted); fused and separate multiply-add are not told apart']
RX = r'^(?!.*::.lambda)(Eigen::|.* Eigen::|stempy::GaussianErrorFunctor::|std::uniform_int_distribution|.* std::uniform_int_distribution|std::random_device|std::linear_congruential|std::mersenne|std::.*minmax_element<|.* std::max_element<|std::max_element<|double stempy::calculate(Mean|Variance)|stempy::(Py)?Block::|stempy::DataHolder::get|std::pair<.*std::minmax_element<)'
KEEP = lambda d: bool(re.search(RX, d)) and 'static_if' not in d and 'calculateThresholds' not in d

def doubles(view):
    return [nm for nm, v in view.phis.items() if isinstance(v, R)]

def stat(which, real):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        n = T.int('n', 64, 1, 1 << 40).p
        v, D = T.vector('values', 'float' if real else 'unsigned short', n, readonly=True)
        a = ex.array(T.st, D, 0, D.fields[0])
        mean = R(fresh_real('mean'), 64)
        def value(k):
            x = a.read((k,))
            return R(x, 64) if real else ex.rint(T.st, x, 0, 65535, 64)
        def term(k):
            x = value(k)
            if which == 'mean':
                return x.z
            d = ex.rop(T.st, 'fsub', x, mean, 64)
            return ex.rop(T.st, 'fmul', d, d, 64).z
        S = Fold(ctx, 'sum', term, sort='real', init=z3.RealVal(0), comb=lambda s, x: ex.rop(T.st, 'fadd', R(s, 64), R(x, 64), 64).z)
        def cands(view):
            for nm in doubles(view):
                yield Cand('%s is the sum so far' % nm, scalar=lambda v, nm=nm: v.phis[nm].z == S(v.n))
        T.cands.append(cands)
        for st, r in T.run([v] if which == 'mean' else [v, mean]):
            m = ex.rint(T.st, n, 1, 1 << 40, 64)
            if which == 'variance':
                m = ex.rop(T.st, 'fsub', m, ex.rconst(1.0, 64), 64)
                st.assume(n >= 2)
            T.ensure(st, r.z == ex.rop(T.st, 'fdiv', R(S(n), 64), m, 64).z, 'the %s' % which)
    return fn

class Sample:
    """the blocks as a vector; S(k, x): x is in the set given for sample k"""
    def __init__(self, T, py, real, dark):
        self.T, ctx, ex = T, T.ctx, T.ex
        self.py, self.real, self.dark = py, real, dark
        c = self.c = consts(T.task.unit.raw)
        self.name = 'stempy::PyBlock' if py else 'stempy::Block'
        size = c['vc_pyblock_size'] if py else c['vc_block_size']
        self.doff = c['vc_pyblock_data'] if py else c['vc_block_data']
        u32 = (('int', 32), False)
        self.scal = [c['vc_scan'], c['vc_scan'] + 4, c['vc_frame'], c['vc_frame'] + 4, c['vc_images'], c['vc_version'], c['vc_timestamp'], c['vc_frameNumber'], c['vc_scanNumber']]
        stdlib.STRUCTS[self.name] = (size, {o: u32 for o in self.scal}, {self.doff: 'unsigned short', c['vc_numbers']: 'unsigned int', c['vc_complete']: 'bool'})
        stdlib.OWNED[self.name] = {self.doff: 'unsigned short'}
        self.W, self.H = T.int('W', 32, 1, 1 << 24), T.int('H', 32, 1, 1 << 24)
        self.N = self.W.p * self.H.p
        self.ns = T.int('numberOfSamples', 32, 1, (1 << 31) - 1)
        self.B = T.int('blocks', 64, 1, 1 << 31).p
        T.assume(And(self.N >= 1, self.N * self.ns.p < (1 << 31)))
        self.vec, D = T.vector('blocks', self.name, self.B)
        self.D, self.px = D, D.vec[self.doff]
        self.images = Base(ctx, 'images', 'int', 1, 0, (1 << 31) - 1)
        D.arr0 = {c['vc_frame']: Const_(self.W.p), c['vc_frame'] + 4: Const_(self.H.p), c['vc_images']: Fn_(lambda i: self.frames(i[0]))}
        self.pix = Base(ctx, 'px', 'int', 2, 0, 65535)
        self.px.arr0 = {0: self.pix}
        T.st.mem[('a', self.px, 'n')] = Fn_(lambda i: self.frames(i[0]) * self.N)
        self.px.readonly = True
        f = 'float' if real else 'unsigned short'
        self.dk = T.array('dark', 'float', self.N, readonly=True)
        self.gn = T.array('gain', 'float', self.N, readonly=True)
        self.da, self.ga = ex.array(T.st, self.dk, 0, ('real', 32)), ex.array(T.st, self.gn, 0, ('real', 32))
        self.S = z3.Function('isSample', z3.IntSort(), z3.RealSort() if real else z3.IntSort(), z3.BoolSort())
        self.choices, self.last = [], []
        ex.handlers = [(re.compile(r'uniform_int_distribution<int>::uniform_int_distribution\(int, int\)'), self.h_dist),
                       (re.compile(r'uniform_int_distribution<int>::operator\(\)<'), self.h_draw),
                       (re.compile(r'^stempy::(Py)?Block::(Py)?Block\(stempy::(Py)?Block const&\)'), self.h_copy),
                       (re.compile(r'^stempy::(Py)?Block::~'), stdlib.h_noop),
                       (re.compile(r'^stempy::DataHolder::get'), lambda ex, st, d, a, ins: ex.load(st, ('ptr',), a[0], 'data')),
                       (re.compile(r'^std::(random_device|linear_congruential_engine<.*>|mersenne_twister_engine<.*>)::'), self.h_opaque),
                       (re.compile(r'^double stempy::calculateMean<'), self.h_mean),
                       (re.compile(r'^double stempy::calculateVariance<'), self.h_var),
                       (re.compile(r'\bstd::minmax_element<'), self.h_minmax),
                       (re.compile(r'\bstd::max_element<'), self.h_max),
                       (re.compile(r'Eigen::|GaussianErrorFunctor'), self.h_eigen)] + ex.handlers
    def frames(self, b):
        n = self.images.read((P(b),))
        self.T.ctx.add(And(n >= 1, n * self.N < (1 << 31)))
        return n
    # ---- contracts of what is called
    def h_opaque(self, ex, st, d, a, ins):
        if ins.dst is not None:
            n = fresh_int('random')
            self.T.ctx.setrange(n, 0, (1 << 32) - 1)
            return I(n, 32, 0, (1 << 32) - 1)
    def h_dist(self, ex, st, d, a, ins):
        lo, hi = ex.s(st, a[1]), ex.s(st, a[2])
        ex.oblige(st, lo <= hi, 'uniform_int_distribution: there is a number to choose', 'pre')
        ex.store(st, ('int', 32), I(lo, 32), a[0], 'distribution')
        ex.store(st, ('int', 32), I(hi, 32), ex.padd(a[0], P(4)), 'distribution')
    def h_draw(self, ex, st, d, a, ins):
        lo = ex.s(st, ex.load(st, ('int', 32), a[0], 'distribution'))
        hi = ex.s(st, ex.load(st, ('int', 32), ex.padd(a[0], P(4)), 'distribution'))
        r = ex.scoped(fresh_int('drawn'))
        self.T.ctx.setrange(r, 0, (1 << 31) - 1)
        st.assume(And(r >= lo, r <= hi))
        for b in self.last[-1:]:
            # r < frames of b: the frame lies in the block
            st.assume(Implies(And(b >= 0, b < self.B, r < self.frames(b)), And((r + 1) * self.N <= self.frames(b) * self.N, r * self.N >= 0)))
        self.last.append(r)
        ex.trusted.add('std::uniform_int_distribution')
        return I(r, 32, 0, (1 << 31) - 1)
    def h_copy(self, ex, st, d, a, ins):
        for o in (self.c['vc_frame'], self.c['vc_frame'] + 4, self.c['vc_images']):
            ex.store(st, ('int', 32), ex.load(st, ('int', 32), ex.padd(a[1], P(o)), 'block'), ex.padd(a[0], P(o)), 'block')
        ex.store(st, ('ptr',), ex.load(st, ('ptr',), ex.padd(a[1], P(self.doff)), 'block'), ex.padd(a[0], P(self.doff)), 'block')
    def corrected(self, b, f, j):
        ex, st = self.T.ex, self.T.st
        x = self.pix.read((b, f * self.N + j))
        d, g = R(self.da.read((j,)), 32), R(self.ga.read((j,)), 32)
        if not self.real:
            if not self.dark:
                return x
            # the dark value as a 16-bit integer, the difference as a 16-bit integer
            v = x - ex.fptoi(d, 16, True).p
            return iteP(v < 0, v + 65536, iteP(v >= 65536, v - 65536, v))
        v = ex.rint(st, x, 0, 65535, 32)
        if self.dark:
            v = ex.rop(st, 'fsub', v, d, 32)
        return ex.rop(st, 'fmul', v, g, 32).z
    def member(self, k, x):
        return self.S(P(k).z(), x if self.real else P(x).z())
    def define(self, i, j):
        """sample i*N + j may be the corrected pixel j of any frame of any block (those drawn)"""
        dr = self.last
        for b in dr:
            for f in dr:
                if b is not f:
                    self.T.ctx.add(Implies(And(b >= 0, b < self.B, f >= 0, f < self.frames(b), i >= 0, j >= 0, j < self.N), self.member(i * self.N + j, self.corrected(b, f, j))))
    def samples(self, ex, st, p, what):
        D, par = stdlib.vec_of(ex, st, p)
        T = self.T
        total = self.N * self.ns.p
        k = fresh_int('k')
        a = ex.array(st, D, 0, D.fields[0])
        ex.oblige(st, dynsize(ex, st, D, par).eq(total), what + ': of all the samples', 'pre')
        ex.oblige(st, Implies(And(k >= 0, k < total), self.member(k, a.read((k,)))), what + ': every sample is a corrected pixel', 'pre')
        self.sd = D
        return a
    def h_mean(self, ex, st, d, a, ins):
        self.samples(ex, st, a[0], 'calculateMean')
        self.mean = R(ex.scoped_real('mean') if hasattr(ex, 'scoped_real') else fresh_real('mean'), 64)
        return self.mean
    def h_var(self, ex, st, d, a, ins):
        self.samples(ex, st, a[0], 'calculateVariance')
        ex.oblige(st, B(a[1].z == self.mean.z), 'calculateVariance: about the mean', 'pre')
        self.var = R(fresh_real('variance'), 64)
        return self.var
    def h_minmax(self, ex, st, d, a, ins):
        (p, q), f = a[:2], stdlib.one
        p, q = f(p), f(q)
        total = self.N * self.ns.p
        es = 4 if self.real else 2
        ex.oblige(st, And(B(p[1] is self.sd and q[1] is self.sd), p[3].eq(0), ex.simp(st, q[3]).eq(total * es)), 'minmax_element: all samples', 'pre')
        arr = ex.array(st, self.sd, 0, self.sd.fields[0])
        out, vals = [], []
        for i in range(2):
            at = fresh_int('at')
            self.T.ctx.setrange(at, 0, (1 << 31) - 1)
            self.T.ctx.add(And(at >= 0, at < total))
            vals.append(arr.read((at,)))
            out.append(ex.padd(ptr(self.sd), at * es))
        self.min, self.max = vals
        ex.trusted.add('std::minmax_element')
        return Agg(out)
    def h_max(self, ex, st, d, a, ins):
        p, q = stdlib.one(stdlib.iter_ptr(a[0])), stdlib.one(stdlib.iter_ptr(a[1]))
        n = (ex.simp(st, q[3]) - ex.simp(st, p[3])).divexact(8)
        if p[1] is not q[1] or n is None:
            raise Unsupported('max_element')
        at = fresh_int('at')
        self.T.ctx.setrange(at, 0, (1 << 31) - 1)
        self.T.ctx.add(And(at >= 0, at <= n, Implies(n >= 1, at < n)))
        ex.trusted.add('std::max_element')
        return ex.padd(ptr(p[1], p[3], p[2]), at * 8)
    def h_eigen(self, ex, st, d, a, ins):
        ex.trusted.add('Eigen (the fit)')
        t = ins.a[0]
        if ins.dst is None:
            return None
        if t[0] == 'ptr':
            if re.search(r'operator\[\]|operator\(\)', d):
                r = ex.region('coefficient')
                r.init = lambda o, ty: R(fresh_real('coefficient'), 64)
                return ptr(r)
            return a[0]
        if t[0] == 'int':
            return I(fresh_int('status'), t[1])
        raise Unsupported('Eigen: %s' % d[:100])

class Fn_:
    sort, arity = 'int', 1
    def __init__(self, fn):
        self.fn = fn
    def read(self, idx):
        return self.fn(idx)
def Const_(v):
    return Fn_(lambda i: v)

def thresholds(py, real, dark):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        s = Sample(T, py, real, dark)
        c, pre = s.c, 'vc_rf_' if real else 'vc_r_'
        out = T.record('result')
        bgN, xrN = R(fresh_real('backgroundN'), 64), R(fresh_real('xrayN'), 64)
        def products(n):
            # lemma: multiplication by N >= 1 is monotone
            m = s.ns.p
            ctx.add(Implies(n <= m, n * s.N <= m * s.N))
            ctx.add(Implies(n >= m, n * s.N >= m * s.N))
            ctx.add(Implies(n < m, (n + 1) * s.N <= m * s.N))
            ctx.add(Implies(n >= 0, n * s.N >= 0))
        def inv(v, idx, val):
            k = idx[0]
            n = v.n if v.depth == 1 else v.outer[0][1]
            done = n * s.N + (v.n if v.depth == 2 else 0)
            products(n)
            if v.depth == 2:
                s.define(n, v.n - 1)
                s.define(n, v.n)
            return Implies(And(k >= 0, k < done), s.member(k, val))
        def cands(view):
            for key in view_arrays(view, 'samples'):
                yield Cand('samples', key=key, forall=inv)
        T.cands.append(cands)
        for st, r in T.run([ptr(out), s.vec, ptr(s.dk), s.ns, bgN, xrN, ptr(s.gn)]):
            get = lambda k, w: ex.load(st, ('double',) if w == 64 else ('float',) if w == 'f' else ('int', w), ptr(out, c[pre + k]), 'result')
            T.ensure(st, ex.s(st, get('samples', 32)).eq(s.ns.p), 'the number of samples is reported')
            T.ensure(st, B(get('mean', 64).z == s.mean.z), 'the mean is that of the samples')
            T.ensure(st, B(get('var', 64).z == s.var.z), 'the variance is that of the samples')
            sd = ex.fpfun(st, 'sqrt', [s.var])
            T.ensure(st, B(get('std', 64).z == sd.z), 'the standard deviation is the root of the variance')
            T.ensure(st, B(get('xray', 64).z == ex.rop(st, 'fadd', s.mean, ex.rop(st, 'fmul', xrN, sd, 64), 64).z), 'the x-ray threshold is mean + n * standard deviation')
            m = get('min', 'f' if real else 16)
            T.ensure(st, B(m.z == s.min) if real else ex.u(st, m).eq(s.min), 'the minimum is that of the samples')
    return fn

def tasks():
    t = []
    for real in (False, True):
        e = 'float' if real else 'unsigned short'
        for which, sig in (('mean', 'Mean<%s>'), ('variance', 'Variance<%s>')):
            t.append(Task('calculate%s' % (sig % e), U, r'^double stempy::calculate' + sig % e, stat(which, real), keep=KEEP))
        for dark in (False, True):
            for py in (False, True):
                inst = '%s, %s, %s' % ('stempy::PyBlock' if py else 'stempy::Block', e, 'true' if dark else 'false')
                t.append(Task('calculateThresholds<%s>' % inst, U, r'^stempy::CalculateThresholdsResults<%s> stempy::calculateThresholds<%s>\((?!.*::operator)(?!.*lambda)' % (e, inst), thresholds(py, real, dark), keep=KEEP))
    return t

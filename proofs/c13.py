"""C13: blocks of in-memory and HDF5 data sets (PyReader).

The data set is a ghost array of total frames of H x W pixels; the contract of __getitem__(slice(a, b, s)) with the
conversion to array_t<T, flags> gives the frames a, a + s, ... < b; their pixels in row-major order only if the flags
ask for it (c_style), and as uint16_t.
read()
  requires current index < total + block size (true at first, after reset, and after each read(): ensured), as many
  image numbers as frames.
  ensures: at the end (index = total) a block without data; otherwise frames index .. min(index + block size, total) - 1,
  their image numbers, the frame and scan size, and the next index is one past the last of them (or any past the end).
reset() ensures index 0.  The iterator: begin() and ++ hold the next block, and equal end() once there is none.
By induction these give the sequence of blocks: consecutive from 0, without gaps."""
from common import *
from iters import *

U = unit(os.path.join(frontend.HARNESS, 'vc/pyreader.cpp'), 'pyreader', ['-I' + os.path.join(frontend.HARNESS, 'vc')])
ASSUMPTIONS = ['pybind11 and NumPy: slicing and conversion to array_t as in the contract (harness/vc/pybind11, trusted); the interpreter lock is a no-op',
               '2 * block size + number of frames < 2^32; block pixels < 2^32']
C_STYLE = 1

class Data:
    def __init__(self, T, started=True):
        self.T, ctx, ex = T, T.ctx, T.ex
        c = self.c = consts(T.task.unit.raw)
        self.total = T.int('totalImageNum', 32)
        self.cur = T.int('currIndex', 32)
        self.B = T.int('blockSize', 32, 1)
        self.H, self.W = T.int('H', 32, 1, 1 << 24).p, T.int('W', 32, 1, 1 << 24).p
        self.scan = [T.int('scan%d' % k, 32) for k in (0, 1)]
        T.assume(And(self.B.p * 2 + self.total.p < (1 << 32), self.cur.p < self.total.p + self.B.p, self.B.p * self.H * self.W < (1 << 32)))
        cells = {c['vc_curr']: self.cur, c['vc_blocksize']: self.B, c['vc_total']: self.total, c['vc_rscan']: self.scan[0], c['vc_rscan'] + 4: self.scan[1]}
        self.rec = T.record('PyReader', cells)
        self.rec.vec = {c['vc_rnumbers']: data_region(ex, 'unsigned int', 'imageNumbers', 0)}
        self.NU = self.rec.vec[c['vc_rnumbers']]
        self.NU.size0 = I(self.total.p, 64, 0, 1 << 32)
        self.reader = ptr(self.rec)
        self.num = lambda st: ex.array(st, self.NU, 0, ('int', 32))
        self.pix = T.array('dataset', 'unsigned short', self.total.p * self.H * self.W, readonly=True)
        self.other = T.array('other layout', 'unsigned short', self.total.p * self.H * self.W, readonly=True)
        ex.handlers = [(re.compile(r'^vc_slice_items'), self.h_slice), (re.compile(r'^vc_to_array'), self.h_array)] + ex.handlers
    def h_slice(self, ex, st, d, a, ins):
        c = self.c
        o, lo, hi, step = a[0], ex.s(st, a[1]), ex.s(st, a[2]), ex.s(st, a[3])
        g, reg, par, off = stdlib.one(o)
        ex.oblige(st, And(step.eq(1), lo >= 0, lo < hi, hi <= self.total.p), 'the slice of the data set lies inside it and has no gaps', 'pre')
        for k, v in (('vc_o_start', lo), ('vc_o_stop', hi), ('vc_o_step', step)):
            ex.store(st, ('int', 64), I(v, 64), ex.padd(a[4], P(c[k])), 'slice')
    def h_array(self, ex, st, d, a, ins):
        c = self.c
        flags, size = ex.u(st, a[1]), ex.u(st, a[2])
        if not flags.is_const() or not size.is_const():
            raise Unsupported('array type')
        lo, hi = [ex.u(st, ex.load(st, ('int', 64), ex.padd(a[0], P(c[k])), 'slice')) for k in ('vc_o_start', 'vc_o_stop')]
        ex.oblige(st, B(size.const_value() == 2), 'pixels of 16 bits', 'pre')
        reg = self.pix if flags.const_value() & C_STYLE else self.other
        ex.store(st, ('ptr',), ptr(reg, lo * self.H * self.W * 2), ex.padd(a[3], P(c['vc_a_data'])), 'array')
        for k, v in enumerate((hi - lo, self.H, self.W)):
            ex.store(st, ('int', 64), I(v, 64, 0, 1 << 33), ex.padd(a[3], P(c['vc_a_shape'] + 8 * k)), 'array')

def read(T):
    ctx, ex = T.ctx, T.ex
    D = Data(T)
    c = D.c
    out = T.record('PyBlock')
    n = iteP(D.cur.p + D.B.p <= D.total.p, D.B.p, D.total.p - D.cur.p)
    def cands(view):
        for r in {k[1] for k in view.st.mem if k[0] in 'ac' and getattr(k[1], 'dyn', False) and k[1] is not D.NU and k[1].elem == 'unsigned int'}:
            yield Cand('as many numbers as passes', scalar=lambda v, r=r: dynsize(ex, v.st, r, ()).eq(v.n))
            yield Cand('numbers so far', key=('a', r, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < v.n), val.eq(D.num(v.st).read((D.cur.p + idx[0],)))))
    T.cands.append(cands)
    some = D.cur.p < D.total.p
    num0 = D.num(T.st)
    for st, v in T.run([ptr(out), D.reader]):
        cell = lambda p, o, n=32: ex.u(st, ex.load(st, ('int', n), ex.padd(p, P(o)), 'field'))
        nxt = cell(D.reader, c['vc_curr'])
        T.ensure(st, And(Implies(some, Or(nxt.eq(D.cur.p + n), And((D.cur.p + n).eq(D.total.p), nxt >= D.total.p))), nxt < D.total.p + D.B.p), 'the next block starts where this one ends')
        data = ex.load(st, ('ptr',), ptr(out, c['vc_block_data']), 'data')
        got = Or(*[g for g, r, p, o in data.opts if r is not None])
        T.ensure(st, got == some, 'a block is returned exactly while there are frames left')
        T.ensure(st, Implies(Not(some), nxt >= D.total.p), 'at the end it stays at the end')
        s = st.copy()
        s.assume(some)
        if s.dead():
            continue
        h = c['vc_block_header']
        for g, r, p, o in data.opts:
            if r is None or z3.is_false(g):
                continue
            arr = ex.load(s, ('ptr',), Ptr([(g, r, p, o + c['vc_a_data'])]), 'pixels')
            for g2, r2, p2, o2 in arr.opts:
                if not z3.is_false(g2):
                    T.ensure(s, Implies(And(g, g2), And(B(r2 is D.pix), o2.eq(D.cur.p * D.H * D.W * 2))), 'the pixels are those of the frames, in row-major order')
        hd = lambda f, k=0: cell(ptr(out), h + c[f] + 4 * k)
        T.ensure(s, And(hd('vc_frame').eq(D.W), hd('vc_frame', 1).eq(D.H)), 'header: frame size')
        T.ensure(s, And(*[hd('vc_scan', k).eq(D.scan[k].p) for k in (0, 1)]), 'header: scan size')
        T.ensure(s, hd('vc_images').eq(n), 'header: number of frames')
        V, par = vec_of(ex, s, ptr(out, h + c['vc_numbers']), 'unsigned int')
        k = fresh_int('k')
        T.ensure(s, And(dynsize(ex, s, V, par).eq(n), Implies(And(k >= 0, k < n), ex.array(s, V, 0, ('int', 32)).read((k,)).eq(num0.read((D.cur.p + k,))))), 'header: the image numbers of these frames')

def reset(T):
    ex = T.ex
    D = Data(T)
    for st, v in T.run([D.reader]):
        T.ensure(st, ex.u(st, ex.load(st, ('int', 32), ex.padd(D.reader, P(D.c['vc_curr'])), 'index')).eq(0), 'reading starts over at frame 0')


def tasks():
    KEEP = lambda d: d.startswith('vc_slice') or d.startswith('vc_to_')
    READ = lambda d: d.startswith('stempy::PyReader::read()')
    return [Task('PyReader::read', U, r'^stempy::PyReader::read\(\)', read, keep=KEEP),
            Task('PyReader::reset', U, r'^stempy::PyReader::reset\(\)', reset),
            Task('PyReader::begin', U, r'^vc_it_begin$', iterator('begin', 'PyReader', True), keep=READ),
            Task('PyReader::end', U, r'^vc_it_end$', iterator('end', 'PyReader', True), keep=READ),
            Task('PyReader::iterator::operator++', U, r'^vc_it_next$', iterator('next', 'PyReader', True), keep=READ)]

"""C12: the multi-pass reader.

processFrame(func, image, number, locations)
  requires that each location that is set points to a complete sector.
  ensures func is called once with a block of 576 x 576 of this image and frame number, the version, scan number and
  scan size of the reader, in which every set sector s holds the pixels stored at its location, read from its own
  stream (contract of readSectorData: sectors.py), and the missing sectors are 0; complete iff all four are set.
readFrames(func, image, indices)
  over the map of the position, whose keys are the frame numbers number(image, 0) < number(image, 1) < ...
  ensures (normal return) image and every index are in range, and processFrame is called exactly once per index, in
  order, with the frame of that rank and its own locations.
processFrames(func)  (the worker of a pass over all frames)
  ensures for every position taken, every frame of the position is processed once, in order of the frame numbers.
numFramesPerScan()  ensures the largest number of frames at any position.
readHeaders() (the worker that locates the sectors; run alone)
  requires at most one record per image, frame and sector, positions inside the scan, complete records.
  ensures the locations set are exactly those of the records of the streams processed: sector s of frame n at
  position p is located in the stream and at the offset behind the header that says so."""
from sectors import *

ASSUMPTIONS = ['std::map keeps its keys in ascending order, each once (trusted contract); std::sort leaves a strictly ascending range unchanged',
               'the work of a single worker: schedules are C22; mutexes without effect',
               'complete headers and sectors; sector numbers 0..3 (file names); image numbers inside the scan; one record per image, frame and sector']
MAPS = r'^(std::map<|std::_Rb_tree|std::operator(!=|==)\(std::_Rb_tree|bool std::operator(!=|==)<.*_Rb_tree)'
def KEEP(d):
    return keep_files(d) or bool(re.search(r'^stempy::SectorStream\w*::(readSectorData|initializeScanMap|readHeader\()|^void stempy::SectorStream\w*::processFrame<|^VcSink|' + MAPS + r'|^std::unique_lock<|^std::mutex::|^void std::sort<|^std::unique_ptr<std::mutex', d))

class Fn_:
    sort, arity = 'int', 1
    def __init__(self, fn, arity=1):
        self.fn, self.arity = fn, arity
    def read(self, idx):
        return self.fn(idx)

class Multi:
    def __init__(self, T):
        self.T, ctx, ex = T, T.ctx, T.ex
        c = self.c = consts(T.task.unit.raw)
        self.version = T.int('version', 8, 4, 5)
        self.scanno = T.int('scanNumber', 32)
        self.dims = [T.int('scanWidth', 32), T.int('scanHeight', 32)]
        self.processed, self.offset, self.size = T.int('processed', 32), T.int('scanMapOffset', 32), T.int('scanMapSize', 32)
        self.perscan = T.int('numFramesPerScan', 32)
        self.P_ = T.int('positions', 64, 0, (1 << 32) - 1).p
        cells = {c['vc_xversion']: self.version, c['vc_m_scannumber']: self.scanno, c['vc_m_scandims']: self.dims[0], c['vc_m_scandims'] + 4: self.dims[1],
                 c['vc_m_processed']: self.processed, c['vc_m_offset']: self.offset, c['vc_m_size']: self.size, c['vc_m_perscan']: self.perscan}
        self.rec = T.record('reader', cells)
        self.reader = ptr(self.rec)
        # the map of a position: its keys by rank, and the locations by key
        self.count = Base(ctx, 'frames', 'int', 1, 0, (1 << 32) - 1)
        self.key = Base(ctx, 'number', 'int', 2, 0, (1 << 32) - 1)
        S = 'vcmap'
        stdlib.STRUCTS[S] = (c['vc_map_size'], {}, {})
        MAPS_ = self.maps = data_region(ex, S, 'maps', 0)
        MAPS_.size0 = I(self.P_, 64, 0, 1 << 33)
        self.rec.vec = {c['vc_m_scanmap']: MAPS_}
        self.nodes = ex.region('nodes', stride=64, lead=1)
        self.nodes.fields = {0: ('int', 32)}
        self.nodes.arr0 = {0: self.key}
        self.nodes.readonly = True
        self.nodes.dyn, self.nodes.elem, self.nodes.vec = True, 'node', {}
        T.st.mem[('a', self.nodes, 'n')] = Fn_(lambda i: self.count.read((i[0],)))
        self.loc = ex.region('locations', stride=c['vc_l_size'], size=P(4), lead=2)
        self.present = z3.Function('isSet', *([z3.IntSort()] * 3 + [z3.BoolSort()]))
        mx = [(re.compile(r'^std::map<.*>::(c?begin)\('), self.h_begin), (re.compile(r'^std::map<.*>::(c?end)\('), self.h_end), (re.compile(r'^std::map<.*>::size\('), self.h_size),
              (re.compile(r'^std::map<.*>::empty\('), lambda ex, st, d, a, ins: Bo(self.count.read((self.position(ex, st, a[0]),)).eq(0))),
              (re.compile(r'^std::map<.*>::(operator\[\]|at)\('), self.h_index),
              (re.compile(r'^std::_Rb_tree(_const)?_iterator<.*>::operator(\*|->)\('), self.h_deref), (re.compile(r'^std::_Rb_tree(_const)?_iterator<.*>::operator\+\+\(\)'), self.h_next),
              (re.compile(r'operator(!=|==)\(std::_Rb_tree|operator(!=|==)<.*_Rb_tree'), self.h_cmp),
              (re.compile(r'^std::(unique_lock|mutex|unique_ptr<std::mutex)'), self.h_mutex),
              (re.compile(r'^void std::sort<'), self.h_sort), (re.compile(r'::initializeScanMap\('), self.h_init)]
        ex.handlers = mx + ex.handlers
    def frames(self, p):
        return self.count.read((P(p),))
    def number(self, p, i):
        """number of the frame of rank i at position p, with the order of the keys"""
        v = self.key.read((P(p), P(i)))
        return v
    def position(self, ex, st, pv):
        g, reg, par, off = stdlib.one(pv)
        if reg is not self.maps:
            raise Unsupported('another map')
        i, f = ex.place(st, reg, par, off, 8, 'map')
        ex.bounds(st, g, reg, par, i, 'map of a position', 'access')
        return i
    def h_begin(self, ex, st, d, a, ins):
        return ptr(self.nodes, 0, (self.position(ex, st, a[0]),))
    def h_end(self, ex, st, d, a, ins):
        p = self.position(ex, st, a[0])
        return ptr(self.nodes, self.frames(p) * 64, (p,))
    def h_size(self, ex, st, d, a, ins):
        return I(self.frames(self.position(ex, st, a[0])), 64, 0, (1 << 32) - 1)
    def it(self, ex, st, x):
        """the iterator object behind a pointer, or the iterator itself"""
        x = stdlib.iter_ptr(x)
        g, reg, par, off = stdlib.one(x)
        if reg is self.nodes:
            return x
        return stdlib.iter_ptr(ex.load(st, ('ptr',), x, 'iterator'))
    def h_deref(self, ex, st, d, a, ins):
        return self.it(ex, st, a[0])
    def h_next(self, ex, st, d, a, ins):
        x = self.it(ex, st, a[0])
        g, reg, par, off = stdlib.one(x)
        ex.oblige(st, And(off >= 0, ex.simp(st, off) < self.frames(par[0]) * 64), 'the iterator is not past the end', 'pre')
        ex.store(st, ('ptr',), ex.padd(x, P(64)), a[0], 'iterator')
        return a[0]
    def h_cmp(self, ex, st, d, a, ins):
        x, y = stdlib.one(self.it(ex, st, a[0])), stdlib.one(self.it(ex, st, a[1]))
        eq = x[3].eq(y[3])
        return Bo(eq if 'operator==' in d else Not(eq))
    def h_index(self, ex, st, d, a, ins):
        p = self.position(ex, st, a[0])
        k = ex.u(st, a[1] if isinstance(a[1], I) else ex.load(st, ('int', 32), a[1], 'key'))
        return ptr(self.loc, 0, (p, k))
    def h_mutex(self, ex, st, d, a, ins):
        if ins.dst is not None and ins.a[0] == ('ptr',):
            return a[0]
        return Bo(TRUE) if ins.dst is not None else None
    def h_init(self, ex, st, d, a, ins):
        """contract of initializeScanMap: the map is that of the files"""
        return None
    def h_sort(self, ex, st, d, a, ins):
        (g, reg, pp, off), (g2, reg2, pp2, off2) = stdlib.one(stdlib.iter_ptr(a[0])), stdlib.one(stdlib.iter_ptr(a[1]))
        es = reg.stride
        lo, hi = ex.simp(st, off).divexact(es), ex.simp(st, off2).divexact(es)
        if reg is not reg2 or lo is None or hi is None:
            raise Unsupported('sort')
        if ex.dry:
            return
        arr = ex.array(st, reg, 0, reg.fields[0])
        i = fresh_int('i')
        ex.oblige(st, Implies(And(i >= lo, i + 1 < hi), arr.read(tuple(pp) + (i,)) < arr.read(tuple(pp) + (i + 1,))), 'the sorted range is ascending already', 'pre')
        ex.trusted.add('std::sort')
    def ascending(self, p, i):
        """keys ascend: instance for ranks i, i + 1"""
        self.T.ctx.add(Implies(And(P(i) >= 0, P(i) + 1 < self.frames(p)), self.key.read((P(p), P(i))) < self.key.read((P(p), P(i) + 1))))

def process_frame(T):
    ctx, ex = T.ctx, T.ex
    m = Multi(T)
    c = m.c
    image, number = T.int('imageNumber', 32), T.int('frameNumber', 32)
    sink = T.record('sink')
    par = (image.p, number.p)
    present = lambda j: m.present(image.p.z(), number.p.z(), P(j).z())
    PX = z3.Function('stored', z3.IntSort(), z3.IntSort(), z3.IntSort())          # pixel n of the sector at location j
    offs = Base(ctx, 'offset', 'int', 3, 0, 1 << 62)
    SS, IF = ex.region('sectorStream', stride=c['vc_ss_size'], size=P(4), lead=0), ex.region('stream', stride=520, size=P(4), lead=0)
    MU = ex.region('mutex')
    SS.ptrfields = {c['vc_ss_stream']: lambda *i: ptr(IF, i[0] * 520), c['vc_ss_mutex']: lambda *i: ptr(MU)}
    SS.fields = {c['vc_ss_sector']: ('int', 32)}
    m.loc.fields = {c['vc_l_sector']: ('int', 16), c['vc_l_offset']: ('int', 64), c['vc_l_offset'] + 8: ('int', 64)}
    m.loc.arr0 = {c['vc_l_offset']: offs}
    m.loc.ptrfields = {c['vc_l_stream']: lambda *i: Ptr([(present(i[2]), SS, (), i[2] * c['vc_ss_size']), (Not(present(i[2])), None, (), P(0))])}
    gh = ex.region('ghost')
    for k in ('calls', 'pos', 'at'):
        T.st.mem[('c', gh, k)] = I(P(0 if k == 'calls' else -1), 64)
    get = lambda st, k: ex.s(st, st.mem[('c', gh, k)])
    def which(ex, st, pv, what):
        g, reg, par_, off = stdlib.one(pv)
        if reg is not IF:
            raise Unsupported('another stream')
        i, f = ex.place(st, reg, par_, off, 8, what)
        return i
    def h_seek(ex, st, d, a, ins):
        if len(a) > 3 or 'Seekdir' in d:
            raise Unsupported('relative seek')
        o = a[1] if isinstance(a[1], I) else a[1].v[0]
        st.mem[('c', gh, 'pos')] = I(ex.u(st, o), 64)
        st.mem[('c', gh, 'at')] = I(which(ex, st, a[0], 'seek'), 64)
    def h_sector(ex, st, d, a, ins):
        """contract of readSectorData"""
        j = which(ex, st, a[1], 'sector')
        s = ex.s(st, a[3])
        ex.oblige(st, And(j >= 0, j < 4, B(present(j)), get(st, 'at').eq(j), get(st, 'pos').eq(offs.read(par + (j,)))), 'a sector is read where it is stored', 'pre')
        ex.oblige(st, s.eq(j), 'a sector goes to its own place', 'pre')
        ex.oblige(st, B(stdlib.one(a[0])[1] is m.rec), 'readSectorData of this reader', 'pre')
        data = ex.load(st, ('ptr',), ex.padd(a[2], P(c['vc_block_data'])), 'data')
        g, reg, pp, off = stdlib.one(data)
        ex.oblige(st, And(off.eq(0), ex.size_now(st, reg, pp).eq(NPIX)), 'the block has room for the frame', 'pre')
        old = ex.array(st, reg, 0, ('int', 16))
        def fn(i):
            a, b = inside(s, i)
            return iteP(a, stored(s, b), old.read(tuple(pp) + (i,)))
        st.mem[('a', reg, 0)] = stdlib.Slice(old, pp, None, None, fn)
    def stored(s, n):
        v = P(PX(P(s).z(), P(n).z()))
        ctx.add(And(v >= 0, v <= 65535))
        return v
    def inside(s, k):
        a4, n4 = place(4, s, k)(ctx.divmod)
        a5, n5 = place(5, s, k)(ctx.divmod)
        v4 = m.version.p.eq(4)
        return Or(And(v4, a4), And(Not(v4), a5)), iteP(v4, n4, n5)
    def sector_of(k):
        v4 = m.version.p.eq(4)
        col = ctx.divmod(P(k), P(W))[1]
        return iteP(v4, ctx.divmod(col, P(SEC))[0], ctx.divmod(P(k), P(SEC * W))[0])
    def want(k, upto):
        s = sector_of(k)
        return iteP(And(s < upto, B(present(s))), stored(s, inside(s, k)[1]), P(0))
    def h_sink(ex, st, d, a, ins):
        st.mem[('c', gh, 'calls')] = I(get(st, 'calls') + 1, 64)
        b = a[1]
        u = lambda f, k=0: ex.u(st, ex.load(st, ('int', 32), ex.padd(b, P(c[f] + 4 * k)), f))
        ob = lambda name, goal: ex.oblige(st, goal, name, 'post')
        ob('the version, scan number and scan size of the reader', And(u('vc_hversion').eq(m.version.p), u('vc_scanNumber').eq(m.scanno.p), u('vc_scan').eq(m.dims[0].p), u('vc_scan', 1).eq(m.dims[1].p)))
        ob('one frame of 576 x 576', And(u('vc_images').eq(1), u('vc_frame').eq(W), u('vc_frame', 1).eq(W)))
        ob('the frame number', u('vc_frameNumber').eq(number.p))
        D, p = vec_of(ex, st, ex.padd(b, P(c['vc_numbers'])), 'unsigned int')
        ob('the image number', And(dynsize(ex, st, D, p).eq(1), ex.array(st, D, 0, ('int', 32)).read((P(0),)).eq(image.p)))
        D, p = vec_of(ex, st, ex.padd(b, P(c['vc_complete'])), 'bool')
        ob('complete if and only if all four sectors are there', And(dynsize(ex, st, D, p).eq(1), iteP(And(*[B(present(j)) for j in range(4)]), P(1), P(0)).eq(ex.array(st, D, 0, ('int', 8)).read((P(0),)))))
        data = ex.load(st, ('ptr',), ex.padd(b, P(c['vc_block_data'])), 'data')
        g, reg, pp, off = stdlib.one(data)
        ob('room for all pixels', And(off.eq(0), ex.size_now(st, reg, pp).eq(NPIX)))
        k = fresh_int('k')
        v = ex.array(st, reg, 0, ('int', 16)).read(tuple(pp) + (k,))
        ob('every pixel is that of its sector, 0 if the sector is missing', Implies(And(k >= 0, k < NPIX), v.eq(want(k, 4))))
    ex.handlers = [(re.compile(r'^std::(basic_)?istream(<.*?>)?::seekg\('), h_seek), (re.compile(r'::readSectorData\('), h_sector), (re.compile(r'^VcSink::'), h_sink)] + ex.handlers
    def cands(view):
        for key in list(view.st.mem):
            if key[0] == 'a' and key[2] == 0 and key[1].name.startswith('new[]'):
                yield Cand('sectors so far', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < NPIX), val.eq(want(idx[0], v.n))))
        yield Cand('at most four', scalar=lambda v: v.n <= 4)
        n4 = lambda n: sum((iteP(And(B(present(j)), P(n) > j), P(1), P(0)) for j in range(4)), P(0))
        for nm, x in view.phis.items():
            if isinstance(x, I) and x.n == 16:
                yield Cand('%s counts the sectors' % nm, scalar=lambda v, nm=nm: ex.u(v.st, v.phis[nm]).eq(n4(v.n)) if isinstance(v.phis[nm], I) else FALSE)
    T.cands.append(cands)
    for st, v in T.run([m.reader, ptr(sink), image, number, ptr(m.loc, 0, par)]):
        T.ensure(st, get(st, 'calls').eq(1), 'the frame is processed once')

def count(T):
    ctx, ex = T.ctx, T.ex
    m = Multi(T)
    big = lambda x, y: iteP(P(y) > P(x), P(y), P(x))
    M = Fold(ctx, 'largest', lambda p: m.frames(p), nonneg=False, comb=big)
    def cands(view):
        for nm, x in view.phis.items():
            if isinstance(x, I) and x.n == 32:
                yield Cand('%s is the largest so far' % nm, scalar=lambda v, nm=nm: ex.u(v.st, v.phis[nm]).eq(M(v.n)) if isinstance(v.phis[nm], I) else FALSE)
        yield Cand('bound', scalar=lambda v: v.n <= m.P_)
    T.cands.append(cands)
    T.assume(Or(m.perscan.p.eq(0), m.perscan.p.eq(M(m.P_))))          # invariant: not known, or known
    for st, v in T.run([m.reader]):
        T.ensure(st, ex.u(st, v).eq(M(m.P_)), 'the largest number of frames at any position')
        T.ensure(st, ex.u(st, ex.load(st, ('int', 32), ex.padd(m.reader, P(m.c['vc_m_perscan'])), 'cache')).eq(M(m.P_)), 'what is remembered is this number')

def frames(T):
    ctx, ex = T.ctx, T.ex
    m = Multi(T)
    c = m.c
    image = T.int('imageNumber', 32)
    n = T.int('indices', 64, 0, 1 << 40).p
    iv, IX = T.vector('frameIndices', 'unsigned int', n, readonly=True)
    idx = ex.array(T.st, IX, 0, ('int', 32))
    sink = T.record('sink')
    gh = ex.region('ghost')
    T.st.mem[('c', gh, 0)] = I(P(0), 64)
    calls = lambda st: ex.u(st, st.mem[('c', gh, 0)])
    def h_process(ex, st, d, a, ins):
        k = calls(st)
        g, reg, par, off = stdlib.one(a[4])
        i = idx.read((k,))
        ex.oblige(st, And(k < n, i < m.frames(image.p)), 'a frame is processed for an index that exists', 'pre')
        ex.oblige(st, And(ex.u(st, a[2]).eq(image.p), ex.u(st, a[3]).eq(m.number(image.p, i))), 'the frame of this rank at this position', 'pre')
        ex.oblige(st, And(B(reg is m.loc), off.eq(0), par[0].eq(image.p), par[1].eq(m.number(image.p, i))) if reg is m.loc else FALSE, 'with its own locations', 'pre')
        ex.oblige(st, B(stdlib.one(a[0])[1] is m.rec and stdlib.one(a[1])[1] is sink), 'for the same function', 'pre')
        st.mem[('c', gh, 0)] = I(k + 1, 64)
    ex.handlers = [(re.compile(r'::processFrame<'), h_process)] + ex.handlers
    def cands(view):
        for key in list(view.st.mem):
            r = key[1]
            if key[0] == 'c' and key[2] == 'n' and getattr(r, 'elem', None) == 'unsigned int':
                yield Cand('as many numbers as passes', scalar=lambda v, key=key: v.st.mem[key].p.eq(v.n))
                def inv(v, i, val):
                    m.ascending(image.p, i[0])
                    return Implies(And(i[0] >= 0, i[0] < v.n), val.eq(m.number(image.p, i[0])))
                yield Cand('numbers so far', key=('a', r, 0), forall=inv)
        for nm, x in view.phis.items():
            if isinstance(x, Ptr):
                yield Cand('%s at rank' % nm, scalar=lambda v, nm=nm: stdlib.one(stdlib.iter_ptr(v.phis[nm]))[3].eq(v.n * 64))
        for key in list(view.st.mem):
            if key[0] == 'c' and isinstance(view.st.mem[key], Ptr):
                yield Cand('iterator', scalar=lambda v, key=key: stdlib.one(v.st.mem[key])[3].eq(v.n * 64) if isinstance(v.st.mem.get(key), Ptr) else FALSE)
        yield Cand('ranks', scalar=lambda v: v.n <= m.frames(image.p))
        yield Cand('processed', scalar=lambda v: calls(v.st).eq(v.n))
        yield Cand('indices', scalar=lambda v: v.n <= n)
        q = fresh_int('any')
        yield Cand('in range', scalar=lambda v: Implies(And(q >= 0, q < v.n), idx.read((q,)) < m.frames(image.p)))
    T.cands.append(cands)
    for st, v in T.run([m.reader, ptr(sink), image, iv]):
        T.ensure(st, And(image.p < m.P_), 'the position exists')
        T.ensure(st, calls(st).eq(n), 'one frame for each index, in order')

def all_frames(T):
    ctx, ex = T.ctx, T.ex
    m = Multi(T)
    sink = T.record('sink')
    gh = ex.region('ghost')
    T.st.mem[('c', gh, 0)] = I(P(0), 64)
    calls = lambda st: ex.u(st, st.mem[('c', gh, 0)])
    p0, lim = m.processed.p, m.offset.p + m.size.p
    T.assume(And(lim <= m.P_, lim < (1 << 32) - 1, p0 < (1 << 31)))
    F = Fold(ctx, 'framesBefore', lambda q: m.frames(p0 + q))
    def here(st):
        """the position that comes next, as passes of the outer loop"""
        return ex.u(st, ex.load(st, ('int', 32), ex.padd(m.reader, P(m.c['vc_m_processed'])), 'processed')) - p0
    def h_process(ex, st, d, a, ins):
        k = calls(st)
        g, reg, par, off = stdlib.one(a[4])
        p = ex.u(st, a[2])
        r = k - F(p - p0)
        st.assume(k < (1 << 62))
        ex.oblige(st, And(p >= p0, p < lim), 'a frame is processed at a position of this pass', 'pre')
        ex.oblige(st, And(r >= 0, r < m.frames(p)), 'every frame once, in order: this is one of the frames of the position, those before it are done', 'pre')
        ex.oblige(st, ex.u(st, a[3]).eq(m.number(p, r)), 'the frame of this rank at this position', 'pre')
        ex.oblige(st, And(B(reg is m.loc), off.eq(0), par[0].eq(p), par[1].eq(m.number(p, r))) if reg is m.loc else FALSE, 'with its own locations', 'pre')
        ex.oblige(st, B(stdlib.one(a[0])[1] is m.rec and stdlib.one(a[1])[1] is sink), 'for the same function', 'pre')
        st.mem[('c', gh, 0)] = I(k + 1, 64)
    ex.handlers = [(re.compile(r'::processFrame<'), h_process)] + ex.handlers
    def cands(view):
        if view.depth == 1:
            yield Cand('positions taken', scalar=lambda v: here(v.st).eq(v.n))
            yield Cand('frames of the positions before', scalar=lambda v: calls(v.st).eq(F(v.n)))
            yield Cand('positions', scalar=lambda v: Or(p0 + v.n <= lim, v.n.eq(0)))
            return
        o = view.outer[0][1]
        p = p0 + o
        for key in list(view.st.mem):
            r = key[1]
            if key[0] == 'c' and key[2] == 'n' and getattr(r, 'elem', None) == 'unsigned int':
                yield Cand('as many numbers as passes', scalar=lambda v, key=key: v.st.mem[key].p.eq(v.n))
                def inv(v, i, val):
                    m.ascending(p, i[0])
                    return Implies(And(i[0] >= 0, i[0] < v.n), val.eq(m.number(p, i[0])))
                yield Cand('numbers so far', key=('a', r, 0), forall=inv)
            if key[0] == 'c' and isinstance(view.st.mem[key], Ptr):
                yield Cand('iterator', scalar=lambda v, key=key: stdlib.one(v.st.mem[key])[3].eq(v.n * 64) if isinstance(v.st.mem.get(key), Ptr) else FALSE)
        yield Cand('ranks', scalar=lambda v: v.n <= m.frames(p))
        yield Cand('processed', scalar=lambda v: calls(v.st).eq(F(o) + v.n))
        yield Cand('position', scalar=lambda v: And(p < lim, here(v.st).eq(o + 1)))
    T.cands.append(cands)
    for st, v in T.run([m.reader, ptr(sink)]):
        n = iteP(p0 < lim, lim - p0, P(0))
        T.ensure(st, calls(st).eq(F(n)), 'every frame of every position of the pass is processed')

NONE = 1 << 60
def headers(T):
    ctx, ex = T.ctx, T.ex
    m = Multi(T)
    c = m.c
    ns = T.int('streams', 64, 0, 1 << 31).p
    so, ss = T.int('streamsOffset', 32).p, T.int('streamsSize', 32).p
    p0, lim = m.processed.p, so + ss
    T.assume(And(p0.eq(so), lim <= ns))
    T.st.mem[('c', m.rec, c['vc_m_soffset'])], T.st.mem[('c', m.rec, c['vc_m_ssize'])] = I(so, 32), I(ss, 32)
    stdlib.STRUCTS['vcstream'], stdlib.STRUCTS['vcmutex'] = (c['vc_ss_size'], {c['vc_ss_sector']: (('int', 32), False)}, {}), (8, {}, {})
    SS, MX = data_region(ex, 'vcstream', 'streams', 0), data_region(ex, 'vcmutex', 'mutexes', 0)
    SS.size0, MX.size0 = I(ns, 64, 0, 1 << 31), I(m.P_, 64, 0, 1 << 33)
    m.rec.vec[c['vc_m_streams']], m.rec.vec[c['vc_m_mutexes']] = SS, MX
    IF = ex.region('stream', stride=520, size=ns, lead=0)
    SS.ptrfields = {c['vc_ss_stream']: lambda *i: ptr(IF, i[0] * 520)}
    # record k of stream s: its image, frame number, and where its pixels start
    SEC_, R_ = Base(ctx, 'sectorOf', 'int', 1, 0, 3), Base(ctx, 'records', 'int', 1, 0, 1 << 40)
    IM, FN, OFFS = Base(ctx, 'image', 'int', 2, 0, (1 << 32) - 1), Base(ctx, 'frameNumber', 'int', 2, 0, (1 << 32) - 1), Base(ctx, 'dataOffset', 'int', 2, 0, 1 << 62)
    WH, WK = Base(ctx, 'streamHolding', 'int', 3, -1, 1 << 31), Base(ctx, 'recordHolding', 'int', 3, -1, 1 << 41)
    SS.arr0 = {c['vc_ss_sector']: SEC_}
    L = m.loc
    fs_, fl, fo = c['vc_l_sector'], c['vc_l_stream'], c['vc_l_offset']
    L.fields = {fs_: ('int', 16), fo: ('int', 64), fo + 8: ('int', 64)}
    before = {f: Base(ctx, 'before', 'int', 3) for f in (fs_, fo)}
    L.arr0 = {fs_: before[fs_], fo: before[fo], fl: Fn_(lambda i: P(NONE), 3)}
    def enc(v):
        g, reg, par, off = stdlib.one(v)
        if reg is not SS:
            raise Unsupported('another stream')
        return ex.place(T.st, reg, par, off, 8, 'stream')[0]
    L.ptrenc = {fl: enc}
    for f in (fs_, fl, fo, fo + 8):
        ex.array(T.st, L, f, ('int', 16 if f == fs_ else 64))
    rec = lambda s, k: (And(s >= 0, s < ns, k >= 0, k < R_.read((s,))))
    def holds(i, f, j):
        """the record of sector j of frame f at position i: (there is one, stream, number)"""
        s, k = WH.read((i, f, j)), WK.read((i, f, j))
        return And(rec(s, k), IM.read((s, k)).eq(i), FN.read((s, k)).eq(f), SEC_.read((s,)).eq(j)), s, k
    G = ex.region('ghost', stride=16, size=ns, lead=0)
    G.fields = {0: ('int', 64), 8: ('int', 64)}
    G.arr0 = {0: Fn_(lambda i: P(0)), 8: Fn_(lambda i: P(0))}
    for f in (0, 8):
        ex.array(T.st, G, f, ('int', 64))
    get = lambda st, j, f=0: ex.array(st, G, f, ('int', 64)).read((j,))
    def put(st, j, v, f=0):
        st.mem[('a', G, f)] = Store(ex.array(st, G, f, ('int', 64)), (j,), P(v))
    def which(ex, st, pv):
        g, reg, par_, off = stdlib.one(pv)
        if reg is not IF:
            raise Unsupported('another stream')
        return ex.place(st, reg, par_, off, 8, 'stream')[0]
    def h_peek(ex, st, d, a, ins):
        j = which(ex, st, a[0])
        ex.oblige(st, get(st, j, 8).eq(0), 'the stream stands at a header, or at its end', 'pre')
        ch = fresh_int('char')
        ctx.setrange(ch, 0, 255)
        return I(iteP(get(st, j) >= R_.read((j,)), P(-1), ch), 32)
    def h_header(ex, st, d, a, ins):
        """contract of readHeader"""
        j = which(ex, st, a[2])
        k = get(st, j)
        ex.oblige(st, And(get(st, j, 8).eq(0), k < R_.read((j,))), 'a header is read where there is one', 'pre')
        ex.oblige(st, B(stdlib.one(a[1])[1] is m.rec), 'readHeader of this reader', 'pre')
        out = stdlib.one(a[0])[1]
        if not getattr(out, 'vec', None):
            out.vec = {}
        NU = out.vec.setdefault(c['vc_numbers'], data_region(ex, 'unsigned int', 'imageNumbers', 0))
        im, fn, s = IM.read((j, k)), FN.read((j, k)), SEC_.read((j,))
        T.ctx.add(Implies(rec(j, k), And(im < m.P_, WH.read((im, fn, s)).eq(j), WK.read((im, fn, s)).eq(k))))
        stdlib.set_vsize(ex, st, NU, (), P(1))
        st.mem[('a', NU, 0)] = Fn_(lambda i: im)
        x, y = ex.scoped(fresh_int('w')), ex.scoped(fresh_int('h'))
        for q in (x, y):
            ctx.setrange(q, 1, SEC * W)
        st.assume((x * y).eq(SEC * W))
        for f, v in ((c['vc_frame'], x), (c['vc_frame'] + 4, y), (c['vc_images'], P(1)), (c['vc_frameNumber'], fn)):
            st.mem[('c', out, f)] = I(v, 32)
        put(st, j, 1, 8)
        st.mem[('c', last, 0)], st.mem[('c', last, 4)] = I(im, 32), I(fn, 32)
    last = ex.region('last')
    T.st.mem[('c', last, 0)], T.st.mem[('c', last, 4)] = I(P(0), 32), I(P(0), 32)
    def h_key(ex, st, d, a, ins):
        v = m.h_index(ex, st, d, a, ins)
        par = stdlib.one(v)[2]
        ex.oblige(st, And(par[0].eq(ex.u(st, st.mem[('c', last, 0)])), par[1].eq(ex.u(st, st.mem[('c', last, 4)]))), 'a frame is only added for a record', 'pre')
        return v
    def h_tell(ex, st, d, a, ins):
        j = which(ex, st, a[0])
        ex.oblige(st, get(st, j, 8).eq(1), 'the offset is taken behind a header', 'pre')
        return Agg([I(OFFS.read((j, get(st, j))), 64), I(P(0), 64)])
    def h_seek(ex, st, d, a, ins):
        if len(a) != 3:
            raise Unsupported('absolute seek')
        j = which(ex, st, a[0])
        ex.oblige(st, And(get(st, j, 8).eq(1), ex.s(st, a[1]).eq(SBYTES), ex.s(st, a[2]).eq(1)), 'exactly the pixels of the sector are skipped', 'pre')
        put(st, j, 0, 8)
        put(st, j, get(st, j) + 1)
    def h_get(ex, st, d, a, ins):
        g, reg, par, off = stdlib.one(a[0])
        ex.bounds(st, g, reg, par, ex.place(st, reg, par, off, 8, 'mutex')[0], 'mutex', 'access')
        return a[0]
    S_ = r'^std::(basic_)?istream(<.*?>)?::'
    ex.handlers = [(re.compile(r'^std::map<.*>::(operator\[\]|at)\('), h_key), (re.compile(S_ + r'peek\('), h_peek), (re.compile(S_ + r'tellg\('), h_tell), (re.compile(S_ + r'seekg\('), h_seek), (re.compile(r'::readHeader\(std::'), h_header),
                   (re.compile(r'^std::unique_ptr<std::mutex.*::(get|operator\*|operator->)\('), h_get)] + ex.handlers
    here = lambda st: ex.u(st, ex.load(st, ('int', 32), ex.padd(m.reader, P(c['vc_m_processed'])), 'processed')) - p0
    def done(s, k, n, cur):
        """record k of stream s is processed when n streams are, and cur records of the next"""
        return And(s >= p0, Or(s < p0 + n, And(s.eq(p0 + n), k < cur) if cur is not None else FALSE))
    def want(f, i, n, cur):
        ok, s, k = holds(*i)
        v = {fs_: i[2], fl: s, fo: OFFS.read((s, k))}[f]
        return iteP(And(ok, done(s, k, n, cur)), v, before[f].read(i) if f in before else P(NONE))
    inside = lambda i: And(i[0] >= 0, i[0] < m.P_, i[1] >= 0, i[1] < (1 << 32), i[2] >= 0, i[2] < 4)
    def cands(view):
        outer = view.depth == 1
        n = (lambda v: v.n) if outer else (lambda v: v.outer[0][1])
        cur = (lambda v: None) if outer else (lambda v: v.n)
        yield Cand('streams taken', scalar=lambda v: here(v.st).eq(n(v) + (0 if outer else 1)))
        yield Cand('streams', scalar=lambda v: Or(p0 + n(v) <= lim, n(v).eq(0)) if outer else p0 + n(v) < lim)
        yield Cand('records read', key=('a', G, 0), forall=lambda v, i, val: val.eq(iteP(And(i[0] >= p0, i[0] < p0 + n(v)), R_.read((i[0],)), iteP(i[0].eq(p0 + n(v)), P(0) if outer else v.n, P(0)))))
        yield Cand('at headers', key=('a', G, 8), forall=lambda v, i, val: val.eq(0))
        if not outer:
            yield Cand('records', scalar=lambda v: v.n <= R_.read((p0 + n(v),)))
        for f in (fs_, fl, fo):
            yield Cand('locations %d' % f, key=('a', L, f), forall=lambda v, i, val, f=f: Implies(inside(i), val.eq(want(f, i, n(v), cur(v)))))
    T.cands.append(cands)
    for st, v in T.run([m.reader]):
        i = tuple(fresh_int(x) for x in ('position', 'frame', 'sector'))
        ok, s, k = holds(*i)
        mine = And(inside(i), ok, s >= p0, s < lim)
        at = lambda f, n=64: ex.array(st, L, f, ('int', n)).read(i)
        T.ensure(st, Implies(mine, And(at(fs_, 16).eq(i[2]), at(fl).eq(s), at(fo).eq(OFFS.read((s, k))))), 'the location of every record of these streams is set')
        T.ensure(st, Implies(And(inside(i), Not(mine)), at(fl).eq(NONE)), 'and no other')

def tasks():
    return sector_tasks() + [Task('processFrame', U, r'^void stempy::SectorStreamMultiPassThreadedReader::processFrame<VcSink>', process_frame, keep=KEEP),
            Task('numFramesPerScan', U, r'^vc_count$', count, keep=KEEP),
            Task('processFrames', U, r'^vc_all$', all_frames, keep=KEEP),
            Task('readHeaders', U, r'^vc_headers$', headers, keep=KEEP),
            Task('readFrames', U, r'^vc_frames$', frames, keep=KEEP)]

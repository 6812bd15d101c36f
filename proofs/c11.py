"""C11: the reader that assembles frames from the sectors of several files.

readHeader, readSectorData: sectors.py.
SectorStreamReader::read()
  The state of the reader: K(s) records of stream s are read; the list of streams holds each stream at most once, with
  its sector, and every stream that is not exhausted; the cache holds, for every frame of which some but not all four
  sectors are read and which was not handed out, its number of sectors, its header, and its pixels: those stored for the
  sectors read, 0 elsewhere.  (Fl: the incomplete frames already handed out.)
  requires such a state; at most one record per image and sector; complete records; equal scan sizes in all headers.
  ensures such a state again, in which no record is read twice and none is forgotten; and either
   - a frame with the pixels above is returned, that was not complete (and not handed out) before and is no longer in
     the cache: complete now, or every stream is exhausted; no other frame became complete; or
   - no frame is returned, every stream is exhausted and the cache is empty.
  By induction over the calls every frame is returned exactly once, with all its sectors.
iterator: begin() and ++ read one block, hold it, and equal end() exactly when there is none."""
from sectors import *
from iters import iterator

ASSUMPTIONS = ['std::map: one element per key, operator[] adds a default element, begin() is an element unless empty (trusted contract); std::vector::erase',
               'complete headers and sectors; at most one record per image and sector; the sector numbers of the files are 0..3; all headers name the same scan size',
               'partial correctness: that read() terminates is not proved']
def KEEP(d):
    return keep_files(d) or bool(re.search(r'^stempy::SectorStreamReader::(readSectorData\(std::|readHeader\(std::)|^(std::map<|std::_Rb_tree|std::operator(!=|==)\(std::_Rb_tree|bool std::operator(!=|==)<.*_Rb_tree)|^std::vector<stempy::SectorStreamReader::SectorStream, .*>::erase\(', d))
ALL = (1 << 32)

class Fn_:
    def __init__(self, fn, arity=1):
        self.sort, self.fn, self.arity = 'int', fn, arity
    def read(self, idx):
        return self.fn(idx)

def read(version):
    return lambda T: read_(T, version)
def read_(T, version):
    ctx, ex = T.ctx, T.ex
    c = consts(T.task.unit.raw)
    ns = T.int('streams', 64, 0, 1 << 31).p
    m0, it0 = T.int('open', 64, 0, 1 << 31).p, T.int('iterator', 64, 0, 1 << 31).p
    T.assume(And(m0 <= ns, it0 <= m0))
    rec = T.record('SectorStreamReader', {c['vc_xversion']: I(P(version), 8)})
    # ---- the records in the files
    SEC_, R_ = Base(ctx, 'sectorOf', 'int', 1, 0, 3), Base(ctx, 'records', 'int', 1, 0, 1 << 40)
    IM = Base(ctx, 'image', 'int', 2, 0, ALL - 1)
    WH, WK = Base(ctx, 'streamHolding', 'int', 2, -1, 1 << 31), Base(ctx, 'recordHolding', 'int', 2, -1, 1 << 41)
    PX = z3.Function('stored', *([z3.IntSort()] * 4))
    scan = T.int('scanNumber', 32).p
    SW, SH = T.int('scanWidth', 32).p, T.int('scanHeight', 32).p
    isrec = lambda s, k: And(s >= 0, s < ns, k >= 0, k < R_.read((s,)))
    def holds(p, j):
        s, k = WH.read((p, P(j))), WK.read((p, P(j)))
        return And(isrec(s, k), IM.read((s, k)).eq(p), SEC_.read((s,)).eq(j)), s, k
    def stored(s, k, n):
        v = P(PX(P(s).z(), P(k).z(), P(n).z()))
        ctx.add(And(v >= 0, v <= 65535))
        return v
    # ---- the state
    K0, Fl0 = Base(ctx, 'read', 'int', 1, 0, 1 << 40), Base(ctx, 'handedOut', 'int', 1, 0, 1)
    G = ex.region('ghost', stride=24, size=ns, lead=0)
    G.fields = {0: ('int', 64), 8: ('int', 64), 16: ('int', 64)}
    G.arr0 = {0: K0, 8: Fn_(lambda i: P(0)), 16: Base(ctx, 'where', 'int', 1, -1, 1 << 32)}
    garr = lambda st, f: ex.array(st, G, f, ('int', 64))
    def cons(Kf, p, j):
        ok, s, k = holds(p, j)
        return And(ok, k < Kf(s))
    def number(Kf, p):
        return sum((iteP(cons(Kf, p, j), P(1), P(0)) for j in range(4)), P(0))
    all4 = lambda Kf, p: And(*[cons(Kf, p, j) for j in range(4)])
    want = lambda Kf, Ff, p: iteP(Or(all4(Kf, p), Ff(p).eq(1)), P(0), number(Kf, p))
    k0, f0 = (lambda s: K0.read((P(s),))), (lambda p: Fl0.read((P(p),)))
    know = lambda st: (lambda s: garr(st, 0).read((P(s),)))
    def inside(s, k):
        return place(version, s, k)(ctx.divmod)
    def sector_of(k):
        return ctx.divmod(ctx.divmod(P(k), P(W))[1], P(SEC))[0] if version == 4 else ctx.divmod(P(k), P(SEC * W))[0]
    def pixel(Kf, p, q):
        s_ = sector_of(q)
        v = P(0)
        for j in range(4):
            ok, s, k = holds(p, j)
            v = iteP(And(s_.eq(j), cons(Kf, p, j)), stored(s, k, inside(P(j), q)[1]), v)
        return v
    # ---- the list of streams
    stdlib.STRUCTS['vcstream'] = (c['vc_ss_size'], {c['vc_ss_sector']: (('int', 32), False)}, {})
    SS = data_region(ex, 'vcstream', 'streams', 0)
    T.st.mem[('c', SS, 'n')] = I(m0, 64)
    rec.vec = {c['vc_x_streams']: SS}
    IF = ex.region('stream', stride=520, size=ns, lead=0)
    fs_, fi = c['vc_ss_stream'], c['vc_ss_sector']
    which0 = Base(ctx, 'streamAt', 'int', 1, 0, 1 << 31)
    SS.arr0 = {fs_: which0, fi: Fn_(lambda i: SEC_.read((which0.read(i),)))}
    SS.ptrload = {fs_: lambda ex, st, i: ptr(IF, ex.array(st, SS, fs_, ('int', 64)).read(i) * 520)}
    ex.array(T.st, SS, fs_, ('int', 64)), ex.array(T.st, SS, fi, ('int', 32))
    size = lambda st: stdlib.vsize(ex, st, SS, ())
    at = lambda st, i: ex.array(st, SS, fs_, ('int', 64)).read((P(i),))
    where = lambda st, s: garr(st, 16).read((P(s),))
    def listed(st, s):
        """stream s is in the list, or exhausted"""
        w = where(st, s)
        return Or(know(st)(s).eq(R_.read((s,))), And(w >= 0, w < size(st), at(st, w).eq(s)))
    which0.facts.append(lambda idx, val: Implies(And(P(idx[0]) >= 0, P(idx[0]) < m0), And(val < ns, G.arr0[16].read((val,)).eq(P(idx[0])))))
    G.arr0[16].facts.append(lambda idx, val: Implies(And(P(idx[0]) >= 0, P(idx[0]) < ns), Or(K0.read((P(idx[0]),)).eq(R_.read((P(idx[0]),))), And(val >= 0, val < m0, P(which0(val) if callable(which0) else which0.read((val,))).eq(P(idx[0]))))))
    K0.facts.append(lambda idx, val: Implies(And(P(idx[0]) >= 0, P(idx[0]) < ns), val <= R_.read((P(idx[0]),))))
    T.st.mem[('c', rec, c['vc_x_iterator'])] = ptr(SS, it0 * c['vc_ss_size'])
    # ---- the cache
    H = c['vc_c_frame'] + c['vc_fr_block'] + c['vc_block_header']
    count, data = c['vc_c_frame'] + c['vc_fr_count'], c['vc_c_frame'] + c['vc_fr_block'] + c['vc_block_data']
    scal = {'vc_hversion': (8 if False else None, P(version))}
    VAL = {'vc_hversion': P(version), 'vc_scanNumber': scan, 'vc_images': P(1)}
    val = {H + c[k]: v for k, v in VAL.items()}
    for f, (a, b) in (('vc_scan', (SW, SH)), ('vc_frame', (P(W), P(W)))):
        val[H + c[f]], val[H + c[f] + 4] = a, b
    fields = {o: (('int', 32), False) for o in list(val) + [H + c['vc_timestamp'], H + c['vc_frameNumber'], count]}
    stdlib.STRUCTS['vcframe'] = (c['vc_c_size'], fields, {H + c['vc_numbers']: 'unsigned int', H + c['vc_complete']: 'bool'})
    CA = data_region(ex, 'vcframe', 'frames', 0)
    CA.size0 = I(P(ALL), 64, 0, ALL)
    PI = data_region(ex, 'unsigned short', 'pixels', 1)
    NU, CO = CA.vec[H + c['vc_numbers']], CA.vec[H + c['vc_complete']]
    PR = ex.region('present', stride=4, size=P(ALL), lead=0)
    w0 = lambda p: want(k0, f0, P(p))
    CA.arr0 = {o: Fn_(lambda i, v=v: iteP(w0(i[0]) > 0, v, P(0))) for o, v in val.items()}
    CA.arr0[count] = Fn_(lambda i: w0(i[0]))
    PI.arr0 = {0: Fn_(lambda i: pixel(k0, i[0], i[1]), 2)}
    NU.arr0 = {0: Fn_(lambda i: i[0], 2)}
    T.st.mem[('a', PI, 'n')] = Fn_(lambda i: iteP(w0(i[0]) > 0, P(NPIX), P(0)))
    T.st.mem[('a', NU, 'n')] = Fn_(lambda i: iteP(w0(i[0]) > 0, P(1), P(0)))
    T.st.mem[('a', CO, 'n')] = Fn_(lambda i: P(0))
    PR.fields = {0: ('int', 32)}
    PR.arr0 = {0: Fn_(lambda i: iteP(w0(i[0]) > 0, P(1), P(0)))}
    for o in list(val) + [count]:
        ex.array(T.st, CA, o, ('int', 32))
    ex.array(T.st, PI, 0, ('int', 16)), ex.array(T.st, NU, 0, ('int', 32)), ex.array(T.st, PR, 0, ('int', 32))
    for f in (0, 8, 16):
        garr(T.st, f)
    pr = lambda st: ex.array(st, PR, 0, ('int', 32))
    psize = lambda st, p: stdlib.vsize(ex, st, PI, (P(p),))
    def load_data(ex, st, i):
        n = psize(st, i[0])
        return Ptr([(n > 0, PI, tuple(i), P(0)), (n <= 0, None, (), P(0))])
    def store_data(ex, st, i, v):
        live = [o for o in v.opts if not z3.is_false(o[0])]
        if len(live) != 1:
            raise Unsupported('storage of a cached frame')
        g, reg, par, off = live[0]
        if reg is None:
            stdlib.set_vsize(ex, st, PI, i, 0)
            return
        if not off.same(0) or reg.stride not in ('lazy', 2) or reg is PI:
            raise Unsupported('storage of a cached frame')
        n = reg.bytes.divexact(2) if reg.stride == 'lazy' else reg.size_at(par)
        src = ex.newbase(PI, 0, ('int', 16), 'new') if reg.stride == 'lazy' else None
        a, b = ex.array(st, PI, 0, ('int', 16)), None if src else ex.array(st, reg, 0, ('int', 16))
        st.mem[('a', PI, 0)] = stdlib.Slice(a, tuple(i), None, None, (lambda *q: src.read(tuple(i) + q)) if src else (lambda *q: b.read(tuple(par) + q)))
        stdlib.set_vsize(ex, st, PI, i, n)
        reg.gone = 'its storage belongs to the cached frame'
    CA.ptrload = {data: load_data, data + 8: lambda ex, st, i: NULL}
    CA.ptrstore = {data: store_data, data + 8: lambda ex, st, i, v: None}
    # ---- contracts of what is called
    gone = ex.region('erased')
    T.st.mem[('c', gone, 0)] = I(P(0), 64)
    last = ex.region('last')
    T.st.mem[('c', last, 0)] = T.st.mem[('c', last, 8)] = I(P(0), 64)
    def this_map(a):
        g, reg, par, off = stdlib.one(a)
        if reg is not rec or off.const_value() != c['vc_x_cache']:
            raise Unsupported('another map')
    def h_index(ex, st, d, a, ins):
        this_map(a[0])
        ex.oblige(st, ex.u(st, st.mem[('c', gone, 0)]).eq(0), 'no frame is added once one was handed out', 'pre')
        p = ex.u(st, a[1] if isinstance(a[1], I) else ex.load(st, ('int', 32), a[1], 'key'))
        st.mem[('a', PR, 0)] = Store(pr(st), (p,), P(1))
        return ptr(CA, p * c['vc_c_size'] + c['vc_c_frame'])
    asked = []
    def ask(st):
        """(is the map empty, some key of it otherwise)"""
        arr = pr(st)
        e, z = fresh_bool('empty'), ex.scoped(fresh_int('someFrame'))
        ctx.setrange(z, 0, ALL - 1)
        st.assume(Implies(Not(e), arr.read((z,)).eq(1)))
        asked.append((e, arr, z))
        return e, z
    def h_empty(ex, st, d, a, ins):
        this_map(a[0])
        return Bo(ask(st)[0])
    def h_begin(ex, st, d, a, ins):
        this_map(a[0])
        for e, arr, z in asked:  # unchanged since empty() was asked: the first key of then
            if arr is pr(st):
                break
        else:
            e, z = ask(st)
        return ptr(CA, z * c['vc_c_size'])
    def key_of(ex, st, v, offset=0):
        g, reg, par, off = stdlib.one(stdlib.iter_ptr(v))
        if reg is not CA:
            raise Unsupported('another iterator')
        i, f = ex.place(st, reg, par, off, 8, 'iterator')
        return i
    def h_deref(ex, st, d, a, ins):
        v = a[0]
        if stdlib.one(stdlib.iter_ptr(v))[1] is not CA:
            v = ex.load(st, ('ptr',), v, 'iterator')
        p = key_of(ex, st, v)
        ex.oblige(st, pr(st).read((p,)).eq(1), 'the iterator points to a frame', 'pre')
        return v
    def h_erase(ex, st, d, a, ins):
        this_map(a[0])
        if 'unsigned int const&' in d.rsplit('(', 1)[1]:
            p = ex.u(st, ex.load(st, ('int', 32), a[1], 'key'))
        else:
            v = a[1]
            if stdlib.one(stdlib.iter_ptr(v))[1] is not CA:
                v = ex.load(st, ('ptr',), v, 'iterator')
            p = key_of(ex, st, v)
            ex.oblige(st, pr(st).read((p,)).eq(1), 'the iterator points to a frame', 'pre')
        st.mem[('a', PR, 0)] = Store(pr(st), (p,), P(0))
        for o, ty in CA.fields.items():
            st.mem[('a', CA, o)] = Store(ex.array(st, CA, o, ty), (p,), P(0))
        for D in (PI, NU, CO):
            stdlib.set_vsize(ex, st, D, (p,), 0)
        st.mem[('c', gone, 0)] = I(P(1), 64)
        return I(P(1), 64) if 'unsigned int const&' in d.rsplit('(', 1)[1] else ptr(CA, p * c['vc_c_size'])
    def which(ex, st, pv):
        g, reg, par_, off = stdlib.one(pv)
        if reg is not IF:
            raise Unsupported('another stream')
        return ex.place(st, reg, par_, off, 8, 'stream')[0]
    def put(st, f, j, v):
        st.mem[('a', G, f)] = Store(garr(st, f), (j,), P(v))
    def h_peek(ex, st, d, a, ins):
        j = which(ex, st, a[0])
        ex.oblige(st, garr(st, 8).read((j,)).eq(0), 'the stream stands at a header, or at its end', 'pre')
        ch = fresh_int('char')
        ctx.setrange(ch, 0, 255)
        return I(iteP(know(st)(j) >= R_.read((j,)), P(-1), ch), 32)
    def h_header(ex, st, d, a, ins):
        """contract of readHeader"""
        j = which(ex, st, a[2])
        k = know(st)(j)
        ex.oblige(st, And(garr(st, 8).read((j,)).eq(0), k < R_.read((j,))), 'a header is read where there is one', 'pre')
        ex.oblige(st, B(stdlib.one(a[1])[1] is rec), 'readHeader of this reader', 'pre')
        out = stdlib.one(a[0])[1]
        if not getattr(out, 'vec', None):
            out.vec = {}
        N2 = out.vec.setdefault(c['vc_numbers'], data_region(ex, 'unsigned int', 'imageNumbers', 0))
        p, s = IM.read((j, k)), SEC_.read((j,))
        ctx.add(Implies(isrec(j, k), And(WH.read((p, s)).eq(j), WK.read((p, s)).eq(k), Implies(f0(p).eq(1), k0(j).eq(R_.read((j,)))))))
        stdlib.set_vsize(ex, st, N2, (), P(1))
        st.mem[('a', N2, 0)] = Fn_(lambda i: p)
        for f, v in (('vc_scan', SW), ('vc_images', P(1)), ('vc_scanNumber', scan), ('vc_hversion', P(version))):
            st.mem[('c', out, c[f])] = I(v, 32)
        st.mem[('c', out, c['vc_scan'] + 4)] = I(SH, 32)
        put(st, 8, j, 1)
        st.mem[('c', last, 0)], st.mem[('c', last, 8)] = I(j, 64), I(k, 64)
    def h_sector(ex, st, d, a, ins):
        """contract of readSectorData"""
        j = which(ex, st, a[1])
        k = know(st)(j)
        s = ex.s(st, a[3])
        ex.oblige(st, garr(st, 8).read((j,)).eq(1), 'a sector is read behind its header', 'pre')
        ex.oblige(st, And(s.eq(SEC_.read((j,)))), 'a sector goes to its own place', 'pre')
        ex.oblige(st, B(stdlib.one(a[0])[1] is rec), 'readSectorData of this reader', 'pre')
        g, reg, pp, off = stdlib.one(Ptr([o for o in ex.load(st, ('ptr',), ex.padd(a[2], P(c['vc_block_data'])), 'data').opts if o[1] is not None]))
        ex.oblige(st, And(off.eq(0), ex.size_now(st, reg, pp).eq(NPIX)), 'the block has room for the frame', 'pre')
        old = ex.array(st, reg, 0, ('int', 16))
        def fn(i):
            x, y = inside(s, i)
            return iteP(x, stored(j, k, y), old.read(tuple(pp) + (i,)))
        st.mem[('a', reg, 0)] = stdlib.Slice(old, pp, None, None, fn)
        put(st, 8, j, 0)
        put(st, 0, j, k + 1)
    def h_listerase(ex, st, d, a, ins):
        if stdlib.one(a[0])[1] is not rec:
            raise Unsupported('another vector')
        v = stdlib.iter_ptr(a[1])
        if stdlib.one(v)[1] is not SS:
            v = ex.load(st, ('ptr',), v, 'iterator')
        g, reg, par, off = stdlib.one(v)
        i, f = ex.place(st, reg, par, off, 8, 'iterator')
        n = size(st)
        ex.oblige(st, And(i >= 0, i < n), 'the erased element is in the list', 'pre')
        t = at(st, i)
        for f, ty in ((fs_, ('int', 64)), (fi, ('int', 32))):
            old = ex.array(st, SS, f, ty)
            st.mem[('a', SS, f)] = Fn_(lambda x, old=old: iteP(P(x[0]) >= i, old.read((P(x[0]) + 1,)), old.read(x)))
        w = garr(st, 16)
        st.mem[('a', G, 16)] = Fn_(lambda x: iteP(And(w.read(x) > i, Not(P(x[0]).eq(t))), w.read(x) - 1, iteP(P(x[0]).eq(t), P(-1), w.read(x))))
        stdlib.set_vsize(ex, st, SS, (), n - 1)
        return v
    M, S_ = r'^std::map<.*>::', r'^std::(basic_)?istream(<.*?>)?::'
    ex.handlers = [(re.compile(M + r'(operator\[\]|at)\('), h_index), (re.compile(M + r'empty\('), h_empty), (re.compile(M + r'c?begin\('), h_begin), (re.compile(M + r'erase(\[abi:cxx11\])?\('), h_erase),
                   (re.compile(r'^std::_Rb_tree(_const)?_iterator<.*>::operator(\*|->)\('), h_deref), (re.compile(S_ + r'peek\('), h_peek), (re.compile(r'::readHeader\(std::'), h_header), (re.compile(r'::readSectorData\(std::'), h_sector),
                   (re.compile(r'ifstream(<.*?>)?::close\('), stdlib.h_noop), (re.compile(r'^std::vector<stempy::SectorStreamReader::SectorStream, .*>::erase\('), h_listerase)] + ex.handlers
    # ---- the invariant
    def itpos(st):
        v = st.mem[('c', rec, c['vc_x_iterator'])]
        g, reg, par, off = stdlib.one(stdlib.iter_ptr(v))
        i = ex.simp(st, off).divexact(c['vc_ss_size']) if reg is SS else None
        if i is None:
            raise Unsupported('the position in the list of streams')
        return i
    okp = lambda p: And(P(p) >= 0, P(p) < ALL)
    oks = lambda s: And(P(s) >= 0, P(s) < ns)
    def state(st, Ff, out=None):
        """the invariant, as (name, key, function of index and value)"""
        Kf = know(st)
        w = lambda p: want(Kf, Ff, P(p))
        yield 'records read', ('a', G, 0), lambda i, v: Implies(oks(i[0]), And(v >= k0(i[0]), v <= R_.read((P(i[0]),))))
        yield 'list', ('a', SS, fs_), lambda i, v: Implies(And(P(i[0]) >= 0, P(i[0]) < size(st)), And(v >= 0, v < ns, where(st, v).eq(P(i[0]))))
        yield 'sectors of the list', ('a', SS, fi), lambda i, v: Implies(And(P(i[0]) >= 0, P(i[0]) < size(st)), v.eq(SEC_.read((at(st, i[0]),))))
        yield 'every stream is listed or exhausted', ('a', G, 16), lambda i, v: Implies(oks(i[0]), listed(st, i[0]))
        yield 'number of sectors', ('a', CA, count), lambda i, v: Implies(okp(i[0]), v.eq(w(i[0])))
        yield 'frames in the cache', ('a', PR, 0), lambda i, v: Implies(okp(i[0]), v.eq(iteP(w(i[0]) > 0, P(1), P(0))))
        for o, x in val.items():
            yield 'header field %d' % o, ('a', CA, o), lambda i, v, x=x: Implies(okp(i[0]), And(Implies(w(i[0]) > 0, v.eq(x)), Implies(w(i[0]).eq(0), v.eq(0)) if o == H + c['vc_hversion'] else TRUE))
        yield 'storage', ('a', PI, 'n'), lambda i, v: Implies(okp(i[0]), v.eq(iteP(w(i[0]) > 0, P(NPIX), P(0))))
        yield 'image numbers', ('a', NU, 'n'), lambda i, v: Implies(okp(i[0]), v.eq(iteP(w(i[0]) > 0, P(1), P(0))))
        yield 'image number', ('a', NU, 0), lambda i, v: Implies(And(okp(i[0]), P(i[1]).eq(0), w(i[0]) > 0), v.eq(P(i[0])))
        yield 'pixels', ('a', PI, 0), lambda i, v: Implies(And(okp(i[0]), P(i[1]) >= 0, P(i[1]) < NPIX, w(i[0]) > 0), v.eq(pixel(Kf, P(i[0]), P(i[1]))))
    def cands(view):
        st = view.st
        yield Cand('place in the list', scalar=lambda v: And(itpos(v.st) >= 0, itpos(v.st) <= size(v.st), size(v.st) >= 0, size(v.st) <= ns))
        yield Cand('a stream is read', scalar=lambda v: itpos(v.st) < size(v.st))
        yield Cand('the header that was read', scalar=lambda v: And(at(v.st, itpos(v.st)).eq(v.st.mem[('c', last, 0)].p), know(v.st)(v.st.mem[('c', last, 0)].p).eq(v.st.mem[('c', last, 8)].p + v.n)))
        yield Cand('one sector', scalar=lambda v: v.n <= 1)
        yield Cand('at headers', key=('a', G, 8), forall=lambda v, i, val: val.eq(0))
        yield Cand('behind a header', key=('a', G, 8), forall=lambda v, i, val: val.eq(iteP(And(P(i[0]).eq(at(v.st, itpos(v.st))), v.n.eq(0)), P(1), P(0))))
        yield Cand('nothing handed out', scalar=lambda v: ex.u(v.st, v.st.mem[('c', gone, 0)]).eq(0))
        yield Cand('no frame became complete', key=('a', PR, 0), forall=lambda v, i, val: Implies(okp(i[0]), B(all4(know(v.st), P(i[0]))) == B(all4(k0, P(i[0])))))
        yield Cand('frames in the cache before', key=('a', PR, 0), forall=lambda v, i, val: Implies(okp(i[0]), TRUE))
        for name, key, fn in state(st, f0):
            def go(v, i, x, name=name):
                for n2, k2, f2 in state(v.st, f0):
                    if n2 == name:
                        return f2(i, x)
            yield Cand(name, key=key, forall=go)
    T.cands.append(cands)
    out = T.record('Block')
    for st, v in T.run([ptr(out), ptr(rec)]):
        d = ex.load(st, ('ptr',), ptr(out, c['vc_block_data']), 'data')
        s, p = fresh_int('stream'), fresh_int('frame')
        Kf = know(st)
        null = Or(*[g for g, r, pp, o in d.opts if r is None])
        exhausted = Implies(oks(s), Kf(s).eq(R_.read((s,))))
        for e, arr, z in asked:
            ctx.add(Implies(And(e, okp(p)), arr.read((p,)).eq(0)))
        T.ensure(st, Implies(null, exhausted), 'no frame: every file is read to its end')
        T.ensure(st, Implies(And(null, okp(p)), want(Kf, f0, p).eq(0)), 'no frame: every frame was handed out')
        D, par = vec_of(ex, st, ptr(out, c['vc_block_header'] + c['vc_numbers']), 'unsigned int')
        f = ex.array(st, D, 0, ('int', 32)).read(tuple(par) + (P(0),))
        some = st.copy()
        some.assume(Not(null))
        Ff = f0
        if not some.dead():
            T.ensure(some, And(dynsize(ex, some, D, par).eq(1), okp(f)), 'one image number')
            for nm, o in [(k, 0) for k in VAL] + [(k, x) for k in ('vc_scan', 'vc_frame') for x in (0, 4)]:
                T.ensure(some, ex.u(some, ex.load(some, ('int', 32), ptr(out, c['vc_block_header'] + c[nm] + o), nm)).eq(val[H + c[nm] + o]), 'header of the frame: ' + nm[3:])
            T.ensure(some, And(Not(all4(k0, f)), f0(f).eq(0)), 'a frame is handed out once')
            T.ensure(some, number(Kf, f) > 0, 'a frame of which there are sectors')
            T.ensure(some, Or(all4(Kf, f), exhausted), 'complete, unless every file is read to its end')
            T.ensure(some, Implies(And(okp(p), p.ne(f)), B(all4(Kf, p)) == B(all4(k0, p))), 'no other frame became complete')
            q = fresh_int('pixel')
            for g, r, pp, o in d.opts:
                if r is None or z3.is_false(g):
                    continue
                T.ensure(some, Implies(And(g, q >= 0, q < NPIX), ex.array(some, r, 0, ('int', 16)).read(tuple(pp) + (q,)).eq(pixel(Kf, f, q))), 'every sector in its place, 0 where there is none')
                T.ensure(some, Implies(g, o.eq(0)), 'the pixels start at the start')
            Ff = lambda x: iteP(And(Not(null), P(x).eq(f)), P(1), f0(x))
        # the state afterwards
        Fa = lambda x: Ff(x)
        T.ensure(st, And(itpos(st) >= 0, itpos(st) <= size(st)), 'afterwards: place in the list')
        T.ensure(st, Implies(oks(s), garr(st, 8).read((s,)).eq(0)), 'afterwards: all streams stand at headers')
        for name, key, fn in state(st, Fa):
            arr = st.mem[key]
            i = (s if key[1] in (G, SS) else p,) + ((fresh_int('i'),) if arr.arity == 2 else ())
            T.ensure(st, fn(i, arr.read(i)), 'afterwards: ' + name)

def tasks():
    return sector_tasks() + \
        [Task('SectorStreamReader::read version %d' % v, U, r'^stempy::SectorStreamReader::read\(\)', read(v), keep=KEEP) for v in (4, 5)] + \
        [Task('SectorStreamReader iterator: ' + k, U, r'^vc_x_%s$' % k, iterator(k, 'SectorStreamReader', False, 'x_'), keep=lambda d: d.startswith('stempy::SectorStreamReader::read()')) for k in ('begin', 'end', 'next')]

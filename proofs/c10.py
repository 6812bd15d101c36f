"""C10: decoding of the block formats (StreamReader).

The files and the stream are those of files.py: W16/W32 are the little-endian words of a file.
readHeaderVersion1/2/3
  requires an open stream; version 1: at most 1014 images in a block (that is all a header has room for).
  ensures exactly the bytes of the header (4096, 4, 16) are consumed and the fields of the header are those the
  format stores at their offsets; image numbers zero based, or y * scan width + x; an error if it is incomplete.
read()
  requires the stream closed (never opened, or reset), or open on the current file before or at its end;
  width * height * images of a block < 2^32.
  ensures after the last file an empty block; at the end of a file, or closed: what read() itself returns at the
  start of the next (current) file; otherwise the block that starts here: the header as above (contract), then
  the pixels bit for bit, and exactly these bytes are consumed; an error, and never a block, if it is truncated
  (exceptions are followed into the catch clauses).
reset() ensures the next file that is opened is the first.
iterator: begin() and ++ read one block, hold it, and equal end() exactly when there is none (read() by contract).
By induction over the blocks these determine the sequence that repeated reading returns.
Arrays (buffer protocol) and the Python layer: run-time check only."""
from common import *
from files import *

U = unit(os.path.join(frontend.HARNESS, 'vc/reader.cpp'), 'reader', ['-I' + os.path.join(frontend.HARNESS, 'vc')])
ASSUMPTIONS = ['std::ifstream: open starts at byte 0, read returns the bytes in order and sets eof when they do not suffice, peek returns EOF exactly at the end (trusted contract; read errors other than end of file are not modelled)',
               'version 1: at most 1014 images per block; width*height*images < 2^32']

class Hdr:
    def __init__(self, T, out, c):
        self.T, self.out, self.c = T, out, c
        out.vec = {c['vc_numbers']: data_region(T.ex, 'unsigned int', 'imageNumbers', 0), c['vc_complete']: data_region(T.ex, 'bool', 'complete', 0)}
    def cell(self, st, f, k=0):
        ex = self.T.ex
        v = st.mem.get(('c', self.out, self.c[f] + 4 * k))
        if not isinstance(v, I):
            raise Unsupported('field %s of the header is not set' % f)
        return ex.u(st, v)
    def numbers(self, st):
        D = self.out.vec[self.c['vc_numbers']]
        return dynsize(self.T.ex, st, D, ()), self.T.ex.array(st, D, 0, ('int', 32))

def header(version):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        c = consts(T.task.unit.raw)
        fs = Files(T, c)
        out = T.record('Header')
        h = Hdr(T, out, c)
        p0, f0 = fs.pos(T.st), fs.file(T.st)
        w32, w16 = (lambda o: fs.w32(f0, p0 + o)), (lambda o: fs.w16(f0, p0 + o))
        if version == 1:
            n = w32(0)
            T.assume(n <= 1014)
        NU = out.vec[c['vc_numbers']]
        def number(k):
            """image number k of a block of this version"""
            if version == 2:
                return P(k)
            w = w32(P(k) * 4 + 40)
            return iteP(w.eq(0), P((1 << 32) - 1), w - 1)
        def cands(view):
            if version != 3:
                size = lambda v: dynsize(ex, v.st, NU, ())
                yield Cand('as many numbers as passes', scalar=lambda v: size(v).eq(v.n))
                yield Cand('numbers so far', key=('a', NU, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < v.n), val.eq(number(idx[0]))))
                if version == 1:
                    yield Cand('numbers to come', key=('a', NU, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= v.n, idx[0] < n), val.eq(w32(idx[0] * 4 + 40))))
        T.cands.append(cands)
        for st, v in T.run([ptr(out), fs.reader]):
            size = {1: 4096, 2: 4, 3: 16}[version]
            T.ensure(st, And(p0 + size <= fs.length(f0), fs.pos(st).eq(p0 + size), fs.file(st).eq(f0)), 'the header is complete and exactly its bytes are consumed')
            cnt, num = h.numbers(st)
            k = fresh_int('k')
            inside = And(k >= 0, k < cnt)
            T.ensure(st, h.cell(st, 'vc_hversion').eq(version), 'version') if version != 1 else None
            if version == 1:
                T.ensure(st, And(h.cell(st, 'vc_images').eq(n), cnt.eq(n)), 'number of images')
                T.ensure(st, And(h.cell(st, 'vc_frame', 1).eq(w32(4)), h.cell(st, 'vc_frame').eq(w32(8)), h.cell(st, 'vc_hversion').eq(w32(12)), h.cell(st, 'vc_timestamp').eq(w32(16))), 'the stored frame size, version and time')
                T.ensure(st, Implies(inside, num.read((k,)).eq(number(k))), 'the stored image numbers, zero based')
            elif version == 2:
                T.ensure(st, And(h.cell(st, 'vc_images').eq(1600), cnt.eq(1600), h.cell(st, 'vc_frame').eq(576), h.cell(st, 'vc_frame', 1).eq(576)), '1600 frames of 576 x 576')
                T.ensure(st, Implies(inside, num.read((k,)).eq(k)), 'the image numbers 0, 1, 2, ...')
            else:
                T.ensure(st, And(h.cell(st, 'vc_images').eq(1), cnt.eq(1), h.cell(st, 'vc_frame').eq(576), h.cell(st, 'vc_frame', 1).eq(576)), 'one frame of 576 x 576')
                T.ensure(st, And(h.cell(st, 'vc_scanNumber').eq(w32(0)), h.cell(st, 'vc_frameNumber').eq(w32(4)), h.cell(st, 'vc_scan').eq(w16(8)), h.cell(st, 'vc_scan', 1).eq(w16(10))), 'the stored scan number, frame number and scan size')
                T.ensure(st, Implies(w16(14) * w16(8) + w16(12) < (1 << 31), num.read((P(0),)).eq(w16(14) * w16(8) + w16(12))), 'image number = y * width + x')
    return fn

SIZE = {1: 4096, 2: 4, 3: 16}
def read(version):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        ex.unwind = True
        c = consts(T.task.unit.raw)
        fs = Files(T, c, I(P(version), 32), opened=False)
        f0, p0 = fs.index0.p, fs.pos(T.st)
        w32, w16 = (lambda o: fs.w32(f0, p0 + o)), (lambda o: fs.w16(f0, p0 + o))
        num = Base(ctx, 'imageNumber', 'int', 1, 0, (1 << 32) - 1)
        if version == 1:
            W, H, n = w32(8), w32(4), w32(0)
            scan = (0, 0)
        else:
            W = H = P(576)
            n, scan = (P(1600), (0, 0)) if version == 2 else (P(1), (w16(8), w16(10)))
        N = W * H * n
        T.assume(And(W * H < (1 << 32), N < (1 << 32), N >= 0))
        fields = {'vc_frame': (W, H), 'vc_images': (n,), 'vc_scan': scan}
        for f in ('vc_hversion', 'vc_timestamp', 'vc_frameNumber', 'vc_scanNumber'):
            fields[f] = (T.int(f[3:], 32).p,)
        complete = []
        def h_header(ex, st, d, a, ins):
            """contract of readHeaderVersion<version>"""
            hv = int(re.search(r'readHeaderVersion(\d)', d).group(1))
            ex.oblige(st, B(hv == version), 'the header is read with the version of the reader', 'pre')
            if hv != version:
                raise Unsupported('header of another version')
            ex.oblige(st, And(fs.file(st).eq(f0), fs.pos(st).eq(p0), fs.get(st, 'eof').eq(0), fs.get(st, 'open').eq(1)), 'the header is read where the block starts', 'pre')
            bad = st.copy()
            bad.assume(p0 + SIZE[hv] > fs.length(f0))
            ex.pending.append(bad)
            st.assume(p0 + SIZE[hv] <= fs.length(f0))
            fs.put(st, 'pos', p0 + SIZE[hv])
            g, reg, par, off = stdlib.one(a[0])
            o0 = off.const_value()
            for f, vals in fields.items():
                for k, v in enumerate(vals):
                    st.mem[('c', reg, o0 + c[f] + 4 * k)] = I(P(v), 32, 0, (1 << 32) - 1)
            D, par = vec_of(ex, st, ex.padd(a[0], P(c['vc_numbers'])), 'unsigned int')
            stdlib.set_vsize(ex, st, D, par, n)
            stdlib.set_slice(ex, st, D, par, lambda o: lambda i: num.read((i,)))
            D, par = vec_of(ex, st, ex.padd(a[0], P(c['vc_complete'])), 'bool')
            stdlib.set_vsize(ex, st, D, par, 0)
        again = ex.region('ghost')
        T.st.mem[('c', again, 0)] = I(P(0), 64)
        def h_again(ex, st, d, a, ins):
            """read() itself: the contract, for the state it is called in"""
            ex.oblige(st, And(f0 < fs.nf, Or(fs.open0.p.eq(0), p0 >= fs.length(f0))), 'the next block is looked for in the next file only at the end of a file', 'pre')
            nxt = iteP(fs.open0.p.eq(1), f0 + 1, f0)
            ix = ex.u(st, ex.load(st, ('int', 64), ex.padd(fs.reader, P(c['vc_index'])), 'index'))
            ex.oblige(st, And(ix.eq(nxt), Implies(nxt < fs.nf, And(fs.get(st, 'open').eq(1), fs.file(st).eq(nxt), fs.pos(st).eq(0), fs.get(st, 'eof').eq(0)))), 'reading goes on at the start of the next file', 'pre')
            ex.oblige(st, B(stdlib.one(a[0])[1] is out and stdlib.one(a[1])[1] is fs.rec), 'the next block of this reader is the result', 'pre')
            st.mem[('c', again, 0)] = I(P(1), 64)
            st.mem[('c', out, c['vc_block_data'])] = NULL
        ex.handlers = [(re.compile(r'^stempy::StreamReader::readHeaderVersion\d\('), h_header), (re.compile(r'^stempy::StreamReader::read\(\)'), h_again)] + ex.handlers
        out = T.record('Block')
        for st, v in T.run([ptr(out), fs.reader]):
            rec = st.mem[('c', again, 0)].p
            data = ex.load(st, ('ptr',), ptr(out, c['vc_block_data']), 'data')
            null = Or(*[g for g, r, p, o in data.opts if r is None])
            some = And(f0 < fs.nf, fs.open0.p.eq(1), p0 < fs.length(f0))
            T.ensure(st, Implies(f0 >= fs.nf, And(null, rec.eq(0))), 'after the last file: no block')
            T.ensure(st, Implies(And(f0 < fs.nf, Not(some)), rec.eq(1)), 'at the end of a file: what the next file holds')
            s = st.copy()
            s.assume(some)
            if s.dead():
                continue
            T.ensure(s, And(rec.eq(0), Not(null)), 'a block is returned')
            T.ensure(s, p0 + SIZE[version] + N * 2 <= fs.length(f0), 'a truncated block is not returned')
            T.ensure(s, And(fs.file(s).eq(f0), fs.get(s, 'open').eq(1), fs.pos(s).eq(p0 + SIZE[version] + N * 2), fs.get(s, 'eof').eq(0)), 'exactly the bytes of the block are consumed')
            for f, vals in fields.items():
                T.ensure(s, And(*[ex.u(s, ex.load(s, ('int', 32), ptr(out, c[f] + 4 * k), f)).eq(v) for k, v in enumerate(vals)]), 'header of the block: ' + f[3:])
            D, par = vec_of(ex, s, ptr(out, c['vc_numbers']), 'unsigned int')
            k = fresh_int('k')
            T.ensure(s, And(dynsize(ex, s, D, par).eq(n), Implies(And(k >= 0, k < n), ex.array(s, D, 0, ('int', 32)).read((k,)).eq(num.read((k,))))), 'header of the block: image numbers')
            for g, r, p, o in data.opts:
                if r is None or z3.is_false(g):
                    continue
                if r.stride != 2:
                    raise Unsupported('pixels of a block')
                T.ensure(s, Implies(g, And(o.eq(0), ex.size_now(s, r, p).eq(N))), 'as many pixels as the header says')
                T.ensure(s, Implies(And(g, k >= 0, k < N), ex.array(s, r, 0, ('int', 16)).read(tuple(p) + (k,)).eq(fs.w16(f0, p0 + SIZE[version] + k * 2))), 'the stored pixels, in order')
    return fn

def reset(T):
    ex = T.ex
    fs = Files(T, consts(T.task.unit.raw), opened=False)
    for st, v in T.run([fs.reader]):
        T.ensure(st, And(fs.get(st, 'open').eq(0), ex.u(st, ex.load(st, ('int', 64), ex.padd(fs.reader, P(fs.c['vc_index'])), 'index')).eq(0)), 'the next file to be opened is the first')

def read_tasks():
    return [Task('StreamReader::read version %d' % v, U, r'^stempy::StreamReader::read\(\)', read(v), keep=lambda d: keep_files(d) or d.startswith('stempy::StreamReader::readHeaderVersion')) for v in (1, 2, 3)]

def tasks():
    return [Task('readHeaderVersion%d' % v, U, r'^stempy::StreamReader::readHeaderVersion%d\(' % v, header(v), keep=keep_files) for v in (1, 2, 3)] + read_tasks() + [Task('StreamReader::reset', U, r'^stempy::StreamReader::reset\(\)', reset, keep=keep_files)] + \
        [Task('StreamReader iterator: ' + k, U, r'^vc_s_%s$' % k, iterator(k, 'StreamReader', False, 's_'), keep=lambda d: d.startswith('stempy::StreamReader::read()')) for k in ('begin', 'end', 'next')]

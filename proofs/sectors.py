"""The decoding of sectors, shared by the readers of the four-sector formats.

readHeader(stream)        requires a complete header at the stream's position.
  ensures exactly its 16 bytes are consumed; scan number, frame number and scan size are those stored, the one image
  number is y * scan width + x of the stored position.
readSectorData(stream, block, s)  requires a complete sector at the stream's position, 0 <= s < 4, a block of 576 x 576.
  ensures exactly its bytes are consumed; the pixels of sector s (columns 144 s .. 144 s + 143 in version 4, rows
  144 s .. 144 s + 143 in version 5) are the stored ones in order, all others are unchanged."""
from common import *
from files import *
from c10 import Hdr

U = unit(os.path.join(frontend.HARNESS, 'vc/reader.cpp'), 'reader', ['-I' + os.path.join(frontend.HARNESS, 'vc')])
W, SEC, NPIX, SBYTES = 576, 144, 576 * 576, 144 * 576 * 2

def place(version, s, k):
    """(is pixel k of the frame in sector s, its number in the sector)"""
    s, k = P(s), P(k)
    if version == 4:
        return lambda divmod: (lambda rc: (And(rc[1] >= s * SEC, rc[1] < s * SEC + SEC), rc[0] * SEC + rc[1] - s * SEC))(divmod(k, P(W)))
    return lambda divmod: (And(k >= s * (SEC * W), k < (s + 1) * (SEC * W)), k - s * (SEC * W))

class Stream(Files):
    """one open stream of a sector reader"""
    def __init__(self, T, version=None):
        c = consts(T.task.unit.raw)
        Files.__init__(self, T, c)
        cells = {c['vc_xversion']: I(P(version), 8) if version is not None else T.int('version', 8, 4, 5)}
        self.rec = T.record('SectorStreamReader', cells)
        self.reader = ptr(self.rec)
        self.stream = ptr(self.vtab, 0)
        # the stream object: its virtual table holds an offset to the base class
        self.vtab.init = lambda o, ty: ptr(self.vtab2, 24) if ty == ('ptr',) else I(P(256), 64)
        self.vtab2 = T.ex.region('vtable')
        self.vtab2.init = lambda o, ty: I(P(256), 64)

def header(T):
    ctx, ex = T.ctx, T.ex
    fs = Stream(T)
    c = fs.c
    out = T.record('Header')
    h = Hdr(T, out, c)
    p0, f0 = fs.pos(T.st), fs.file(T.st)
    w32, w16 = (lambda o: fs.w32(f0, p0 + o)), (lambda o: fs.w16(f0, p0 + o))
    T.assume(p0 + 16 <= fs.length(f0))
    for st, v in T.run([ptr(out), fs.reader, fs.stream]):
        T.ensure(st, And(fs.pos(st).eq(p0 + 16), fs.file(st).eq(f0), fs.get(st, 'eof').eq(0)), 'exactly the bytes of the header are consumed')
        cnt, num = h.numbers(st)
        T.ensure(st, And(h.cell(st, 'vc_images').eq(1), cnt.eq(1)), 'one image per header')
        T.ensure(st, (h.cell(st, 'vc_frame') * h.cell(st, 'vc_frame', 1)).eq(SEC * W), 'the size of a sector')
        T.ensure(st, And(h.cell(st, 'vc_scanNumber').eq(w32(0)), h.cell(st, 'vc_frameNumber').eq(w32(4)), h.cell(st, 'vc_scan').eq(w16(8)), h.cell(st, 'vc_scan', 1).eq(w16(10))), 'the stored scan number, frame number and scan size')
        T.ensure(st, Implies(w16(14) * w16(8) + w16(12) < (1 << 31), num.read((P(0),)).eq(w16(14) * w16(8) + w16(12))), 'image number = y * width + x')

def sector(version, direct=True):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        fs = Stream(T, version)
        c = fs.c
        s = T.int('sector', 32, 0, 3)
        PX = T.array('data', 'unsigned short', P(NPIX))
        old = ex.array(T.st, PX, 0, ('int', 16))
        blk = T.record('Block', {c['vc_block_data']: ptr(PX)})
        p0, f0 = fs.pos(T.st), fs.file(T.st)
        T.assume(p0 + SBYTES <= fs.length(f0))
        def want(k, upto):
            """pixel k after the first `upto` rows of the sector"""
            inside, n = place(version, s.p, k)(ctx.divmod)
            if upto is not None:
                inside = And(inside, ctx.divmod(P(k), P(W))[0] < upto)
            return iteP(inside, fs.w16(f0, p0 + n * 2), old.read((P(k),)))
        def cands(view):
            yield Cand('rows so far', key=('a', PX, 0), forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < NPIX), val.eq(want(idx[0], v.n))))
            yield Cand('position', scalar=lambda v: And(fs.pos(v.st).eq(p0 + v.n * (SEC * 2)), fs.get(v.st, 'eof').eq(0)))
            yield Cand('rows', scalar=lambda v: v.n <= W)
        T.cands.append(cands)
        for st, v in T.run([fs.reader, fs.stream, ptr(blk), s]):
            k = fresh_int('k')
            T.ensure(st, And(fs.pos(st).eq(p0 + SBYTES), fs.file(st).eq(f0), fs.get(st, 'eof').eq(0)), 'exactly the bytes of the sector are consumed')
            T.ensure(st, Implies(And(k >= 0, k < NPIX), ex.array(st, PX, 0, ('int', 16)).read((k,)).eq(want(k, None))), 'the pixels of the sector are in their place, all others unchanged')
    return fn

def sector_tasks():
    return [Task('SectorStreamReader::readHeader', U, r'^stempy::SectorStreamReader::readHeader\(std::', header, keep=keep_files)] + \
        [Task('SectorStreamReader::readSectorData version %d' % v, U, r'^stempy::SectorStreamReader::readSectorData\(std::', sector(v), keep=keep_files) for v in (4, 5)]

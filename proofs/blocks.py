"""The ghost sequence of blocks over which the drivers are verified: block b (0 <= b < B) has frames(b)
frames of W x H pixels, the image numbers number(b, i) and the pixels px(b, k), k < frames(b)*W*H.
The contract of the iterator (trusted: that the readers' iterators behave like this is C10-C13):
*it and it-> refer to block it.pos, which has to exist."""
from common import *
from stdlib import data_region, dynsize

UB = unit(os.path.join(frontend.HARNESS, 'vc/images.cpp'), 'vc_images', ['-I' + os.path.join(frontend.HARNESS, 'vc')])

def consts(raw):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'@(vc_\w+) = .*constant i64 (\d+)', open(raw).read())}

class Sub:
    """the array a[lead...][.]"""
    def __init__(self, a, lead):
        self.a, self.lead, self.sort, self.arity = a, tuple(lead), a.sort, a.arity - len(lead)
    def read(self, idx):
        return self.a.read(self.lead + tuple(P(i) for i in idx))

class Blocks:
    def __init__(self, T, scan=True):
        self.T, ctx, ex = T, T.ctx, T.ex
        self.c = consts(T.task.unit.raw)
        self.W, self.H = T.int('width', 32, 1, 1 << 24), T.int('height', 32, 1, 1 << 24)
        self.N = self.W.p * self.H.p
        T.assume(And(self.N >= 1, self.N < (1 << 32)))
        self.B = T.int('blocks', 64, 0, 1 << 40).p
        self.sw, self.sh = T.int('headerScanWidth', 32), T.int('headerScanHeight', 32)
        self.frames_ = Base(ctx, 'frames', 'int', 1, 0, (1 << 32) - 1)
        self.px = Base(ctx, 'px', 'int', 2, 0, 65535)
        self.number = Base(ctx, 'number', 'int', 2, 0, (1 << 32) - 1)
        self.recs = {}
        self.rec = {}
        ex.handlers = [(re.compile(r'^VcIt::operator(\*|->)\(\) const'), self.deref)] + ex.handlers
    def frames(self, b):
        n = self.frames_.read((P(b),))
        ctx = self.T.ctx
        ctx.add(n * self.N < (1 << 32))          # requires: pixels of a block are counted in 32 bits
        ctx.add(n * self.N >= 0)
        return n
    def deref(self, ex, st, d, a, ins):
        pos = ex.simp(st, ex.u(st, ex.load(st, ('int', 64), a[0], 'iterator')))
        ex.oblige(st, And(pos >= 0, pos < self.B), 'the iterator stands at a block', 'pre')
        return ptr(self.record(pos))
    def record(self, pos):
        k = pos.key()
        if k in self.rec:
            return self.rec[k]
        T, ex, c = self.T, self.T.ex, self.c
        n = self.frames(pos)
        DR = ex.region('pixels', stride=2, size=n * self.N)
        DR.fields = {0: ('int', 16)}
        DR.arr0 = {0: Sub(self.px, (pos,))}
        DR.readonly, DR.blk = True, pos
        cells = {c['vc_scan']: self.sw, c['vc_scan'] + 4: self.sh, c['vc_frame']: self.W, c['vc_frame'] + 4: self.H,
                 c['vc_images']: I(n, 32, 0, (1 << 32) - 1), c['vc_block_data']: ptr(DR), c['vc_block_data'] + 8: UNDEF}
        for f in ('version', 'timestamp', 'frameNumber', 'scanNumber'):
            cells[c['vc_' + f]] = I(P(z3.Int('%s!%d' % (f, next(core._fresh)))), 32, 0, (1 << 32) - 1)
        r = T.record('block', cells)
        r.layout = [(o, ('int', 32)) for o in cells if o < c['vc_numbers']] 
        NU = data_region(ex, 'unsigned int', 'imageNumbers', 0)
        NU.size0 = I(n, 64, 0, (1 << 32) - 1)
        NU.arr0 = {0: Sub(self.number, (pos,))}
        CO = data_region(ex, 'bool', 'complete', 0)
        r.vec = {c['vc_numbers']: NU, c['vc_complete']: CO}
        r.blockpos = pos
        self.rec[k] = r
        return r

def calls(view, rx):
    """does the loop call a function whose name matches"""
    f = view.ex.f
    for b in view.loop.blocks:
        for i in f.blocks[b]:
            if i.op in ('call', 'invoke') and i.a[1][0] == '@' and re.search(rx, view.ex.dem.get(i.a[1][1:].strip('"'), '')):
                return True
    return False

def step_lemma(ctx, n, hi, N):
    """n < hi => (n+1) * N <= hi * N"""
    ctx.add(Implies(And(n >= 0, n < hi), And((n + 1) * N <= hi * N, n * N >= 0)))
    return TRUE

def KEEP(d):
    return d.startswith('VcIt::operator*') or d.startswith('VcIt::operator-')

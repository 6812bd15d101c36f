"""A file stream and what is in the files: contracts of std::ifstream (trusted).

Files f = 0, 1, ... hold len(f) bytes; W16(f, p) and W32(f, p) are the little-endian words at byte p of file f.
The stream (a ghost record) is open or not, on one file, at a position, with the end-of-file flag set or not."""
from common import *
from iters import consts, iterator

STREAM = r'std::(basic_)?(i|io|if)?(f)?stream|std::basic_ifstream<char|std::basic_istream<char|std::basic_ios<char'
def keep_files(d):
    n = d.split('(')[0]
    return bool(re.match(r'^(void )?std::(basic_)?(ifstream|istream|ios)(<[^&]*>)?::', n))

class Files:
    def __init__(self, T, c, version=None, opened=True):
        self.T, ctx, ex = T, T.ctx, T.ex
        self.c = c
        self.nf = T.int('files', 64, 1, 1 << 40).p
        self.W16 = z3.Function('word16', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.LEN = z3.Function('fileLength', z3.IntSort(), z3.IntSort())
        self.gh = ex.region('stream')
        self.index0 = T.int('curFileIndex', 64, 0, 1 << 40)
        self.open0 = I(P(1), 64) if opened else T.int('isOpen', 64, 0, 1)
        self.vtab = ex.region('vtable')
        self.vtab.init = lambda o, ty: I(P(256), 64)
        cells = {c['vc_index']: self.index0, c['vc_stream']: ptr(self.vtab, 24), c['vc_version']: version or T.int('version', 32)}
        init = {'open': self.open0, 'file': self.index0, 'pos': T.int('position', 64, 0, 1 << 60), 'eof': I(P(0), 64)}
        for k, v in init.items():
            T.st.mem[('c', self.gh, k)] = v
        self.rec = T.record('StreamReader', cells)
        self.reader = ptr(self.rec)
        T.assume(Implies(self.open0.p.eq(1), And(self.index0.p < self.nf, self.pos(T.st) <= self.length(self.index0.p))))
        ex.handlers = [(re.compile(r'^std::(basic_)?istream(<.*?>)?::read\('), self.h_read), (re.compile(r'^std::basic_ios<char, std::char_traits<char>>::eof\('), self.h_eof),
                       (re.compile(r'^std::(basic_)?istream(<.*?>)?::peek\('), self.h_peek)] + ex.handlers
        S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
        stdlib.STRUCTS[S] = (32, {}, {})
        F = data_region(ex, S, 'files', 0)
        F.size0 = I(self.nf, 64, 0, 1 << 41)
        self.rec.vec = {c['vc_files']: F}
        self.can = z3.Function('canOpen', z3.IntSort(), z3.BoolSort())
        ex.handlers = [(re.compile(r'^(void )?std::(basic_)?ifstream(<.*?>)?::is_open\('), lambda ex, st, d, a, ins: Bo(self.get(st, 'open').eq(1))),
                       (re.compile(r'^(void )?std::(basic_)?ifstream(<.*?>)?::close\('), self.h_close), (re.compile(r'^(void )?std::(basic_)?ifstream(<.*?>)?::open\('), self.h_open)] + ex.handlers
    def h_close(self, ex, st, d, a, ins):
        self.put(st, 'open', 0)
    def h_open(self, ex, st, d, a, ins):
        g, reg, par, off = stdlib.one(a[1])
        i, f = ex.place(st, reg, par, off, 32, 'open')
        ex.bounds(st, g, reg, par, i, 'file name', 'access')
        ex.oblige(st, self.get(st, 'open').eq(0), 'only a closed stream is opened', 'pre')
        for k, v in (('open', iteP(self.can(i.z()), P(1), P(0))), ('file', i), ('pos', P(0)), ('eof', P(0))):
            self.put(st, k, v)
    def get(self, st, k):
        return st.mem[('c', self.gh, k)].p
    def put(self, st, k, v):
        st.mem[('c', self.gh, k)] = I(P(v), 64)
    def pos(self, st):
        return self.get(st, 'pos')
    def file(self, st):
        return self.get(st, 'file')
    def length(self, f):
        t = P(self.LEN(P(f).z()))
        self.T.ctx.add(And(t >= 0, t < (1 << 60)))
        return t
    def w16(self, f, p):
        t = P(self.W16(P(f).z(), P(p).z()))
        self.T.ctx.add(And(t >= 0, t < (1 << 16)))
        return t
    def w32(self, f, p):
        return self.w16(f, p) + self.w16(f, P(p) + 2) * 65536
    def h_eof(self, ex, st, d, a, ins):
        return Bo(self.get(st, 'eof').eq(1))
    def h_peek(self, ex, st, d, a, ins):
        at = Or(self.get(st, 'open').ne(1), self.pos(st) >= self.length(self.file(st)))
        self.put(st, 'eof', iteP(at, P(1), self.get(st, 'eof')))
        ch = fresh_int('char')
        self.T.ctx.setrange(ch, 0, 255)
        return I(iteP(at, P(-1), ch), 32)
    def h_read(self, ex, st, d, a, ins):
        ctx = self.T.ctx
        n = ex.s(st, a[2])
        f, p = self.file(st), self.pos(st)
        ex.oblige(st, And(n >= 0, self.get(st, 'open').eq(1), self.get(st, 'eof').eq(0)), 'read from an open stream', 'pre')
        ok = p + n <= self.length(f)
        g, reg, par, off = stdlib.one(a[1])
        if reg is None:
            raise Unsupported('read to null')
        if reg.stride is None:
            if not n.is_const() or not off.is_const() or n.const_value() not in (2, 4, 8):
                raise Unsupported('read of %r bytes into a record' % n)
            o, k = off.const_value(), n.const_value()
            ty = next((t for r_, o_, t in getattr(reg, 'typed', [])), None)
            if k == 4:
                w = self.w32(f, p)
            elif k == 2:
                w = self.w16(f, p)
            else:
                w = self.w32(f, p) + self.w32(f, p + 4) * (1 << 32)
            u = fresh_int('partial')
            ctx.setrange(u, 0, (1 << (8 * k)) - 1)
            st.mem[('c', reg, o)] = I(iteP(ok, w, u), 8 * k)
        else:
            if reg.stride == 'lazy':
                ex.place(st, reg, par, P(0), 2, 'read')
            s = reg.stride
            if not getattr(reg, 'fields', None):
                reg.fields = {0: ('int', 8 * s)}
            e, fo = ex.place(st, reg, par, off, s, 'read')
            cnt = n.divexact(s)
            if cnt is None or s not in (2, 4):
                raise Unsupported('read of %r bytes into elements of %d' % (n, s))
            ex.oblige(st, Implies(n >= 1, And(e >= 0, e + cnt <= ex.size_now(st, reg, par))), 'the bytes read fit into %s' % reg.name.split('#')[0], 'memory')
            old = ex.array(st, reg, fo, ('int', 8 * s))
            new = ex.newbase(reg, fo, ('int', 8 * s), 'read')
            k = len(par)
            def fact(idx, val):
                i = P(idx[k])
                inside = And(i >= e, i < e + cnt, *[P(x).eq(y) for x, y in zip(idx, par)])
                o = p + (i - e) * s
                w = self.w32(f, o) if s == 4 else self.w16(f, o)
                return And(Implies(And(inside, ok), val.eq(w)), Implies(Not(inside), val.eq(old.read(idx))))
            new.facts.append(fact)
            st.mem[('a', reg, fo)] = new
        self.put(st, 'pos', iteP(ok, p + n, self.length(f)))
        self.put(st, 'eof', iteP(ok, P(0), P(1)))
        ex.trusted.add('std::ifstream reads the bytes of its file in order')
        return a[0]

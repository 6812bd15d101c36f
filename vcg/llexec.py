"""Symbolic execution of normalised LLVM IR, loops cut by invariants; produces proof obligations."""
import copy, math, re, struct, time
import z3
from core import *
import core
import irparse, os
TRACE = bool(os.environ.get('VCG_TRACE'))
DEBUG = bool(os.environ.get('VCG_DEBUG'))

rnd = {32: z3.Function('rnd32', z3.RealSort(), z3.RealSort()), 64: z3.Function('rnd64', z3.RealSort(), z3.RealSort())}
rdiv = z3.Function('rdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
rmul = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
rsqrt = z3.Function('rsqrt', z3.RealSort(), z3.RealSort())
EXACT = {32: 1 << 24, 64: 1 << 53}

class I:
    """an integer modulo 2^n, represented by the polynomial p; lo <= p <= hi where known"""
    __slots__ = ('p', 'n', 'lo', 'hi')
    def __init__(self, p, n, lo=None, hi=None):
        self.p = P(p)
        self.n = n
        if self.p.is_const():
            lo = hi = self.p.const_value()
        self.lo, self.hi = lo, hi
    def __repr__(self):
        return 'i%d %r' % (self.n, self.p)

class Bo:
    __slots__ = ('b',)
    def __init__(self, b):
        self.b = B(b)

class R:
    """a floating-point number (finite), as a real; ip: its value as an integer if it is one"""
    __slots__ = ('z_', 'w', 'ip', 'lo', 'hi', 'sq', 'frac')
    def __init__(self, z_, w, ip=None, lo=None, hi=None, sq=None, frac=None):
        self.frac = frac            # (p, d): the number is exactly the integer p divided by d
        self.z_, self.w, self.ip, self.lo, self.hi, self.sq = z_, w, ip, lo, hi, sq
        if ip is not None and ip.is_const():
            self.lo = self.hi = ip.const_value()
    @property
    def z(self):
        if self.z_ is None:
            if self.ip.is_const():
                self.z_ = z3.RealVal(self.ip.const_value())
            else:
                self.z_ = z3.ToReal(self.ip.z())
        return self.z_

class Ptr:
    """guarded alternatives (guard, region or None for null, leading indices, byte offset)"""
    __slots__ = ('opts',)
    def __init__(self, opts):
        self.opts = opts
    def __repr__(self):
        return 'ptr%s' % [(str(g)[:20], r and r.name, p, o) for g, r, p, o in self.opts]

def ptr(region, off=0, params=()):
    return Ptr([(TRUE, region, tuple(P(x) for x in params), P(off))])
NULL = Ptr([(TRUE, None, (), P(0))])

class Agg:
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = list(v)

class Undef:
    pass
UNDEF = Undef()

class Opaque:
    """a value that is only passed around"""
    def __init__(self, tag):
        self.tag = tag

class Region:
    def __init__(self, name, stride=None, size=None, lead=0):
        """stride None: a record addressed by constant byte offsets; else an array of `size`
        elements of `stride` bytes (with `lead` leading index parameters)"""
        self.name, self.stride, self.lead = name, stride, lead
        self.size = size if callable(size) else (P(size) if size is not None else None)
        self.readonly = False
        self.ptrfields = {}     # field offset -> fn(lead+idx) -> Ptr
        self.sorts = {}         # field offset -> ('int',N,signed)|('real',w)
    def size_at(self, params):
        return P(self.size(*params)) if callable(self.size) else self.size
    def __repr__(self):
        return self.name

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc
    def copy(self):
        return State(dict(self.mem), list(self.pc))
    def assume(self, c):
        c = B(c)
        if not z3.is_true(c):
            self.pc.append(c)
    def cond(self):
        return And(*self.pc)
    def dead(self):
        return any(z3.is_false(c) for c in self.pc)

class Obl:
    def __init__(self, name, hyps, goal, kind):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind

def ids(l):
    return [x.get_id() for x in l]

def merge_pcs(pcs):
    n = 0
    while all(len(p) > n for p in pcs) and len(set(p[n].get_id() for p in pcs)) == 1:
        n += 1
    rests = [p[n:] for p in pcs]
    common = pcs[0][:n]
    while True:
        # c, rest / not c, rest  ->  rest
        done = True
        for i in range(len(rests)):
            for j in range(i + 1, len(rests)):
                a, b = rests[i], rests[j]
                if len(a) == len(b) and a and ids(a[1:]) == ids(b[1:]) and Not(a[0]).get_id() == b[0].get_id() or \
                   len(a) == len(b) and a and ids(a[:-1]) == ids(b[:-1]) and (Not(a[-1]).get_id() == b[-1].get_id() or Not(b[-1]).get_id() == a[-1].get_id()):
                    r = a[1:] if ids(a[1:]) == ids(b[1:]) and Not(a[0]).get_id() == b[0].get_id() else a[:-1]
                    rests = [x for k, x in enumerate(rests) if k not in (i, j)] + [r]
                    done = False
                    break
            if not done:
                break
        if done:
            break
    if any(not r for r in rests):
        return list(common)
    if len(rests) == 1:
        return list(common) + rests[0]
    return list(common) + [Or(*[And(*r) for r in rests])]

class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.parent, self.kids = header, {header}, None, []
        self.alive = None       # names of candidates that survived so far

class View:
    """what a candidate invariant may talk about, at one of the three points of a loop"""
    def __init__(self, ex, loop, n, phis, st, outer, point):
        self.ex, self.loop, self.n, self.phis, self.st, self.outer, self.point = ex, loop, n, phis, st, outer, point
    @property
    def depth(self):
        return len(self.outer) + 1
    def cell(self, region, off):
        return self.st.mem.get(('c', region, off))
    def arr(self, region, off, ty):
        return self.ex.array(self.st, region, off, ty)

class Cand:
    def __init__(self, name, scalar=None, key=None, forall=None, generic=False):
        self.generic = generic
        """scalar(view) -> Bool | None;  or a fact about every element of the array mem[key]:
        forall(view, idx, value) -> Bool"""
        self.name, self.scalar, self.key, self.forall = name, scalar, key, forall

class Exec:
    def __init__(self, module, dem, ctx, handlers, candidates=None):
        self.modof = {}
        self.unwind = False                 # follow exceptions into the landing pads
        self.pending = []
        self.clones = {}
        self.m, self.dem, self.ctx = module, dem, ctx
        self.handlers = handlers            # [(regex, fn(ex, st, name, args, ins) -> value)]
        self.candidates = candidates        # fn(view) -> [Cand]
        self.obls = []
        self.active = []                    # literals of the invariants in force
        self.dry = 0
        self.regions = []
        self.outer = []
        self.throws = []
        self.trusted = set()
        self.deadline = None
        self.noverify_mem = False
        self.globals_ = {}
        self.initial = {}
        self.loopstats = []

    # ------------------------------------------------------------ helpers
    def region(self, *a, **k):
        r = Region(*a, **k)
        r.name = '%s#%d' % (r.name, len(self.regions))
        self.regions.append(r)
        return r
    def hyps(self, st, extra=()):
        return list(self.active) + list(st.pc) + list(extra)
    def prove(self, st, goal, timeout=1500, rounds=200):
        goal = B(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) or self.dry:
            return False
        key = (tuple(ids(self.active)), tuple(ids(st.pc)), goal.get_id())
        c = self.ctx.cache.get(key)
        if c is None:
            t0 = time.time()
            c = (self.ctx.check(self.hyps(st), goal, timeout, rounds), goal, list(st.pc), list(self.active))   # kept alive: the key holds ids
            if TRACE:
                print('    %.2fs %s r%d %s' % (time.time() - t0, c[0], self.ctx.rounds, str(goal).replace('\n', ' ')[:300]))
            self.ctx.cache[key] = c
        return c[0] == 'proved'
    def prove_each(self, st, goal, timeout):
        goal = B(goal)
        if z3.is_and(goal):
            st = st.copy()
            for g in goal.children():
                if not self.prove_each(st, g, timeout):
                    return False
                st.pc.append(g)
            return True
        return self.prove(st, goal, timeout)
    def oblige(self, st, goal, name, kind='assert'):
        if self.dry:
            return
        if z3.is_true(B(goal)):
            self.obls.append(Obl(name, None, TRUE, kind))
            return
        self.obls.append(Obl(name, self.hyps(st), B(goal), kind))
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit for this function')

    # ------------------------------------------------------------ integers
    def simp(self, st, p):
        """resolve the if-then-else atoms of p that the path condition decides"""
        if self.dry:
            return p
        for _ in range(6):
            m = {}
            for a in p.atoms():
                t = core._ites.get(a)
                if t is None:
                    continue
                if self.prove(st, t[0], 500, 4):
                    m[a] = t[1]
                elif self.prove(st, Not(t[0]), 500, 4):
                    m[a] = t[2]
            if not m:
                return p
            p = substP(p, m)
        return p
    def divmod(self, st, d, e):
        if self.dry:
            return self.ctx.divmod(d, e)
        d = self.simp(st, d)
        e = self.simp(st, e)
        for a in d.atoms():
            t = core._ites.get(a)
            if t is not None and all(m in ((), (a,)) for m in d.t):
                s1, s2 = st.copy(), st.copy()
                s1.assume(t[0])
                s2.assume(Not(t[0]))
                q1, m1 = self.divmod(s1, substP(d, {a: t[1]}), e)
                q2, m2 = self.divmod(s2, substP(d, {a: t[2]}), e)
                return iteP(t[0], q1, q2), iteP(t[0], m1, m2)
        if d.is_const() and e.is_const() or e.is_const() and d.divexact(e.const_value()) is not None:
            return self.ctx.divmod(d, e)
        if (d.key(), e.key()) not in self.ctx.divs:
            if self.prove(st, And(d >= 0, d < e), 800, 6):
                return P(0), d
            if not e.is_const() and self.prove(st, And(d >= e, d < e + e), 800, 6):
                return P(1), d - e
            if not e.is_const() and self.prove(st, And(d >= 0, d < e + e), 800, 6):
                return iteP(d < e, P(0), P(1)), iteP(d < e, d, d - e)
        return self.ctx.divmod(d, e)
    def within(self, st, v, lo, hi):
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
            return True
        a, b = self.ctx.interval(v.p)
        if a is not None:
            v.lo = a if v.lo is None else max(a, v.lo)
            v.hi = b if v.hi is None else min(b, v.hi)
            if a >= lo and b <= hi:
                return True
        if self.prove(st, And(v.p >= lo, v.p <= hi), 1500, 10):
            return True
        return False
    def u(self, st, v):
        """the value as an unsigned number"""
        if isinstance(v, Bo):
            return iteP(v.b, 1, 0)
        M = 1 << v.n
        if v.p.is_const():
            return P(v.p.const_value() % M)
        if self.within(st, v, 0, M - 1):
            return v.p
        if any(a in core._ites for a in v.p.atoms()):
            p = self.simp(st, v.p)
            if not p.same(v.p):
                return self.u(st, I(p, v.n, v.lo, v.hi))
        if v.lo is not None and v.hi is not None and v.lo >= -M and v.hi < 0:
            return v.p + M
        if v.lo is not None and v.hi is not None and v.lo >= -M and v.hi < M or self.prove(st, And(v.p >= -M, v.p < M), 1500, 10):
            r = iteP(v.p < 0, v.p + M, v.p)
            self.remember(r, v.p)
            return r
        q, r = self.ctx.divmod(v.p, P(M))
        self.remember(r, v.p)
        return r
    def remember(self, r, p):
        """r is p reduced modulo a power of two; used only to find candidate bounds of counters"""
        if len(r.t) == 1 and self.dry:
            self.modof[next(iter(r.t))[0]] = p
    def demod(self, p):
        for _ in range(4):
            m = {a: self.modof[a] for a in p.atoms() if a in self.modof}
            if not m:
                break
            p = substP(p, m)
        return p
    def s(self, st, v):
        """the value as a signed number"""
        if isinstance(v, Bo):
            return iteP(v.b, -1, 0)
        M = 1 << v.n
        H = M // 2
        if v.p.is_const():
            c = v.p.const_value() % M
            return P(c - M if c >= H else c)
        if self.within(st, v, -H, H - 1):
            return v.p
        if v.lo is not None and v.hi is not None and v.lo >= H and v.hi < M:
            return v.p - M
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M or self.prove(st, And(v.p >= 0, v.p < M), 1500, 10):
            r = iteP(v.p >= H, v.p - M, v.p)
            self.remember(r, v.p)
            return r
        q, r = self.ctx.divmod(v.p, P(M))
        self.remember(r, v.p)
        r = iteP(r >= H, r - M, r)
        self.remember(r, v.p)
        return r
    def ranged(self, p, n):
        lo, hi = self.ctx.interval(p)
        return I(p, n, lo, hi)
    def mk(self, p, n, lo=None, hi=None):
        return I(p, n, lo, hi)
    def int_of(self, st, v):
        if isinstance(v, Bo):
            return I(iteP(v.b, 1, 0), 1, 0, 1)
        return v

    # ------------------------------------------------------------ reals
    def rconst(self, x, w):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        if x == int(x):
            return R(None, w, P(int(x)), int(x), int(x))
        a, b = x.as_integer_ratio()
        return R(z3.RealVal(a) / z3.RealVal(b), w)
    def rint(self, st, p, lo, hi, w):
        """the floating-point number nearest to the integer p"""
        E = EXACT[w]
        if lo is not None and hi is not None and -E <= lo and hi <= E:
            return R(None, w, p, lo, hi)
        if self.prove(st, And(p >= -E, p <= E)):
            return R(None, w, p, lo if lo is not None and lo >= -E else -E, hi if hi is not None and hi <= E else E)
        z = z3.ToReal(p.z())
        return R(self.round_(z, w), w, None)
    def round_(self, z, w):
        return rnd[w](z3.simplify(z, som=True) if False else z)
    def rop(self, st, op, a, b, w):
        if op == 'fmul' and a.ip is not None and b.ip is not None and a.ip.same(b.ip) and w == 64 and (None in (a.lo, a.hi) or max(-a.lo, a.hi) > 1 << 26):
            # a square: exact if the number is below 2^26
            for e in (25, 26):
                if self.prove(st, And(a.ip >= -(1 << e), a.ip <= 1 << e)):
                    a = b = R(a.z_, a.w, a.ip, -(1 << e), 1 << e)
                    break
        if a.ip is not None and b.ip is not None and op in ('fadd', 'fsub', 'fmul'):
            if op == 'fadd':
                p = a.ip + b.ip
                lo = a.lo + b.lo if None not in (a.lo, b.lo) else None
                hi = a.hi + b.hi if None not in (a.hi, b.hi) else None
            elif op == 'fsub':
                p = a.ip - b.ip
                lo = a.lo - b.hi if None not in (a.lo, b.hi) else None
                hi = a.hi - b.lo if None not in (a.hi, b.lo) else None
            else:
                p = a.ip * b.ip
                lo = hi = None
                if None not in (a.lo, a.hi, b.lo, b.hi):
                    c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                    lo, hi = min(c), max(c)
                    if a.ip.same(b.ip):
                        lo = max(lo, 0)
            r = self.rint(st, p, lo, hi, w)
            if r.ip is not None:
                return r
            if op == 'fmul' and not (a.ip.is_const() or b.ip.is_const()):
                return r
        if op == 'fadd':
            z = a.z + b.z
        elif op == 'fsub':
            z = a.z - b.z
        elif op == 'fmul':
            z = self.rmul(a, b)
        elif op == 'fdiv':
            if b.ip is not None and b.ip.is_const():
                c = b.ip.const_value()
                if c == 0:
                    raise Unsupported('division by zero')
                z = a.z / z3.RealVal(c)
                if c & (c - 1) == 0 and c > 0:      # exact
                    return R(z, w, frac=(a.ip, c) if a.ip is not None else None)
            else:
                z = rdiv(a.z, b.z)
        else:
            raise Unsupported(op)
        if op in ('fadd', 'fsub') and (a.ip is not None and a.ip.is_const() and a.ip.const_value() == 0 and op == 'fadd'):
            return R(b.z, w, b.ip, b.lo, b.hi)
        if op in ('fadd', 'fsub') and b.ip is not None and b.ip.is_const() and b.ip.const_value() == 0:
            return R(a.z, w, a.ip, a.lo, a.hi)
        return R(self.round_(z, w), w)
    def rmul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.ip is not None and x.ip.is_const():
                return z3.RealVal(x.ip.const_value()) * y.z
            zz = z3.simplify(x.z)
            if z3.is_rational_value(zz):
                return zz * y.z
        x, y = a.z, b.z
        if core.order(x) > core.order(y):
            x, y = y, x
        self.ctx.add(rmul(x, y) == rmul(y, x))
        return rmul(x, y)

    # ------------------------------------------------------------ memory
    def tykey(self, t):
        t = self.m.resolve(t)
        if t[0] == 'int':
            return ('int', t[1])
        if t[0] in ('float', 'double'):
            return ('real', 32 if t[0] == 'float' else 64)
        if t[0] == 'ptr':
            return ('ptr',)
        raise Unsupported('memory type %r' % (t,))
    def array(self, st, region, off, ty):
        key = ('a', region, off)
        a = st.mem.get(key)
        if a is None:
            a = region_init(self, region, off, ty)
            st.mem[key] = a
        return a
    def newbase(self, region, off, ty, name=None):
        name = name or '%s.%d' % (region.name, off)
        if ty[0] == 'int':
            sg = region.sorts.get(off, (None, None, False))[2]
            n = ty[1]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            return Base(self.ctx, name, 'int', region.lead + 1, lo, hi)
        return Base(self.ctx, name, 'real', region.lead + 1)
    def wrap(self, region, off, ty, v):
        if ty[0] == 'int':
            n = ty[1]
            sg = region.sorts.get(off, (None, None, False))[2]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            if n == 1:
                return Bo(v.eq(1))
            return I(v, n, lo, hi)
        fld = region.sorts.get(off)
        if fld and fld[0] == 'realint':
            return R(None, ty[1], v, fld[1], fld[2])
        return R(v, ty[1])
    def place(self, st, region, params, off, size, what):
        """index of an access of `size` bytes, as (index, field offset)"""
        if getattr(region, 'gone', None):
            raise Unsupported('%s is used through another pointer: %s' % (region.name, region.gone))
        if region.stride == 'lazy':
            region.stride = size
            q = region.bytes.divexact(size)
            if q is None and self.dry:
                q = self.demod(region.bytes).divexact(size)
            if q is None:
                raise Unsupported('allocation size %r' % region.bytes)
            region.size = q
        off = self.simp(st, off)
        c = off.t.get((), 0)
        f = c % region.stride
        e = (off - f).divexact(region.stride)
        if e is None:
            q, m = self.ctx.divmod(off, P(region.stride))
            raise Unsupported('offset %r into %s' % (off, region.name))
        return e, f
    def load(self, st, t, pv, what):
        t = self.m.resolve(t)
        ty = self.tykey(t)
        size = self.m.size(t)
        if not isinstance(pv, Ptr):
            raise Unsupported('load through %r' % type(pv).__name__)
        vals = []
        for g, reg, par, off in pv.opts:
            if z3.is_false(g):
                continue
            if reg is None:
                self.oblige(st, Not(g), 'no null pointer access (%s)' % what, 'memory')
                continue
            if reg.stride is None:
                if not off.is_const():
                    raise Unsupported('variable offset into record %s' % reg.name)
                o = off.const_value()
                if ty == ('ptr',):
                    v = self.vec_field(st, reg, o, par)
                    if v is not None:
                        vals.append((g, v))
                        continue
                v = self.cell(st, reg, o, ty)
                if isinstance(v, Undef):
                    pass
                vals.append((g, self.coerce(v, ty)))
                continue
            idx, f = self.place(st, reg, par, off, size, what)
            self.bounds(st, g, reg, par, idx, what, 'load')
            if ty == ('ptr',):
                get = getattr(reg, 'ptrload', {}).get(f)
                v = get(self, st, tuple(par) + (idx,)) if get else self.vec_field(st, reg, f, tuple(par) + (idx,))
                if v is not None:
                    vals.append((g, v))
                    continue
                fn = reg.ptrfields.get(f)
                a = st.mem.get(('p', reg, f))
                if a is not None:
                    vals.append((g, a(tuple(par) + (idx,))))
                elif fn:
                    vals.append((g, fn(*(tuple(par) + (idx,)))))
                else:
                    raise Unsupported('pointer read from %s+%d' % (reg.name, f))
                continue
            a = self.array(st, reg, f, ty)
            v = a.read(tuple(par) + (idx,))
            vals.append((g, self.wrap(reg, f, ty, v)))
        if not vals:
            st.assume(FALSE)
            return self.undef(ty)
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            r = self.ite(g, v, r)
        return r
    def vec_field(self, st, reg, o, par):
        """begin / end / end-of-storage pointer of a vector object"""
        vec = getattr(reg, 'vec', None)
        if vec:
            own = getattr(reg, 'own', ())
            if o in vec:
                return ptr(vec[o], 0, par)
            if o - 8 in vec and o - 8 not in own:
                D = vec[o - 8]
                return ptr(D, dynsize(self, st, D, par) * D.stride, par)
        return None
    def coerce(self, v, ty):
        if ty[0] == 'int' and isinstance(v, I) and v.n != ty[1]:
            raise Unsupported('load of i%d from an i%d cell' % (ty[1], v.n))
        if ty[0] == 'int' and isinstance(v, (R, Ptr)) or ty[0] == 'real' and isinstance(v, (I, Ptr)) or ty[0] == 'ptr' and isinstance(v, (I, R)):
            raise Unsupported('load at another type')
        if isinstance(v, Undef):
            return self.undef(ty)
        return v
    def undef(self, ty):
        if ty[0] == 'int':
            if ty[1] == 1:
                return Bo(fresh_bool('undef'))
            p = fresh_int('undef')
            self.ctx.setrange(p, 0, (1 << ty[1]) - 1)
            return I(p, ty[1], 0, (1 << ty[1]) - 1)
        if ty[0] == 'real':
            return R(fresh_real('undef'), ty[1])
        return UNDEF
    def halves(self, st, v):
        hi, lo = self.ctx.divmod(self.u(st, v), P(1 << 32))
        return I(lo, 32, 0, (1 << 32) - 1), I(hi, 32, 0, (1 << 32) - 1)
    def split_cell(self, st, reg, o):
        """a 64-bit cell becomes two of 32 bits"""
        v = st.mem.get(('c', reg, o))
        if isinstance(v, I) and v.n == 64:
            st.mem[('c', reg, o)], st.mem[('c', reg, o + 4)] = self.halves(st, v)
    def cell(self, st, reg, o, ty):
        v = st.mem.get(('c', reg, o))
        if ty == ('int', 32):
            w = st.mem.get(('c', reg, o - 4))
            if isinstance(v, I) and v.n == 64:
                return self.halves(st, v)[0]
            if v is None and isinstance(w, I) and w.n == 64:
                return self.halves(st, w)[1]
        if v is None:
            v = self.cell_init(st, reg, o, ty)
        if ty == ('int', 64) and isinstance(v, I) and v.n == 32:
            w = self.cell(st, reg, o + 4, ('int', 32))
            if isinstance(w, I) and w.n == 32:
                return I(self.u(st, v) + self.u(st, w) * (1 << 32), 64, 0, (1 << 64) - 1)
        return v
    def cell_init(self, st, reg, o, ty):
        v = self.cell0(reg, o, ty)
        st.mem[('c', reg, o)] = v
        return v
    def cell0(self, reg, o, ty):
        """the value a cell has before anything is stored to it"""
        m = getattr(reg, 'cells0', None)
        if m is None:
            m = reg.cells0 = {}
        v = m.get((o, ty))
        if v is None:
            init = getattr(reg, 'init', None)
            v = init(o, ty) if init else None
            if v is None:
                v = self.undef(ty)
            m[(o, ty)] = v
        return v
    def cell_before(self, k, sample):
        reg, o = k[1], k[2]
        if o == 'n':
            if not hasattr(reg, 'size0'):
                dynsize(self, State({}, []), reg, ())
            return reg.size0
        ty = ('int', sample.n) if isinstance(sample, I) else ('int', 1) if isinstance(sample, Bo) else ('real', sample.w) if isinstance(sample, R) else ('ptr',) if isinstance(sample, Ptr) else None
        return self.cell0(reg, o, ty) if ty else UNDEF
    def bounds(self, st, g, reg, par, idx, what, kind):
        size = self.size_now(st, reg, par)
        c = And(idx >= 0, idx < size)
        self.oblige(st, Implies(g, c), '%s inside %s (%s)' % (kind, reg.name.split('#')[0], what), 'memory')
    def size_now(self, st, reg, par):
        if getattr(reg, 'dyn', False):
            return dynsize(self, st, reg, par)
        size = reg.size_at(par)
        if size is None:
            raise Unsupported('size of %s' % reg.name)
        return size
    def store(self, st, t, v, pv, what):
        t = self.m.resolve(t)
        if not isinstance(pv, Ptr):
            raise Unsupported('store through %r' % type(pv).__name__)
        if t[0] == 'struct' and isinstance(v, Agg):
            for k in range(len(t[1])):
                o, ft = self.m.field_off(t, k)
                self.store(st, ft, v.v[k], self.padd(pv, P(o)), what)
            return
        ty = self.tykey(t)
        size = self.m.size(t)
        live = [o for o in pv.opts if not z3.is_false(o[0])]
        for g, reg, par, off in live:
            if reg is None:
                self.oblige(st, Not(g), 'no null pointer access (%s)' % what, 'memory')
                continue
            if reg.readonly:
                self.oblige(st, Not(g), 'nothing is written to %s (%s)' % (reg.name.split('#')[0], what), 'frame')
                continue
            if reg.stride is None:
                if not off.is_const():
                    raise Unsupported('variable offset into record %s' % reg.name)
                key = ('c', reg, off.const_value())
                if ty[0] == 'int' and isinstance(v, I) and ty[1] in (32, 64):
                    o = off.const_value()
                    if ty[1] == 32:
                        self.split_cell(st, reg, o)
                        self.split_cell(st, reg, o - 4)
                    else:
                        c = [st.mem.get(('c', reg, x)) for x in (o, o + 4)]
                        if any(isinstance(x, I) and x.n == 32 for x in c):
                            lo, hi = self.halves(st, v)
                            pv32 = Ptr([(g, reg, par, off)])
                            self.store(st, ('int', 32), lo, pv32, what)
                            self.store(st, ('int', 32), hi, self.padd(pv32, P(4)), what)
                            continue
                if z3.is_true(g):
                    st.mem[key] = v
                else:
                    old = st.mem.get(key)
                    if old is None:
                        old = self.cell_init(st, reg, off.const_value(), ty)
                    st.mem[key] = self.ite(g, v, old)
                continue
            idx, f = self.place(st, reg, par, off, size, what)
            self.bounds(st, g, reg, par, idx, what, 'store')
            if ty == ('ptr',):
                put = getattr(reg, 'ptrstore', {}).get(f)
                if put:
                    put(self, st, tuple(par) + (idx,), v)
                    continue
                enc = getattr(reg, 'ptrenc', {}).get(f)
                if not enc:
                    raise Unsupported('pointer stored to %s+%d' % (reg.name, f))
                a, x = self.array(st, reg, f, ('int', 64)), enc(v)          # a field that holds one of numbered objects
            else:
                a = self.array(st, reg, f, ty)
                x = self.raw(st, reg, f, ty, v)
            i = tuple(par) + (idx,)
            if not z3.is_true(g):
                x = iteP(g, x, a.read(i)) if a.sort == 'int' else iteR(g, x, a.read(i))
            st.mem[('a', reg, f)] = Store(a, i, x)
    def raw(self, st, reg, f, ty, v):
        if ty[0] == 'int':
            if isinstance(v, Undef):
                v = self.undef(ty)
            sg = reg.sorts.get(f, (None, None, False))[2]
            return self.s(st, v) if sg else self.u(st, v)
        if isinstance(v, Undef):
            v = self.undef(ty)
        fld = reg.sorts.get(f)
        if fld and fld[0] == 'realint':
            if v.ip is None:
                raise Unsupported('inexact number stored to %s' % reg.name)
            self.oblige(st, And(v.ip >= fld[1], v.ip <= fld[2]), 'value stored to %s is a representable integer' % reg.name, 'arith')
            return v.ip
        return v.z
    def padd(self, pv, off):
        if not isinstance(pv, Ptr):
            if isinstance(pv, Undef):
                return pv
            raise Unsupported('pointer arithmetic on %r' % type(pv).__name__)
        return Ptr([(g, r, p, o + off if r is not None else o) for g, r, p, o in pv.opts])

    # ------------------------------------------------------------ merging
    def ite(self, c, a, b):
        if a is b or z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, I) and isinstance(b, I):
            if a.p.same(b.p):
                return a
            lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None
            hi = max(a.hi, b.hi) if None not in (a.hi, b.hi) else None
            return I(iteP(c, a.p, b.p), a.n, lo, hi)
        if isinstance(a, Bo):
            return Bo(iteB(c, a.b, b.b))
        if isinstance(a, R) and isinstance(b, R):
            if a.ip is not None and b.ip is not None:
                lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None
                hi = max(a.hi, b.hi) if None not in (a.hi, b.hi) else None
                return R(None, a.w, iteP(c, a.ip, b.ip), lo, hi)
            return R(iteR(c, a.z, b.z), a.w)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            out = []
            bo = list(b.opts)
            for g, r, p, o in a.opts:
                hit = None
                for k, (g2, r2, p2, o2) in enumerate(bo):
                    if r2 is r and len(p) == len(p2) and all(x.same(y) for x, y in zip(p, p2)):
                        hit = k
                        break
                if hit is not None:
                    g2, r2, p2, o2 = bo.pop(hit)
                    d = o - o2
                    if d.is_const() and d.const_value() == 0:
                        oo = o
                    else:
                        k = 0
                        for co in d.t.values():
                            k = math.gcd(k, co)
                        oo = o2 + iteP(c, d.divexact(k), 0) * k
                    out.append((iteB(c, g, g2), r, p, oo))
                else:
                    out.append((And(c, g), r, p, o))
            for g, r, p, o in bo:
                out.append((And(Not(c), g), r, p, o))
            return Ptr(out)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg([self.ite(c, x, y) for x, y in zip(a.v, b.v)])
        if type(a) is type(b) and isinstance(a, Opaque):
            return a
        if hasattr(a, 'read') and hasattr(b, 'read'):
            return Ite(c, a, b)
        raise Unsupported('join of %s and %s' % (type(a).__name__, type(b).__name__))
    def merge(self, sts):
        """[(state)] -> state, with the conditions to select between them"""
        if len(sts) == 1:
            return sts[0].copy(), [TRUE]
        pc = merge_pcs([s.pc for s in sts])
        n = 0
        while all(len(s.pc) > n for s in sts) and len(set(s.pc[n].get_id() for s in sts)) == 1:
            n += 1
        sel = [And(*s.pc[n:]) for s in sts]
        mem = {}
        keys = set()
        for s in sts:
            keys |= set(s.mem)
        for k in keys:
            vs = [(c, s.mem[k]) for c, s in zip(sel, sts) if k in s.mem]
            if len(vs) < len(sts) and k[0] == 'a':
                # not touched on some paths: its initial contents
                base = [v for v in vs]
                ini = region_init_for(self, k, vs[0][1])
                vs = [(c, s.mem.get(k, ini)) for c, s in zip(sel, sts)]
            elif len(vs) < len(sts) and k[0] == 'c':
                ini = self.cell_before(k, vs[0][1])
                vs = [(c, s.mem.get(k, ini)) for c, s in zip(sel, sts)]
            r = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                r = r if v is r else self.ite(c, v, r)
            mem[k] = r
        return State(mem, pc), sel

    # ------------------------------------------------------------ CFG
    def analyse(self, f):
        if hasattr(f, 'an'):
            return f.an
        succ = {}
        for b in f.order:
            last = f.blocks[b][-1]
            if last.op == 'br':
                s = list(last.a[1])
            elif last.op == 'switch':
                s = [last.a[2]] + [c[1] for c in last.a[3]]
            elif last.op == 'call' and last.a[3]:
                s = [last.a[3], last.a[4]]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        # blocks only reachable through unwinding are not executed
        entry = f.order[0]
        norm = {}
        for b in f.order:
            last = f.blocks[b][-1]
            norm[b] = [last.a[3]] if last.op == "call" and last.a[3] and not self.unwind else succ[b]
        seen, post = set(), []
        stack = [(entry, iter(norm[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(norm[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in norm[b]:
                preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in norm[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible control flow')
                    L = loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            st.extend(preds[x])
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for o in ls[i + 1:]:
                if l.header in o.blocks and o is not l:
                    l.parent = o
                    o.kids.append(l)
                    break
        f.an = (norm, preds, rpo, num, loops)
        cnt = {}
        for h in rpo:
            if h in loops:
                l = loops[h]
                k = l.parent
                cnt[k] = cnt.get(k, 0) + 1
                l.path = (k.path + '.' if k else '') + str(cnt[k])
        return f.an

    # ------------------------------------------------------------ execution
    def run(self, fname, args, st, clone=None):
        """-> [(state, return value)]"""
        f = self.m.fns[fname]
        if clone is not None:        # the loops of every place of execution have their own invariants
            f = self.clones.setdefault((clone, fname), copy.copy(f))
        self.f = f
        norm, preds, rpo, num, loops = self.analyse(f)
        self.env = {}
        for (nm, t, at), a in zip(f.params, args):
            self.env[nm] = a
        self.rets = []
        outs = self.region_exec(f, [b for b in rpo], f.order[0], None, {None: [(None, st)]})
        return self.rets

    def region_exec(self, f, blocks, entry, loop, incoming):
        """execute the blocks of one loop body (or the whole function), inner loops as units.
        -> edges leaving the region or returning to the header: [(from, to, state)]"""
        norm, preds, rpo, num, loops = f.an
        bset = set(blocks)
        inc = {b: [] for b in blocks}
        first = incoming[None]
        out = []
        done = set()
        def send(a, b, s):
            if s.dead():
                return
            if b not in bset or (b == entry and loop is not None):
                out.append((a, b, s))
            else:
                inc[b].append((a, s))
        order = sorted(blocks, key=lambda b: num[b])
        for b in order:
            if b in done:
                continue
            edges = first if b == entry else inc[b]
            if not edges:
                continue
            self.tick()
            inner = loops.get(b)
            if inner is not None and inner is not loop:
                for (x, y, s) in self.do_loop(f, inner, edges):
                    send(x, y, s)
                done |= inner.blocks
                continue
            if b == entry and loop is not None:
                st = edges[0][1]
                phivals = None
            else:
                st, sel = self.merge([s for _, s in edges])
                self.do_phis(f, b, edges, sel)
            for (to, s) in self.block(f, b, st):
                send(b, to, s)
        return out

    def do_phis(self, f, b, edges, sel):
        new = {}
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                break
            t, inc = ins.a
            vals = []
            for (pred, s), c in zip(edges, sel):
                vv = None
                for v, pb in inc:
                    if pb == pred:
                        vv = self.val(s, t, v)
                        break
                if vv is None:
                    raise Unsupported('phi edge')
                vals.append((c, vv))
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = self.ite(c, v, r)
            new[ins.dst] = r
        self.env.update(new)

    # ------------------------------------------------------------ loops
    def scoped(self, p):
        self.ctx.scoped.append(next(iter(p.t))[0])
        return p
    def fresh_like(self, name, v):
        if isinstance(v, I):
            p = self.scoped(fresh_int(name))
            lo, hi = 0, (1 << v.n) - 1
            if v.lo is not None and v.lo < 0:
                lo, hi = -(1 << (v.n - 1)), (1 << (v.n - 1)) - 1
            self.ctx.setrange(p, lo, hi)
            return I(p, v.n, lo, hi)
        if isinstance(v, Bo):
            return Bo(fresh_bool(name))
        if isinstance(v, R):
            if getattr(v, 'ip', None) is not None and name not in self.inexact:
                p = self.scoped(fresh_int(name))
                E = EXACT[v.w]
                self.ctx.setrange(p, -E, E)
                return R(None, v.w, p, -E, E)
            return R(fresh_real(name), v.w)
        if isinstance(v, Ptr):
            out = []
            for k, (g, r, p, o) in enumerate(v.opts):
                gg = g if len(v.opts) == 1 else fresh_bool(name + '.g')
                if r is None:
                    out.append((gg, r, p, o))
                else:
                    st = r.stride or 1
                    out.append((gg, r, p, P(o.t.get((), 0) % st) + self.scoped(fresh_int(name)) * st if r.stride else o))
            if len(out) > 1:
                self.ctx.add(z3.PbEq([(g[0], 1) for g in out], 1))
            return Ptr(out)
        if isinstance(v, Agg):
            return Agg([self.fresh_like(name, x) for x in v.v])
        if isinstance(v, Undef):
            return v
        if isinstance(v, Opaque):
            return v
        raise Unsupported('loop variable of kind %s' % type(v).__name__)

    def linear_step(self, head, back, born):
        """c if back = head + c with c unchanged by the loop"""
        def diff(x, y):
            d = y - x
            for m in d.t:
                for a in m:
                    for s in symbols(core._atoms[a]):
                        if s in born:
                            return None
                    if mentions_function(core._atoms[a], self.bornfns):
                        return None
            return d
        if isinstance(head, I) and isinstance(back, I):
            return diff(head.p, back.p)
        if isinstance(head, Ptr) and isinstance(back, Ptr) and len(head.opts) == len(back.opts) == 1 and head.opts[0][1] is back.opts[0][1]:
            if len(head.opts[0][2]) == len(back.opts[0][2]) and all(x.same(y) for x, y in zip(head.opts[0][2], back.opts[0][2])):
                return diff(head.opts[0][3], back.opts[0][3])
        return None

    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, I):
            return a.p.same(b.p)
        if isinstance(a, Bo):
            return a.b.eq(b.b)
        if isinstance(a, R):
            if a.ip is not None and b.ip is not None:
                return a.ip.same(b.ip)
            return a.z.eq(b.z)
        if isinstance(a, Ptr):
            return len(a.opts) == len(b.opts) and all(x[1] is y[1] and x[3].same(y[3]) and len(x[2]) == len(y[2]) and
                   all(p.same(q) for p, q in zip(x[2], y[2])) and B(x[0]).eq(B(y[0])) for x, y in zip(a.opts, b.opts))
        if isinstance(a, Agg):
            return all(self.same_val(x, y) for x, y in zip(a.v, b.v))
        return False

    def do_loop(self, f, L, edges):
        norm, preds, rpo, num, loops = f.an
        st0, sel = self.merge([s for _, s in edges])
        # initial values of the loop variables
        self.do_phis(f, L.header, edges, sel)
        phis = [i for i in f.blocks[L.header] if i.op == 'phi']
        init = {i.dst: self.env[i.dst] for i in phis}
        blocks = [b for b in rpo if b in L.blocks]
        steps = {}            # name or memory key -> step polynomial (linear) or None
        modified = set()
        samples = {}
        self.inexact = getattr(self, 'inexact', set())
        outer = list(self.outer)

        def head_state(cands):
            n = self.scoped(fresh_int('n'))
            self.ctx.add(n >= 0)
            h = {}
            for i in phis:
                nm = i.dst
                c = steps.get(nm)
                v0 = init[nm]
                if c is not None and isinstance(v0, I):
                    h[nm] = I(v0.p + c * n, v0.n)
                elif c is not None and isinstance(v0, Ptr):
                    h[nm] = self.padd(v0, c * n)
                else:
                    h[nm] = self.fresh_like(nm, v0)
            st = st0.copy()
            lits = []
            for k in modified:
                v0 = st.mem.get(k)
                c = steps.get(k)
                if k[0] == 'a':
                    reg, off = k[1], k[2]
                    if v0 is None:
                        v0 = region_init_for(self, k, samples.get(k))
                    b = Base(self.ctx, reg.name + '@' + L.path, v0.sort, v0.arity, getattr(v0, 'lo', None), getattr(v0, 'hi', None)) if isinstance(v0, Base) else self.newbase_like(reg, off, v0)
                    st.mem[k] = b
                elif k[0] == 'p':
                    raise Unsupported('pointer array modified in a loop')
                elif v0 is None:
                    v0 = self.cell_before(k, samples[k])
                    if isinstance(v0, Undef) or not hasattr(k[1], 'init') and k[2] != 'n':
                        st.mem[k] = self.fresh_like('cell%s' % k[2], samples[k])
                        continue
                    st.mem[k] = self.fresh_like('cell%s' % k[2], v0)
                elif c is not None and isinstance(v0, I):
                    st.mem[k] = I(v0.p + c * n, v0.n)
                elif c is not None and isinstance(v0, Ptr):
                    st.mem[k] = self.padd(v0, c * n)
                else:
                    st.mem[k] = self.fresh_like('cell%s' % k[2], v0)
            return n, h, st

        def one_pass(n, h, st):
            saved = dict(self.env)
            self.env.update(h)
            self.outer.append((L, n))
            try:
                ex = self.region_exec(f, blocks, L.header, L, {None: [(None, st.copy())]})
            finally:
                self.outer.pop()
            back = [(a, s) for a, b, s in ex if b == L.header]
            exits = [(a, b, s) for a, b, s in ex if b != L.header]
            bphi, bst = None, None
            if back:
                bst, bsel = self.merge([s for _, s in back])
                bphi = {}
                for i in phis:
                    t, inc = i.a
                    vals = []
                    for (pred, s), c in zip(back, bsel):
                        for v, pb in inc:
                            if pb == pred:
                                vals.append((c, self.val(s, t, v)))
                    r = vals[-1][1]
                    for c, v in reversed(vals[:-1]):
                        r = self.ite(c, v, r)
                    bphi[i.dst] = r
            return bphi, bst, exits, back

        # 1. what the loop changes, and which variables advance linearly
        scope = len(self.ctx.scoped)
        self.dry += 1
        nth, mark_throws = len(self.throws), len(self.rets)
        outer_icmps = getattr(self, 'icmps', [])
        try:
            for _ in range(12):
                k0 = next(core._fresh)
                n, h, st = head_state([])
                self.icmps = []
                n_dry, h_dry = n, h
                bphi, bst, exits, back = one_pass(n, h, st)
                del self.throws[nth:]
                del self.rets[mark_throws:]
                if not back:
                    break
                born = BornAfter(k0)
                self.bornfns = k0
                ch = False
                for i in phis:
                    if i.dst not in steps:
                        c = None if isinstance(init[i.dst], Undef) else self.linear_step(h[i.dst], bphi[i.dst], born)
                        steps[i.dst] = c
                        if c is not None:
                            ch = True
                        v0, v1 = init[i.dst], bphi[i.dst]
                    elif isinstance(init[i.dst], R) and h[i.dst].ip is not None and bphi[i.dst].ip is None:
                        self.inexact.add(i.dst)
                        ch = True
                    elif isinstance(init[i.dst], Ptr):
                        # alternatives that only appear in later iterations
                        extra = [o for o in bphi[i.dst].opts if not any(o[1] is q[1] for q in init[i.dst].opts)] if isinstance(bphi[i.dst], Ptr) else []
                        if extra:
                            init[i.dst] = Ptr(list(init[i.dst].opts) + [(FALSE, r, p, o) for _, r, p, o in extra])
                            ch = True
                for k in set(bst.mem) | set(st.mem):
                    a, b = st.mem.get(k), bst.mem.get(k)
                    if b is None or k in modified:
                        if k in modified and k not in steps and k[0] == 'c' and a is not None and b is not None:
                            steps[k] = self.linear_step(a, b, born)
                            if steps[k] is not None:
                                ch = True
                        if k in modified and isinstance(a, R) and isinstance(b, R) and a.ip is not None and b.ip is None and 'cell%s' % k[2] not in self.inexact:
                            self.inexact.add('cell%s' % k[2])
                            ch = True
                        continue
                    if a is None:
                        if k[0] == 'a' and getattr(k[1], 'arr0', {}).get(k[2]) is b:
                            continue          # only read
                        if k[0] == 'c' and (b is self.cell_before(k, b)):
                            continue
                        samples[k] = b
                        modified.add(k)
                        ch = True
                    elif not self.same_val(a, b):
                        samples[k] = b
                        modified.add(k)
                        ch = True
                if not ch:
                    break
            icmps = self.icmps
        finally:
            self.dry -= 1
            self.icmps = outer_icmps
        if self.dry:
            # structure only: the exits of an arbitrary iteration
            nn, h, st = head_state([])
            bphi, bst, exits, back = one_pass(nn, h, st)
            self.env.update({k: v for k, v in self.env.items()})
            return exits
        self.ctx.kill(scope)

        # 2. candidate invariants
        n, h, st = head_state([])
        viewh = View(self, L, n, h, st, outer, 'head')
        cands = self.generic_cands(L, n_dry, h_dry, icmps, steps, init)
        if self.candidates:
            v = View(self, L, n, h, st, outer, 'head')
            v.steps, v.init, v.modified = steps, init, modified
            cands += [c for c in self.candidates(v) if c is not None]
        if L.alive is not None:
            cands = [c for c in cands if c.name in L.alive]
        # established at entry
        def eval_(c, view):
            try:
                r = c.scalar(view)
            except NoCand:
                return None
            return r
        ok = []
        view0 = View(self, L, P(0), init, st0, outer, 'init')
        for c in cands:
            if c.scalar:
                g = eval_(c, view0)
                if g is not None and self.prove_each(st0, g, 1000 if c.generic else 6000):
                    ok.append(c)
                elif DEBUG and not c.name.startswith('counter'):
                    print('  loop %s: not initial: %s' % (L.path, c.name))
            else:
                if self.check_forall(c, view0, st0):
                    ok.append(c)
                elif DEBUG:
                    print('  loop %s: not initial: %s' % (L.path, c.name))
        cands = ok
        mark = len(self.active)
        obmark, thmark, retmark = len(self.obls), len(self.throws), len(self.rets)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported('invariants do not stabilise')
            scope = len(self.ctx.scoped)
            n, h, st = head_state(cands)
            view = View(self, L, n, h, st, outer, 'head')
            for c in cands:
                lit = fresh_bool('inv')
                c.lit = lit
                if c.scalar:
                    g = eval_(c, view)
                    if g is not None:
                        self.ctx.add(Implies(And(lit, st.cond()), g))
                else:
                    arr = st.mem.get(c.key)
                    if isinstance(arr, Base):
                        pcg = st.cond()
                        arr.facts.append(lambda idx, val, c=c, view=view, lit=lit, pcg=pcg: Implies(And(lit, pcg), c.forall(view, idx, val)))
                self.active.append(lit)
            bphi, bst, exits, back = one_pass(n, h, st)
            if not back:
                break
            viewb = View(self, L, n + 1, bphi, bst, outer, 'back')
            bad = []
            for generic in (True, False):
                for c in cands:
                    if c.generic != generic:
                        continue
                    if c.scalar:
                        g = eval_(c, viewb)
                        good = g is not None and self.prove_each(bst, g, 3000 if generic else 20000)
                        if good:
                            bst.pc.append(g)      # proved here: a lemma for the candidates that follow
                    else:
                        good = self.check_forall(c, viewb, bst)
                    if not good:
                        bad.append(c)
                        if DEBUG and not generic:
                            print('  loop %s: not preserved: %s' % (L.path, c.name))
                if bad:
                    break
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
            del self.active[mark:]
            del self.obls[obmark:]
            del self.throws[thmark:]
            del self.rets[retmark:]
            self.ctx.kill(scope)
        L.alive = set(c.name for c in cands)
        self.loopstats.append((self.f.name, L.path, rounds, sorted(L.alive)))
        self.obls.append(Obl('invariants of loop %s hold initially and are preserved: %s' % (L.path, '; '.join(sorted(c.name for c in cands)) or 'none needed'), None, TRUE, 'invariant'))
        return exits

    def newbase_like(self, reg, off, v0):
        lo = hi = None
        x = v0
        while not isinstance(x, Base) and hasattr(x, 'a'):
            x = x.a
        while isinstance(x, Ite):
            x = x.x
            while not isinstance(x, (Base, Ite)) and hasattr(x, 'a'):
                x = x.a
        if isinstance(x, (Base,)) or hasattr(x, 'lo'):
            lo, hi = getattr(x, 'lo', None), getattr(x, 'hi', None)
        return Base(self.ctx, reg.name + '@', v0.sort, v0.arity, lo, hi)

    def check_forall(self, c, view, st):
        arr = st.mem.get(c.key)
        if arr is None:
            arr = region_init_for(self, c.key, None)
            if arr is None:
                return False
        scope = len(self.ctx.scoped)
        idx = tuple(self.scoped(fresh_int('k')) for _ in range(arr.arity))
        try:
            val = arr.read(idx)
            g = c.forall(view, idx, val)
        except NoCand:
            return False
        def each(hyps, g):
            if z3.is_and(g):
                for x in g.children():
                    if not each(hyps, x):
                        return False
                    hyps = hyps + [x]
                return True
            if z3.is_or(g) and g.num_args() == 2 and z3.is_and(g.arg(1)):
                return all(each(hyps + [Not(g.arg(0))], x) for x in g.arg(1).children())
            t0 = time.time()
            r = self.ctx.check(hyps, g, 20000)
            if TRACE:
                print('    %.2fs %s r%d forall %s' % (time.time() - t0, r, self.ctx.rounds, str(g).replace('\n', ' ')[:300]))
            return r == 'proved'
        ok = each(self.hyps(st), B(g))
        self.ctx.kill(scope)
        return ok

    def generic_cands(self, L, n, h, icmps, steps, init):
        out = []
        seen = set()
        heads = {}
        def sub(p, view):
            # head symbols -> values at the view
            m = {}
            nid = next(iter(n.t))[0]
            m[nid] = view.n
            for nm, v in h.items():
                if isinstance(v, I) and steps.get(nm) is None:
                    if not isinstance(view.phis[nm], I):
                        raise NoCand()
                    m[next(iter(v.p.t))[0]] = view.phis[nm].p
            return subst(p, m)
        for a, b in icmps:
            for k, (x, y) in enumerate(((a, b), (b, a))):
                if not any(at in [q for q in next(iter(n.t))] for at in x.atoms()):
                    continue
                for d in (0, 1, -1):
                    for nm, f in (('<=', lambda x, y, d: x <= y + d), ('>=', lambda x, y, d: x >= y + d)):
                        key = ((x - y - d).key(), nm)
                        if key in seen:
                            continue
                        seen.add(key)
                        out.append(Cand('counter %s bound%s %d.%d' % (nm, '%+d' % d if d else '', len(seen), 0),
                            scalar=lambda view, x=x, y=y, d=d, f=f: f(sub(x, view), sub(y, view), d), generic=True))
        for i, (nm, v) in enumerate(h.items()):
            if isinstance(v, I) and steps.get(nm) is not None and not init[nm].p.is_const():
                pass
        return out

    # ------------------------------------------------------------ instructions
    def val(self, st, t, v):
        k = v[0]
        if k == 'local':
            r = self.env.get(v[1])
            if r is None:
                raise Unsupported('value %%%s' % v[1])
            return r
        if k == 'int':
            if t == ('int', 1):
                return Bo(B(bool(v[1] & 1)))
            return I(P(v[1]), t[1])
        if k == 'fp':
            return self.rconst(v[1], 32 if t[0] == 'float' else 64)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'global':
            return self.global_(v[1])
        if k == 'gepc':
            base = self.val(st, ('ptr',), v[2])
            if isinstance(base, Opaque):
                return base
            return self.gep(st, v[1], base, [(it, iv) for it, iv in v[3]])
        if k == 'agg':
            raise Unsupported('aggregate constant')
        raise Unsupported('constant %r' % (v,))
    def zero(self, t):
        t = self.m.resolve(t)
        if t[0] == 'int':
            return Bo(FALSE) if t[1] == 1 else I(P(0), t[1])
        if t[0] in ('float', 'double'):
            return self.rconst(0.0, 32 if t[0] == 'float' else 64)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'struct':
            return Agg([self.zero(x) for x in t[1]])
        if t[0] == 'array':
            return Agg([self.zero(t[2]) for _ in range(t[1])])
        raise Unsupported('zero of %r' % (t,))
    def global_(self, name):
        if name not in self.globals_:
            self.globals_[name] = make_global(self, name)
        return self.globals_[name]
    def gep(self, st, t, base, idx):
        off = P(0)
        cur = t
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                off = off + self.idx(st, it, iv) * self.m.size(cur)
                continue
            cur = self.m.resolve(cur)
            if cur[0] == 'struct':
                assert iv[0] == 'int'
                o, cur = self.m.field_off(cur, iv[1])
                off = off + o
            elif cur[0] == 'array':
                cur = cur[2]
                off = off + self.idx(st, it, iv) * self.m.size(cur)
            else:
                raise Unsupported('gep into %r' % (cur,))
        return self.padd(base, off)
    def idx(self, st, it, iv):
        v = self.val(st, it, iv)
        if isinstance(v, Undef):
            raise Unsupported('undefined index')
        return self.s(st, v)
    def where(self, ins):
        m = re.search(r'!dbg !(\d+)', ins.line)
        if m and hasattr(self.m, 'lines'):
            l = self.m.lines.get(int(m.group(1)))
            if l:
                return 'line %s' % l
        return ins.line.strip().split(', align')[0][:90]

    def block(self, f, b, st):
        for ins in f.blocks[b]:
            op = ins.op
            if op == 'phi':
                continue
            if op == 'br':
                c, to = ins.a
                if c is None:
                    return [(to[0], st)]
                cv = self.val(st, ('int', 1), c)
                if isinstance(cv, Undef):
                    cv = Bo(fresh_bool())
                cb = cv.b
                if to[0] == to[1]:
                    return [(to[0], st)]
                s1, s2 = st, st.copy()
                out = []
                if not z3.is_false(cb):
                    if z3.is_true(cb):
                        return [(to[0], s1)]
                    s1.assume(cb)
                    out.append((to[0], s1))
                s2.assume(Not(cb))
                out.append((to[1], s2))
                return out
            if op == 'switch':
                t, v, d, cases = ins.a
                x = self.val(st, t, v)
                out = []
                rest = st
                for cv, to in cases:
                    c = self.icmp(rest, 'eq', t, x, self.val(st, t, cv))
                    s = rest.copy()
                    s.assume(c)
                    if not z3.is_false(c):
                        out.append((to, s))
                    rest.assume(Not(c))
                out.append((d, rest))
                # several cases with one target
                tgt = {}
                for to, s in out:
                    tgt.setdefault(to, []).append(s)
                return [(to, ss[0] if len(ss) == 1 else self.merge(ss)[0]) for to, ss in tgt.items()]
            if op == 'ret':
                t, v = ins.a
                self.rets.append((st, None if v is None else self.val(st, t, v)))
                return []
            if op in ('unreachable', 'resume'):
                return []
            if op == 'call':
                self.pending = []           # states in which the call throws
                r = self.call(f, st, ins)
                pend = [(ins.a[4], s) for s in self.pending if not s.dead()] if self.unwind and ins.a[4] else []
                if r == 'stop':
                    return pend + ([(ins.a[4], st)] if self.unwind and ins.a[4] and not st.dead() else [])
                if ins.a[3]:
                    return pend + [(ins.a[3], st)]
                continue
            self.simple(st, ins)
        raise Unsupported('block without terminator')

    def simple(self, st, ins):
        op, a = ins.op, ins.a
        if op == 'bin':
            self.env[ins.dst] = self.binop(st, a, ins)
        elif op == 'icmp':
            c, t, x, y = a
            xv, yv = self.val(st, t, x), self.val(st, t, y)
            if isinstance(xv, I) and isinstance(yv, I):
                if self.dry and hasattr(self, 'icmps'):
                    self.icmps.append((self.demod(xv.p), self.demod(yv.p)))
            elif isinstance(xv, Ptr) and isinstance(yv, Ptr) and len(xv.opts) == len(yv.opts) == 1 and xv.opts[0][1] is yv.opts[0][1] is not None:
                if self.dry and hasattr(self, 'icmps'):
                    k = xv.opts[0][1].stride or 1
                    p, q = xv.opts[0][3].divexact(k), yv.opts[0][3].divexact(k)
                    if p is not None and q is not None:
                        self.icmps.append((self.demod(p), self.demod(q)))
            self.env[ins.dst] = Bo(self.icmp(st, c, t, xv, yv))
        elif op == 'fcmp':
            c, t, x, y = a
            xv, yv = self.val(st, t, x), self.val(st, t, y)
            self.env[ins.dst] = Bo(self.fcmp(c, xv, yv))
        elif op == 'cast':
            self.env[ins.dst] = self.cast(st, *a)
        elif op == 'load':
            t, p = a
            self.env[ins.dst] = self.load(st, t, self.val(st, ('ptr',), p), self.where(ins))
        elif op == 'store':
            t, v, p = a
            self.store(st, t, self.val(st, t, v), self.val(st, ('ptr',), p), self.where(ins))
        elif op == 'gep':
            t, base, idx = a
            bv = self.val(st, ('ptr',), base)
            self.env[ins.dst] = bv if isinstance(bv, Opaque) else self.gep(st, t, bv, idx)
        elif op == 'alloca':
            t, n = a
            rt = self.m.resolve(t)
            if n is not None and n[1] != ('int', 1):
                raise Unsupported('alloca with a count')
            if rt[0] == 'array':
                r = self.region(ins.dst, stride=self.m.size(rt[2]), size=rt[1])
            else:
                r = self.region(ins.dst)
            self.env[ins.dst] = ptr(r)
        elif op == 'select':
            c, t, x, y = a
            cv = self.val(st, ('int', 1), c)
            xv, yv = self.val(st, t, x), self.val(st, t, y)
            self.env[ins.dst] = self.ite(cv.b, xv, yv)
        elif op == 'freeze':
            v = self.val(st, *a)
            self.env[ins.dst] = self.undef(self.tykey(a[0])) if isinstance(v, Undef) else v
        elif op == 'extractvalue':
            t, v, idx = a
            x = self.val(st, t, v)
            for i in idx:
                if isinstance(x, Undef):
                    break
                if isinstance(x, Opaque):
                    x = x if i == 0 else I(self.scoped(fresh_int('selector')), 32)      # any exception type
                    break
                x = x.v[i]
            self.env[ins.dst] = x
        elif op == 'insertvalue':
            t, v, t2, v2, idx = a
            x = self.val(st, t, v)
            rt = self.m.resolve(t)
            if isinstance(x, Undef):
                x = Agg([UNDEF] * len(rt[1]))
            if len(idx) != 1:
                raise Unsupported('nested insertvalue')
            x = Agg(x.v)
            x.v[idx[0]] = self.val(st, t2, v2)
            self.env[ins.dst] = x
        elif op == 'fneg':
            v = self.val(st, *a)
            self.env[ins.dst] = R(None if v.ip is not None else -v.z, v.w, -v.ip if v.ip is not None else None,
                                  -v.hi if v.hi is not None else None, -v.lo if v.lo is not None else None)
        elif op == 'atomicrmw':
            k, t, p, v = a
            pv = self.val(st, ('ptr',), p)
            old = self.load(st, t, pv, self.where(ins))
            x = self.val(st, t, v)
            if k == 'add':
                new = I(old.p + x.p, old.n, *self.iadd(old, x))
            elif k == 'sub':
                new = I(old.p - x.p, old.n)
            elif k == 'xchg':
                new = x
            else:
                raise Unsupported('atomic ' + k)
            self.store(st, t, new, pv, self.where(ins))
            self.env[ins.dst] = old
        elif op in ('fence',):
            pass
        elif op == 'landingpad':
            self.env[ins.dst] = Opaque('exception')
        else:
            raise Unsupported('instruction ' + op)

    def iadd(self, a, b):
        lo = a.lo + b.lo if None not in (a.lo, b.lo) else None
        hi = a.hi + b.hi if None not in (a.hi, b.hi) else None
        return lo, hi

    def binop(self, st, a, ins):
        op, t, x, y, fl = a
        xv, yv = self.val(st, t, x), self.val(st, t, y)
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.rop(st, op, xv, yv, 32 if t[0] == 'float' else 64)
        if t == ('int', 1):
            if op in ('and',):
                return Bo(And(xv.b, yv.b))
            if op == 'or':
                return Bo(Or(xv.b, yv.b))
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(yv.b):
                    return Bo(Not(xv.b))
                return Bo(z3.Xor(xv.b, yv.b))
            raise Unsupported('i1 ' + op)
        n = t[1]
        if isinstance(xv, Opaque) or isinstance(yv, Opaque):
            # difference of two pointers as integers
            if isinstance(xv, Opaque) and isinstance(yv, Opaque) and op == 'sub' and isinstance(xv.tag, Ptr) and isinstance(yv.tag, Ptr):
                p, q = xv.tag, yv.tag
                # null pointers: empty vectors
                res = None
                for g1, r1, p1, o1 in p.opts:
                    for g2, r2, p2, o2 in q.opts:
                        if r1 is r2:
                            d = I(o1 - o2 if r1 is not None else P(0), n)
                            g = And(g1, g2)
                            res = d if res is None else self.ite(g, d, res)
                if res is None:
                    raise Unsupported('difference of pointers into different objects')
                return res
            return UNDEF
        if isinstance(xv, Undef) or isinstance(yv, Undef):
            return self.undef(('int', n))
        M = 1 << n
        if op == 'add':
            r = I(xv.p + yv.p, n, *self.iadd(xv, yv))
        elif op == 'sub':
            r = I(xv.p - yv.p, n, xv.lo - yv.hi if None not in (xv.lo, yv.hi) else None, xv.hi - yv.lo if None not in (xv.hi, yv.lo) else None)
        elif op == 'mul':
            lo = hi = None
            if None not in (xv.lo, xv.hi, yv.lo, yv.hi):
                c = [p * q for p in (xv.lo, xv.hi) for q in (yv.lo, yv.hi)]
                lo, hi = min(c), max(c)
            if len(xv.p.t) > 12 or len(yv.p.t) > 12:
                r = I(self.name(xv.p) * self.name(yv.p), n, lo, hi)
            else:
                r = I(xv.p * yv.p, n, lo, hi)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op == 'sdiv' and yv.p.is_const() and 'exact' in fl:
                k = self.s(st, yv).const_value()
                e = xv.p.divexact(k)
                if e is not None:
                    return I(e, n, -(-xv.lo // k) if xv.lo is not None else None, xv.hi // k if xv.hi is not None else None)
            if op[0] == 'u':
                d, e = self.u(st, xv), self.u(st, yv)
            else:
                d, e = self.s(st, xv), self.s(st, yv)
                elo = self.ctx.interval(e)[0]
                if (elo is None or elo < 1) and not (e is yv.p and yv.lo is not None and yv.lo >= 1):
                    if self.dry:
                        return self.undef(('int', n))
                    if not self.prove(st, e >= 1):
                        raise Unsupported('signed division by a possibly negative number')
                dlo = self.ctx.interval(d)[0]
                if not (dlo is not None and dlo >= 0) and not self.prove(st, d >= 0):
                    # truncating division
                    q, m = self.divmod(st, iteP(d < 0, -d, d), e)
                    q, m = iteP(d < 0, -q, q), iteP(d < 0, -m, m)
                    return I(q if op == 'sdiv' else m, n)
            self.oblige(st, e >= 1, 'no division by zero (%s)' % self.where(ins), 'arith')
            q, m = self.divmod(st, d, e)
            if op in ('udiv', 'sdiv'):
                return I(q, n, 0, xv.hi if xv.hi is not None and xv.lo is not None and xv.lo >= 0 else None)
            hi = None
            if e.is_const():
                hi = e.const_value() - 1
            return I(m, n, 0, hi if hi is not None else (xv.hi if xv.lo is not None and xv.lo >= 0 else None))
        elif op == 'shl':
            if not yv.p.is_const():
                raise Unsupported('shift by a variable')
            k = yv.p.const_value()
            r = I(xv.p * (1 << k), n, xv.lo << k if xv.lo is not None else None, xv.hi << k if xv.hi is not None else None)
        elif op in ('lshr', 'ashr'):
            if not yv.p.is_const():
                raise Unsupported('shift by a variable')
            k = yv.p.const_value()
            d = self.u(st, xv) if op == 'lshr' else self.s(st, xv)
            q, m = self.ctx.divmod(d, P(1 << k))
            return I(q, n)
        elif op in ('and', 'or', 'xor'):
            return self.bitop(st, op, xv, yv, n)
        else:
            raise Unsupported(op)
        if 'nsw' in fl and not self.dry and not (r.lo is not None and r.hi is not None and -(M // 2) <= r.lo and r.hi < M // 2):
            # signed overflow is undefined behaviour
            if op in ('add', 'sub', 'mul'):
                xs, ys = self.s(st, xv), self.s(st, yv)
                p = xs + ys if op == 'add' else xs - ys if op == 'sub' else xs * ys
                self.oblige(st, And(p >= -(M // 2), p < M // 2), 'no signed overflow (%s)' % self.where(ins), 'arith')
                r = I(p, n, r.lo if xs is xv.p and ys is yv.p else None, r.hi if xs is xv.p and ys is yv.p else None)
        return r
    def name(self, p):
        if len(p.t) <= 1:
            return p
        v = fresh_int('d')
        self.ctx.add(v.z() == p.z())
        return v
    def bitop(self, st, op, xv, yv, n):
        M = 1 << n
        x, y = self.u(st, xv), self.u(st, yv)
        if x.is_const():
            x, y = y, x
        if x.is_const() and y.is_const():
            c, d = x.const_value(), y.const_value()
            return I(P({'and': c & d, 'or': c | d, 'xor': c ^ d}[op]), n)
        if y.is_const():
            c = y.const_value()
            if op == 'and':
                if c == 0:
                    return I(P(0), n)
                if c & (c + 1) == 0:
                    q, m = self.ctx.divmod(x, P(c + 1))
                    return I(m, n, 0, c)
                low = c & -c
                if (M - 1) ^ c == low - 1:       # clears low bits
                    q, m = self.ctx.divmod(x, P(low))
                    return I(x - m, n)
            if op == 'xor' and c == M - 1:
                return I(-x - 1 + M, n, 0, M - 1)
            if op in ('or', 'xor') and c == 0:
                return I(x, n)
        if op in ('or', 'xor'):              # operands without common bits
            for a, b in ((x, y), (y, x)):
                g = 0
                for cf in b.t.values():
                    g = math.gcd(g, cf)
                lo, hi = self.ctx.interval(a)
                if g and lo is not None and lo >= 0 and hi < (g & -g):
                    return I(a + b, n, 0, M - 1)
        if x.key() > y.key():
            x, y = y, x
        fn = z3.Function('b%s%d' % (op, n), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = P(fn(x.z(), y.z()))
        add = self.ctx.add
        if op == 'and':
            add(And(r >= 0, r <= x, r <= y))
            add(Implies(x.eq(0), r.eq(0)))
            add(Implies(y.eq(0), r.eq(0)))
            for k in (8, 16, 32, 64):
                add(Implies(And(y.eq((1 << k) - 1), x < (1 << k)), r.eq(x)))
                add(Implies(And(x.eq((1 << k) - 1), y < (1 << k)), r.eq(y)))
        elif op == 'or':
            add(And(r >= x, r >= y, r <= x + y, r < M))
            add(Implies(x.eq(0), r.eq(y)))
            add(Implies(y.eq(0), r.eq(x)))
        else:
            add(And(r >= 0, r < M))
            add(Implies(x.eq(y), r.eq(0)))
            add(Implies(x.eq(0), r.eq(y)))
            add(Implies(y.eq(0), r.eq(x)))
        hi = None
        if op == 'and':
            c = [v.hi for v in (xv, yv) if v.hi is not None and v.lo is not None and v.lo >= 0]
            hi = min(c) if c else M - 1
        return I(r, n, 0, hi if hi is not None else M - 1)

    def icmp(self, st, c, t, x, y):
        if t[0] == 'ptr' or isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Undef) or isinstance(y, Undef):
                return fresh_bool()
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                x2 = x.tag if isinstance(x, Opaque) else x
                if isinstance(x, Opaque) and isinstance(y, Ptr) and all(o[1] is None for o in y.opts) or isinstance(y, Opaque) and isinstance(x, Ptr) and all(o[1] is None for o in x.opts):
                    if c == 'eq':
                        return FALSE
                    if c == 'ne':
                        return TRUE
                raise Unsupported('comparison of opaque pointers')
            rs = []
            for g1, r1, p1, o1 in x.opts:
                for g2, r2, p2, o2 in y.opts:
                    g = And(g1, g2)
                    if r1 is r2 and r1 is None:
                        v = {'eq': TRUE, 'ne': FALSE, 'ult': FALSE, 'ugt': FALSE, 'ule': TRUE, 'uge': TRUE}[c]
                    elif r1 is r2:
                        same = And(*[a.eq(b) for a, b in zip(p1, p2)])
                        if not z3.is_true(same) and c not in ('eq', 'ne'):
                            raise Unsupported('ordering of pointers')
                        v = {'eq': lambda: And(same, o1.eq(o2)), 'ne': lambda: Not(And(same, o1.eq(o2))), 'ult': lambda: o1 < o2, 'ugt': lambda: o1 > o2,
                             'ule': lambda: o1 <= o2, 'uge': lambda: o1 >= o2}[c]()
                    elif c in ('eq', 'ne'):
                        v = FALSE if c == 'eq' else TRUE
                    elif r1 is None or r2 is None:
                        v = {'ult': B(r1 is None), 'ule': B(r1 is None), 'ugt': B(r2 is None), 'uge': B(r2 is None)}[c]
                    else:
                        raise Unsupported('ordering of unrelated pointers')
                    rs.append(And(g, v))
            return Or(*rs)
        if isinstance(x, Undef) or isinstance(y, Undef):
            return fresh_bool('undef')
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return fresh_bool('opaque')
        if isinstance(x, Bo):
            if not isinstance(y, Bo):
                raise Unsupported('icmp')
            if c == 'eq':
                return y.b if z3.is_true(x.b) else x.b if z3.is_true(y.b) else Not(x.b) if z3.is_false(y.b) else x.b == y.b
            if c == 'ne':
                return Not(x.b) if z3.is_true(y.b) else x.b if z3.is_false(y.b) else x.b != y.b
            raise Unsupported('icmp i1 ' + c)
        if c in ('eq', 'ne'):
            d = x.p - y.p
            if d.is_const() and d.const_value() % (1 << x.n) == 0:
                r = TRUE
            else:
                # prefer a common view
                if None not in (x.lo, x.hi, y.lo, y.hi) and min(x.lo, y.lo) >= -(1 << (x.n - 1)) and max(x.hi, y.hi) < (1 << (x.n - 1)):
                    a, b = x.p, y.p
                else:
                    a, b = self.u(st, x), self.u(st, y)
                r = self.cmp('eq', a, b)
            return r if c == 'eq' else Not(r)
        if c[0] == 'u':
            a, b = self.u(st, x), self.u(st, y)
        else:
            a, b = self.s(st, x), self.s(st, y)
        return self.cmp(c[1:], a, b)
    def cmp(self, k, a, b):
        """comparison, decided by the known ranges where they suffice"""
        lo, hi = self.ctx.interval(a - b)
        if lo is not None:
            yes = {'lt': hi < 0, 'le': hi <= 0, 'gt': lo > 0, 'ge': lo >= 0, 'eq': lo == hi == 0, 'ne': lo > 0 or hi < 0}[k]
            no = {'lt': lo >= 0, 'le': lo > 0, 'gt': hi <= 0, 'ge': hi < 0, 'eq': lo > 0 or hi < 0, 'ne': lo == hi == 0}[k]
            if yes or no:
                return B(yes)
        return {'eq': lambda: a.eq(b), 'ne': lambda: Not(a.eq(b)), 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()
    def fcmp(self, c, x, y):
        if c in ('ord',):
            return TRUE
        if c in ('uno', 'false'):
            return FALSE
        k = c[1:]
        if x.ip is not None and y.ip is not None:
            return self.cmp(k, x.ip, y.ip)
        a, b = x.z, y.z
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
    def cast(self, st, op, t, a, t2):
        v = self.val(st, t, a)
        if isinstance(v, Undef):
            return self.undef(self.tykey(t2)) if t2[0] != 'ptr' else v
        if op == 'zext':
            if isinstance(v, Bo):
                return I(iteP(v.b, 1, 0), t2[1], 0, 1)
            return I(self.u(st, v), t2[1], v.lo if v.lo is not None and v.lo >= 0 else 0, min(v.hi, (1 << v.n) - 1) if v.hi is not None and v.lo is not None and v.lo >= 0 else (1 << v.n) - 1)
        if op == 'sext':
            if isinstance(v, Bo):
                return I(iteP(v.b, -1, 0), t2[1], -1, 0)
            H = 1 << (v.n - 1)
            p = self.s(st, v)
            if p is v.p and v.lo is not None and v.hi is not None:
                return I(p, t2[1], max(v.lo, -H), min(v.hi, H - 1))
            return I(p, t2[1], -H, H - 1)
        if op == 'trunc':
            if isinstance(v, Opaque):
                raise Unsupported('truncated pointer')
            if t2[1] == 1:
                q, m = self.ctx.divmod(self.u(st, v), P(2))
                return Bo(m.eq(1))
            M = 1 << t2[1]
            p = Poly({m: c % M if c % M < M // 2 else c % M - M for m, c in v.p.t.items() if c % M})
            if not p.same(v.p):
                return self.ranged(p, t2[1])
            return I(v.p, t2[1], v.lo, v.hi)
        if op in ('uitofp', 'sitofp'):
            w = 32 if t2[0] == 'float' else 64
            if isinstance(v, Bo):
                return R(None, w, iteP(v.b, 1, 0), 0, 1)
            p = self.u(st, v) if op == 'uitofp' else self.s(st, v)
            lo, hi = (0, (1 << v.n) - 1) if op == 'uitofp' else (-(1 << (v.n - 1)), (1 << (v.n - 1)) - 1)
            if p is v.p and v.lo is not None:
                lo = max(lo, v.lo)
            if p is v.p and v.hi is not None:
                hi = min(hi, v.hi)
            return self.rint(st, p, lo, hi, w)
        if op == 'fpext':
            return R(v.z_, 64, v.ip, v.lo, v.hi, v.sq)
        if op == 'fptrunc':
            if v.ip is not None:
                return self.rint(st, v.ip, v.lo, v.hi, 32)
            return R(self.round_(v.z, 32), 32)
        if op in ('fptoui', 'fptosi'):
            n = t2[1]
            if v.ip is not None:
                # out of range: undefined behaviour
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
                if not self.dry and not (v.lo is not None and v.hi is not None and lo <= v.lo and v.hi <= hi):
                    self.oblige(st, And(v.ip >= lo, v.ip <= hi), 'the number converted to an integer is in range', 'arith')
                return I(v.ip, n, max(lo, v.lo) if v.lo is not None else lo, min(hi, v.hi) if v.hi is not None else hi)
            return self.fptoi(v, n, op == 'fptosi')
        if op == 'ptrtoint':
            return Opaque(v)
        if op == 'inttoptr':
            if isinstance(v, Opaque) and isinstance(v.tag, Ptr):
                return v.tag
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if t[0] == t2[0]:
                return v
        raise Unsupported('cast ' + op)
    def fptoi(self, v, n, signed):
        """conversion of a floating-point number to an integer type: truncation in range, otherwise
        some unspecified value that depends only on the number"""
        fn = z3.Function('%s%d' % ('fptosi' if signed else 'fptoui', n), z3.RealSort(), z3.IntSort())
        r = P(fn(v.z))
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        self.ctx.add(And(r >= lo, r <= hi))
        rz = z3.ToReal(r.z())
        self.ctx.add(Implies(And(v.z >= 0, v.z < hi + 1), And(rz <= v.z, v.z < rz + 1)))
        self.ctx.add(Implies(And(v.z < 0, v.z > lo - 1), And(rz >= v.z, v.z > rz - 1)))
        return I(r, n, lo, hi)

    # ------------------------------------------------------------ calls
    def call(self, f, st, ins):
        rt, callee, args, nt, ut = ins.a
        if callee[0] != '@':
            return self.indirect(f, st, ins)
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, ins)
        d = self.dem.get(name, name)
        if re.match(r'(pow|sqrt|ceil|floor|round|trunc|fabs)f?$', name):
            self.env[ins.dst] = self.fpfun(st, name.rstrip('f') if name not in ('powf',) and name.endswith('f') and name != 'f' else name.replace('powf', 'pow'), [self.val(st, t, v) for t, v, at in args])
            return None
        for rx, fn in self.handlers:
            if rx.search(d):
                av = [self.val(st, t, v) for t, v, at in args]
                r = fn(self, st, d, av, ins)
                if isinstance(r, str) and r == 'stop':
                    return 'stop'
                if ins.dst is not None:
                    self.env[ins.dst] = r if r is not None else UNDEF
                return None
        raise Unsupported('call of %s' % d[:160])
    def indirect(self, f, st, ins):
        """a call through a function pointer: every function it may point to is executed in place"""
        rt, callee, args, nt, ut = ins.a
        p = self.env.get(callee[1:])
        if not isinstance(p, Ptr):
            raise Unsupported('indirect call')
        av = [self.val(st, t, v) for t, v, at in args]
        outs = []
        for g, reg, par, off in p.opts:
            if z3.is_false(g):
                continue
            name = getattr(reg, 'fn', None)
            if name is None or name not in self.m.fns:
                raise Unsupported('indirect call')
            s = st.copy()
            s.assume(g)
            if s.dead():
                continue
            saved = (self.f, self.env, self.rets)
            try:
                outs += [r for r in self.run(name, av, s, id(ins)) if not r[0].dead()]
            finally:
                self.f, self.env, self.rets = saved
        if not outs:
            return 'stop'
        m, sel = self.merge([s for s, v in outs])
        st.mem, st.pc = m.mem, m.pc
        if ins.dst is not None:
            v = outs[-1][1]
            for c, (s, x) in reversed(list(zip(sel, outs))[:-1]):
                v = self.ite(c, x, v)
            self.env[ins.dst] = v
        return None
    def intrinsic(self, st, name, args, ins):
        av = lambda k: self.val(st, args[k][0], args[k][1])
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|prefetch|stack)', name):
            return None
        if name.startswith('llvm.expect') or name.startswith('llvm.ssa.copy'):
            self.env[ins.dst] = av(0)
            return None
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            a, b = av(0), av(1)
            k = m.group(1)
            x, y = (self.u(st, a), self.u(st, b)) if k[0] == 'u' else (self.s(st, a), self.s(st, b))
            c = x <= y
            self.env[ins.dst] = I(iteP(c, x, y) if 'min' in k else iteP(c, y, x), a.n)
            return None
        if re.match(r'llvm\.memcpy|llvm\.memmove', name):
            self.memcpy(st, av(0), av(1), av(2), ins)
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, av(0), av(1), av(2), ins)
            return None
        m = re.match(r'llvm\.(fabs|sqrt|ceil|floor|round|trunc|rint|nearbyint|fmuladd|pow|powi)\.', name)
        if m:
            self.env[ins.dst] = self.fpfun(st, m.group(1), [av(k) for k in range(len(args))])
            return None
        if name.startswith('llvm.eh.typeid.for'):
            self.env[ins.dst] = I(self.scoped(fresh_int('typeid')), 32)
            return None
        if name.startswith('llvm.trap'):
            return 'stop'
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            a, b = av(0), av(1)
            n = int(m.group(3))
            x, y = (self.s(st, a), self.s(st, b)) if m.group(1) == 's' else (self.u(st, a), self.u(st, b))
            p = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == 's' else (0, (1 << n) - 1)
            over = FALSE if self.within(st, I(p, n), lo, hi) else Not(And(p >= lo, p <= hi))
            self.env[ins.dst] = Agg([I(p, n), Bo(over)])
            return None
        raise Unsupported('intrinsic ' + name)
    def fpfun(self, st, k, a):
        x = a[0]
        w = x.w
        if k == 'pow':
            if a[1].ip is not None and a[1].ip.is_const() and a[1].ip.const_value() == 2:
                return self.rop(st, 'fmul', x, x, w)
            raise Unsupported('pow')
        if k == 'sqrt':
            if x.ip is not None:
                self.trusted.add('sqrt is correctly rounded (IEEE 754)')
                z = rsqrt(x.z)
                self.ctx.add(Implies(x.ip >= 0, z >= 0))
                return R(z, w, None, None, None, sq=(x.ip, x.lo, x.hi))
            return R(self.round_(rsqrt(x.z), w), w)
        if k in ('ceil', 'floor', 'round', 'trunc'):
            if x.ip is not None:
                return x
            if x.sq is not None and k == 'ceil':
                # ceil of the correctly rounded square root of an exact integer below 2^52
                c = P(z3.Function('ceilsqrt', z3.IntSort(), z3.IntSort())(x.sq[0].z()))
                m, lo, hi = x.sq
                self.ctx.add(Implies(m >= 0, And(c >= 0, c * c >= m, Or(c.eq(0), (c - 1) * (c - 1) < m))))
                self.ctx.add(Implies(And(m >= 0), c <= m))
                if lo is None or lo < 0 or hi is None or hi >= 1 << 52:
                    self.oblige(st, And(m >= 0, m < (1 << 52)), 'square root of an exactly represented non-negative integer', 'arith')
                return R(None, w, c, 0, 1 << 27)
            if x.frac is not None:
                p, d = x.frac
                lo, hi = self.ctx.interval(p)
                if lo is not None and lo >= 0:
                    q = self.ctx.divmod(p + {'ceil': d - 1, 'round': d // 2}.get(k, 0), P(d))[0]
                    return R(None, w, q, lo // d, hi // d + 1)
            r = P(z3.Function('r' + k, z3.RealSort(), z3.IntSort())(x.z))
            rz = z3.ToReal(r.z())
            if k == 'ceil':
                self.ctx.add(And(rz >= x.z, rz < x.z + 1))
            elif k == 'floor':
                self.ctx.add(And(rz <= x.z, rz > x.z - 1))
            elif k == 'trunc':
                self.ctx.add(z3.If(x.z >= 0, And(rz <= x.z, rz > x.z - 1), And(rz >= x.z, rz < x.z + 1)))
            else:       # half away from zero
                h = z3.RealVal('1/2')
                self.ctx.add(z3.If(x.z >= 0, And(rz <= x.z + h, rz > x.z - h), And(rz >= x.z - h, rz < x.z + h)))
            return R(None, w, r)
        if k == 'fabs':
            if x.ip is not None:
                return R(None, w, iteP(x.ip >= 0, x.ip, -x.ip))
            return R(z3.If(x.z >= 0, x.z, -x.z), w)
        if k == 'fmuladd':
            return self.rop(st, 'fadd', self.rop(st, 'fmul', x, a[1], w), a[2], w)
        raise Unsupported(k)
    def memcpy(self, st, d, s, n, ins):
        if len(d.opts) == len(s.opts) == 1 and None not in (d.opts[0][1], s.opts[0][1]) and d.opts[0][1].stride and s.opts[0][1].stride and 'lazy' not in (d.opts[0][1].stride, s.opts[0][1].stride):
            return self.memcpy_array(st, d.opts[0], s.opts[0], self.simp(st, self.u(st, n)))
        if not n.p.is_const() or len(d.opts) != 1 or len(s.opts) != 1:
            raise Unsupported('memcpy of variable length')
        n = n.p.const_value()
        (g, dr, dp, do), (g2, sr, sp, so) = d.opts[0], s.opts[0]
        if dr is None or sr is None:
            raise Unsupported('memcpy null')
        if dr.stride is None and sr.stride is None and do.is_const() and so.is_const():
            a, b = do.const_value(), so.const_value()
            ks = sorted(k[2] for k in st.mem if k[0] == 'c' and k[1] is sr and b <= k[2] < b + n)
            init = getattr(sr, 'init', None)
            if init:
                for o, ty in getattr(sr, 'layout', []):
                    if b <= o < b + n and o not in ks:
                        self.cell_init(st, sr, o, ty)
                        ks.append(o)
            for k in [k for k in st.mem if k[0] == 'c' and k[1] is dr and a <= k[2] < a + n]:
                del st.mem[k]
            for o in ks:
                st.mem[('c', dr, o - b + a)] = st.mem[('c', sr, o)]
            return
        if dr.stride is None and do.is_const() and sr.stride and sr.stride != 'lazy' and getattr(sr, 'fields', None):
            # a part of an element into a record, field by field
            a = do.const_value()
            i, f = self.place(st, sr, sp, so, n, 'memcpy')
            self.bounds(st, g2, sr, sp, i, 'memcpy', 'load')
            for k in [k for k in st.mem if k[0] == 'c' and k[1] is dr and a <= k[2] < a + n]:
                del st.mem[k]
            for o, ty in sr.fields.items():
                if f <= o < f + n:
                    st.mem[('c', dr, a + o - f)] = self.wrap(sr, o, ty, self.array(st, sr, o, ty).read(tuple(sp) + (i,)))
            return
        raise Unsupported('memcpy between %s and %s' % (dr.name, sr.name))
    def memcpy_array(self, st, d, s, n):
        (g, dr, dp, do), (g2, sr, sp, so) = d, s
        if dr.stride != sr.stride or getattr(dr, 'vec', None) or getattr(sr, 'vec', None):
            raise Unsupported('memcpy between %s and %s' % (dr.name, sr.name))
        k = n.divexact(dr.stride)
        if k is None and self.dry:
            k = self.demod(n).divexact(dr.stride)
        if k is None:
            raise Unsupported('memcpy of %r bytes of %s' % (n, dr.name))
        (di, df), (si, sf) = self.place(st, dr, dp, do, dr.stride, 'memcpy'), self.place(st, sr, sp, so, sr.stride, 'memcpy')
        fields = {o: ty for r in (dr, sr) for o, ty in r.fields.items()} if hasattr(dr, 'fields') or hasattr(sr, 'fields') else {}
        if df or sf or not fields:
            raise Unsupported('memcpy between %s and %s' % (dr.name, sr.name))
        inside = lambda r, p, i: Implies(k >= 1, And(i >= 0, i + k <= self.size_now(st, r, p)))
        self.oblige(st, inside(sr, sp, si), 'the copied range lies inside ' + sr.name.split('#')[0], 'memory')
        self.oblige(st, inside(dr, dp, di), 'the copy lies inside ' + dr.name.split('#')[0], 'memory')
        if dr.readonly:
            self.oblige(st, FALSE, 'nothing is written to ' + dr.name, 'frame')
        for f, ty in fields.items():
            a, b = self.array(st, dr, f, ty), self.array(st, sr, f, ty)
            st.mem[('a', dr, f)] = Fill(a, dp, di, di + k, lambda idx, b=b: b.read(tuple(sp) + (P(idx[len(dp)]) - di + si,)))
    def memset(self, st, d, v, n, ins):
        c = v.p.const_value() if isinstance(v, I) and v.p.is_const() else None
        if len(d.opts) != 1:
            raise Unsupported('memset')
        g, dr, dp, do = d.opts[0]
        if dr.stride is None:
            if c != 0 or not n.p.is_const() or not do.is_const():
                raise Unsupported('memset of a record')
            a, n = do.const_value(), n.p.const_value()
            dr.zeroed = getattr(dr, 'zeroed', []) + [(a, a + n)]
            for k in [k for k in st.mem if k[0] == 'c' and k[1] is dr and a <= k[2] < a + n]:
                del st.mem[k]
            old = getattr(dr, 'init', None)
            dr.init = lambda o, ty: zero_of(ty) if any(x <= o < y for x, y in dr.zeroed) else (old(o, ty) if old else None)
            return
        if dr.stride == 'lazy':
            if c != 0 or not do.same(0) or not (n.p.same(dr.bytes) or self.simp(st, self.u(st, n)).same(dr.bytes)):
                raise Unsupported('memset of part of untyped storage')
            dr.zero = True
            return
        cnt = n.p.divexact(dr.stride)
        start = do.divexact(dr.stride)
        if cnt is None or start is None or c not in (0,):
            raise Unsupported('memset')
        self.oblige(st, And(start >= 0, cnt >= 0, start + cnt <= dr.size_at(dp)), 'memset inside %s' % dr.name, 'memory')
        for f, ty in getattr(dr, 'fields', {0: ('int', 8 * dr.stride)}).items():
            a = self.array(st, dr, f, ty)
            st.mem[('a', dr, f)] = Fill(a, dp, start, start + cnt, lambda idx: P(0) if a.sort == 'int' else z3.RealVal(0))

def size_array(ex, st, D):
    a = st.mem.get(('a', D, 'n'))
    if a is None:
        a = getattr(D, 'size0', None)
        if a is None:
            a = D.size0 = Base(ex.ctx, D.name + '.size', 'int', D.lead, 0, 1 << 60)
            if not hasattr(D, 'arr0'):
                D.arr0 = {}
            D.arr0['n'] = a
        st.mem[('a', D, 'n')] = a
    return a

def dynsize(ex, st, D, par):
    """number of elements of the vector whose data region is D"""
    if D.lead == 0:
        v = st.mem.get(('c', D, 'n'))
        if v is None:
            if not hasattr(D, 'size0'):
                p = fresh_int(D.name + '.size')
                ex.ctx.add(And(p >= 0, p < (1 << 60)))
                D.size0 = I(p, 64, 0, 1 << 60)
            v = st.mem[('c', D, 'n')] = D.size0
        return v.p
    return P(size_array(ex, st, D).read(tuple(par)))

class NoCand(Exception):
    pass

class BornAfter:
    def __init__(self, k):
        self.k = k
    def __contains__(self, sid):
        a = core._atoms.get(sid)
        if a is None:
            return True
        n = a.decl().name()
        if n.startswith('m!'):
            return False
        try:
            return int(n.rsplit('!', 1)[1]) >= self.k
        except (IndexError, ValueError):
            return False

def mentions_function(t, k):
    """does the term apply a function created after k"""
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x):
            if x.num_args():
                n = x.decl().name()
                if '!' in n:
                    try:
                        if int(n.rsplit('!', 1)[1]) >= k:
                            return True
                    except ValueError:
                        pass
                stack.extend(x.children())
    return False

def subst(p, m):
    r = P(0)
    for mono, c in p.t.items():
        x = P(c)
        for a in mono:
            if a in m:
                x = x * m[a]
            else:
                at = core._atoms[a]
                if at.num_args() if z3.is_app(at) else False:
                    if symbols(at) & set(m):
                        raise NoCand()
                x = x * Poly({(a,): 1})
        r = r + x
    return r

def zero_of(ty):
    if ty[0] == 'int':
        return I(P(0), ty[1]) if ty[1] > 1 else Bo(FALSE)
    if ty[0] == 'real':
        return R(None, ty[1], P(0), 0, 0)
    return NULL

class Slice0:
    """an array of zeros"""
    __slots__ = ('sort', 'arity')
    def __init__(self, a):
        self.sort, self.arity = a.sort, a.arity
    def read(self, idx):
        return P(0) if self.sort == 'int' else z3.RealVal(0)

def region_init(ex, region, off, ty):
    a = getattr(region, 'arr0', None)
    if a is None:
        a = region.arr0 = {}
    if off not in a:
        fld = region.sorts.get(off)
        if getattr(region, 'zero', False):
            a[off] = Slice0(ex.newbase(region, off, ty))
        elif fld and fld[0] == 'realint':
            a[off] = Base(ex.ctx, region.name + '.%d' % off, 'int', region.lead + 1, fld[1], fld[2])
        else:
            a[off] = ex.newbase(region, off, ty)
        if not hasattr(region, 'fields'):
            region.fields = {}
        region.fields[off] = ty
    return a[off]

def region_init_for(ex, key, sample):
    reg, off = key[1], key[2]
    a = getattr(reg, 'arr0', {})
    if off in a:
        return a[off]
    if sample is None:
        return None
    x = sample
    lo = hi = None
    if isinstance(x, Base):
        lo, hi = x.lo, x.hi
    b = Base(ex.ctx, reg.name + '.0', sample.sort, sample.arity, lo, hi)
    reg.arr0 = a
    a[off] = b
    return b

def make_global(ex, name):
    if name in ex.m.fns:
        r = ex.region('function ' + name)
        r.fn = name
        return ptr(r)
    l = ex.m.globals.get(name)
    if l:
        m = re.search(r'(?:constant|global) (.*)$', l)
        if m and 'constant' in l:
            try:
                p = irparse.P(irparse.tokenize(m.group(1)))
                t = p.type()
                rt = ex.m.resolve(t)
                vals = const_init(ex, p, t)
                if vals is not None:
                    r = ex.region('global ' + name)
                    for o, ty, v in flatten(ex, t, vals):
                        ex.initial.setdefault(('c', r, o), v)
                    return ptr(r)
            except (irparse.Unsupported, Unsupported, AssertionError):
                pass
    return Opaque('global ' + name)

def const_init(ex, p, t):
    rt = ex.m.resolve(t)
    if rt[0] == 'int':
        v = p.next()
        if v in ('true', 'false'):
            return int(v == 'true')
        return int(v)
    if rt[0] == 'struct':
        if p.peek() == 'zeroinitializer':
            p.next()
            return [0] * len(rt[1])
        p.expect('{')
        out = []
        while True:
            ft = p.type()
            out.append(const_init(ex, p, ft))
            if p.eat('}'):
                return out
            p.expect(',')
    raise Unsupported('global initialiser')

def flatten(ex, t, v, off=0):
    rt = ex.m.resolve(t)
    if rt[0] == 'int':
        yield off, ('int', rt[1]), I(P(v), rt[1])
        return
    for k, e in enumerate(rt[1]):
        o, ft = ex.m.field_off(rt, k)
        yield from flatten(ex, ft, v[k], off + o)

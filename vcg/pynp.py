"""Trusted contracts of numpy, on the values of pyexec.py."""
import z3
from core import Unsupported, And, Or, Not, Implies, TRUE, FALSE
from pyvc import *
import pyexec as X

SQRT = z3.Function('sqrt', REAL, REAL)
BAND = z3.Function('bit_and', INT, INT, INT)
MAXV = z3.Int('dtype_max')

class Log2:
    def __init__(self, x, isint=False):
        self.x, self.isint = x, isint

class Numpy:
    def __init__(self, ex):
        self.ex, self.th = ex, ex.th
        self.quiet = 0
        self.th.facts['sqrt'] = [lambda x: SQRT(x) >= 0]
    # ---------------- helpers
    def snap(self, v):
        return self.ex.snap(v)
    def prod(self, xs):
        r = z3.IntVal(1)
        for x in xs:
            r = r * Z(x)
        return z3.simplify(r)
    def nest(self, vs, dims, guard, val):
        val = Z(val)
        zero = z3.RealVal(0) if val.sort() == REAL else z3.IntVal(0)
        t = ite(guard, val, zero)
        for i in range(len(dims) - 1, -1, -1):
            d = dims[i]
            d = Z(d(*vs[:i])) if callable(d) else d
            t = self.th.sum_of(d, vs[i], t)
        return t
    def bagsum(self, b, f):
        """sum of mult * f(elem, vars)"""
        vs = b.vars()
        m = Z(b.mult(*vs))
        x = Z(f(vs))
        if x.sort() == BOOL:
            t = ite(x, m, z3.IntVal(0))
        else:
            t = (real(m) if x.sort() == REAL else m) * x
            if z3.is_int_value(m) and m.as_long() == 1:
                t = x
        return self.nest(vs, [b.dim(i, vs) for i in range(len(vs))], TRUE, t)
    def count(self, b, j):
        return self.bagsum(b, lambda vs: Z(b.elem(*vs)) == j)
    def member(self, b, j):
        c = self.count(b, j)
        # ite(g, 1, 0) > 0  is  g
        s = z3.simplify(c > 0)
        return s
    def length(self, v):
        c = self.snap(v)
        if isinstance(c, tuple):
            return len(c)
        if isinstance(c, str):
            return len(c)
        if isinstance(c, X.Bag):
            return self.bagsum(c, lambda vs: z3.IntVal(1))
        if isinstance(c, (X.D, X.OA)):
            return c.shape[0]
        if isinstance(c, X.Rows):
            return self.bagsum(c.bag, lambda vs: z3.IntVal(1))
        if isinstance(c, (X.ListC, X.SetC)):
            if isinstance(c, X.SetC):
                return SetLen(c.segs)
            if c.base is not None:
                raise Unsupported('length of a list that a loop extends')
            r = 0
            for s in c.segs:
                t = self.nest(s.vs, s.dims, Z(s.guard), z3.IntVal(1))
                k = const_of(t)
                r = r + (k if k is not None else t)
            return r
        if isinstance(c, X.DictC):
            return len(c.d)
        if isinstance(c, X.RangeV):
            return z3.simplify(Z(c.b) - Z(c.a))
        if hasattr(v, 'pylen'):
            return v.pylen(self.ex)
        raise Unsupported('len of %s' % type(c).__name__)
    def intval(self, x):
        k = const_of(x)
        if isinstance(k, int):
            return k
        if X.is_term(x) and x.sort() == INT:
            return x
        raise Unsupported('an integer is expected')
    def to_int(self, x):
        if isinstance(x, Log2):
            return Log2(x.x, True)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, float)):
            return int(x)
        if isinstance(x, X.F):
            raise Unsupported('int of a float')
        if x.sort() == INT:
            return x
        if x.sort() == BOOL:
            return X.num(x)
        s = x
        if s.decl().kind() == z3.Z3_OP_DIV:
            a, b = toint(s.arg(0)), toint(s.arg(1))
            if a is not None and b is not None and self.ex.prove(And(a >= 0, b > 0)):
                return z3.simplify(a / b)
        a = toint(s)
        if a is not None:
            return a
        return z3.ToInt(x) if self.ex.prove(x >= 0) else z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    def dtype(self, d):
        if d is None:
            return X.DT('f8')
        if isinstance(d, X.DT):
            return d
        if isinstance(d, str):
            return X.DT(d.lstrip('<>=|'))
        if isinstance(d, X.Builtin):
            return X.DT({'int': 'i8', 'float': 'f8', 'bool': 'bool', 'object': 'obj'}[d.name])
        raise Unsupported('dtype')
    def cast_scalar(self, x, dt):
        k = dt.kind()
        if isinstance(x, X.F):
            if k == 'real':
                return x
            raise Unsupported('cast of a float')
        x = Z(x)
        if k == 'real':
            return real(x)
        if k == 'bool':
            return x if x.sort() == BOOL else x != 0
        if x.sort() == BOOL:
            return X.num(x)
        return x if x.sort() == INT else self.to_int(x)
    def cast_fn(self, dt):
        return lambda x: self.cast_scalar(x, dt)
    # ---------------- element-wise
    def scal(self, op, a, b):
        """arithmetic on scalars"""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            if op in ('FloorDiv', 'Mod', 'Div') and b == 0:
                raise X.PyRaise('ZeroDivisionError')
            if op == 'Div':
                r = z3.RealVal(a) / z3.RealVal(b)
                return z3.simplify(r)
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                    'Pow': lambda: a ** b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'RShift': lambda: a >> b, 'LShift': lambda: a << b, 'BitXor': lambda: a ^ b}[op]()
        if isinstance(a, X.F) or isinstance(b, X.F):
            x, y = X.asF(a), X.asF(b)
            v = self.scal(op, x.val, b if op == 'Pow' and not isinstance(b, X.F) else y.val) if op != 'Div' else None
            if op == 'Div':
                self.check('no division by zero', Or(x.nan, y.nan, y.val != 0))
                v = x.val / y.val
            return X.F(Or(x.nan, y.nan), v)
        if op in ('BitAnd', 'BitOr', 'BitXor') and X.isinst_bool(a) and X.isinst_bool(b):
            a, b = Z(a), Z(b)
            return {'BitAnd': lambda: And(a, b), 'BitOr': lambda: Or(a, b), 'BitXor': lambda: a != b}[op]()
        if isinstance(b, Log2) and op == 'RShift':
            return Z(a) / Z(b.x)
        a, b = X.num(a), X.num(b)
        if op == 'Pow':
            k = const_of(b)
            if k == 2:
                return a * a
            if k == 1:
                return a
            raise Unsupported('power')
        if op in ('BitAnd',):
            if not self.quiet and self.pow2mask(b) is not None:
                W = self.pow2mask(b)
                self.check('bits of a non-negative number', a >= 0)
                return a % W
            if self.quiet and self.pow2mask(b) is not None:
                return a % self.pow2mask(b)
            if z3.simplify(a - b).eq(z3.IntVal(1)):
                return BAND(a, b)
            raise Unsupported('bit operation')
        if op in ('BitOr', 'BitXor', 'RShift', 'LShift'):
            raise Unsupported('bit operation')
        if op == 'Div':
            a, b = real(a), real(b)
            self.check('no division by zero', b != 0)
            return a / b
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        if op in ('FloorDiv', 'Mod'):
            if a.sort() == REAL:
                raise Unsupported('floor division of floats')
            if not self.quiet:
                self.check('the divisor is positive', b > 0)
            q, m = self.edivmod(a, b)
            return q if op == 'FloorDiv' else m
        r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}[op]()
        return z3.simplify(r) if r.sort() == INT else r
    def edivmod(self, a, b):
        """quotient and remainder for b > 0, by the multiples of b that a contains"""
        a, b = z3.simplify(Z(a), som=True), z3.simplify(Z(b))
        if const_of(b) == 1:
            return a, z3.IntVal(0)
        fac = lambda t: [y for x in t.children() for y in fac(x)] if z3.is_mul(t) else [t]
        fb = fac(b)
        q, r = [], []
        for t in (a.children() if z3.is_add(a) else [a]):
            f = fac(t)
            for x in fb:
                for i, y in enumerate(f):
                    if x.eq(y):
                        f.pop(i)
                        break
                else:
                    r.append(t)
                    break
            else:
                q.append(z3.Product(f) if len(f) > 1 else f[0] if f else z3.IntVal(1))
        if z3.is_int_value(a) and a.as_long() == 0:
            return a, a
        if q and not z3.is_int_value(b):
            if not r:
                return z3.simplify(z3.Sum(q)), z3.IntVal(0)
            r = z3.simplify(z3.Sum(r))
            if self.ex.prove(And(r >= 0, r < b), None, 1000):
                return z3.simplify(z3.Sum(q)), r
        return z3.simplify(a / b), z3.simplify(a % b)
    def pow2mask(self, b):
        """W when b = W - 1 for a power of two W"""
        b = Z(b)
        for h in self.ex.st.pc:
            for c in conj(h):
                for x, y in (c.children(), c.children()[::-1]) if z3.is_eq(c) else ():
                    if z3.is_app(x) and x.decl().name() == 'bit_and' and const_of(y) == 0:
                        W = x.arg(0)
                        if z3.simplify(W - 1 - b).eq(z3.IntVal(0)):
                            return W
        return None
    def check(self, name, goal):
        if self.quiet:
            return
        goal = Z(goal)
        if z3.is_true(z3.simplify(goal)):
            return
        self.ex.oblige(name, goal, getattr(self, 'elem_hyps', []))
    def elementwise(self, f, *ops):
        """f on scalars, lifted to arrays; the result is a content or a scalar"""
        cs = [self.snap(o) for o in ops]
        if not any(X.is_arr(c) for c in cs):
            return f(*ops)
        if any(isinstance(c, X.OA) for c in cs):
            return self.elementwise_oa(f, cs)
        bags = [c for c in cs if isinstance(c, X.Bag)]
        if bags:
            if any(isinstance(c, X.D) for c in cs):
                raise Unsupported('an event list combined with a dense array')
            b0 = bags[0]
            al = []
            for c in cs:
                if isinstance(c, X.Bag):
                    al.append(c)
            al = self.align(al)
            it = iter(al)
            cs2 = [next(it) if isinstance(c, X.Bag) else c for c in cs]
            b0 = al[0]
            def at(vs):
                return f(*[c.elem(*vs) if isinstance(c, X.Bag) else c for c in cs2])
            vs = b0.vars()
            old = getattr(self, 'elem_hyps', [])
            self.elem_hyps = old + [b0.inside(vs)]
            v = at(vs)
            self.elem_hyps = old
            def elem(*vs):
                self.quiet += 1
                try:
                    return at(vs)
                finally:
                    self.quiet -= 1
            return b0.with_(elem=elem, dtype=self.sort_dtype(v), rep=None)
        ds = [c for c in cs if isinstance(c, X.D)]
        nd = max(len(d.shape) for d in ds)
        big = [d for d in ds if len(d.shape) == nd]
        shape = list(big[0].shape)
        for i in range(nd):
            for d in big:
                if const_of(shape[i]) == 1 and const_of(d.shape[i]) != 1:
                    shape[i] = d.shape[i]
        def idx_of(d, idx):
            off = nd - len(d.shape)
            return [Z(0) if const_of(s) == 1 and not (const_of(shape[off + i]) == 1) else idx[off + i] for i, s in enumerate(d.shape)]
        for d in ds:
            off = nd - len(d.shape)
            for i, s in enumerate(d.shape):
                if not s.eq(shape[off + i]) and const_of(s) != 1:
                    self.check('the shapes agree', s == shape[off + i])
        def at(idx):
            return f(*[c.read(*idx_of(c, idx)) if isinstance(c, X.D) else c for c in cs])
        p = [fresh('i') for _ in shape]
        old = getattr(self, 'elem_hyps', [])
        self.elem_hyps = old + [And(i >= 0, i < s) for i, s in zip(p, shape)]
        v = at(p)
        self.elem_hyps = old
        def read(*idx):
            self.quiet += 1
            try:
                return at([Z(i) for i in idx])
            finally:
                self.quiet -= 1
        return X.D(shape, read, self.sort_dtype(v))
    def elementwise_oa(self, f, cs):
        oas = [c for c in cs if isinstance(c, X.OA)]
        shape = oas[0].shape
        for o in oas[1:]:
            if len(o.shape) != len(shape):
                raise Unsupported('object arrays of different rank')
        if any(isinstance(c, (X.D, X.Bag)) for c in cs):
            raise Unsupported('object and dense arrays')
        def cells(idx):
            out = []
            def go(i, cond, args):
                if i == len(cs):
                    out.append((cond, args))
                    return
                if isinstance(cs[i], X.OA):
                    for c, v in cs[i].get(*idx):
                        c = And(cond, Z(c))
                        if not z3.is_false(z3.simplify(c)):
                            go(i + 1, c, args + [v])
                else:
                    go(i + 1, cond, args + [cs[i]])
            go(0, TRUE, [])
            return out
        p = [fresh('i') for _ in shape]
        old = getattr(self, 'elem_hyps', [])
        self.elem_hyps = old + [And(i >= 0, i < s) for i, s in zip(p, shape)]
        for c, a in cells(p):
            h = self.elem_hyps
            self.elem_hyps = h + [c]
            self.elementwise(f, *a)
            self.elem_hyps = h
        self.elem_hyps = old
        def get(*idx):
            idx = [Z(i) for i in idx]
            self.quiet += 1
            try:
                return [(c, self.elementwise(f, *a)) for c, a in cells(idx)]
            finally:
                self.quiet -= 1
        return X.OA(shape, get)
    def sort_dtype(self, v):
        if isinstance(v, X.F):
            return X.DT('f8')
        v = Z(v)
        return X.DT('bool' if v.sort() == BOOL else 'f8' if v.sort() == REAL else 'i8')
    def align(self, bags):
        """bags with the same elements in the same order"""
        out = list(bags)
        full = [b for b in out if b.rep is None]
        if full:
            b0 = full[0]
            for i, b in enumerate(out):
                if b.rep is not None:
                    out[i] = self.unrep(b, b0)
        b0 = out[0]
        for b in out[1:]:
            if b.mult is b0.mult and len(b.dims) == len(b0.dims):
                continue
            if len(b.dims) != len(b0.dims):
                raise Unsupported('event lists that are not aligned')
            vs = b0.vars()
            hy = []
            for i in range(len(vs)):
                x, y = b0.dim(i, vs), b.dim(i, vs)
                if not x.eq(y) and not self.ex.prove(x == y, self.ex.st.pc + hy):
                    raise Unsupported('event lists that are not aligned')
                hy += [vs[i] >= 0, vs[i] < x]
            x, y = Z(b0.mult(*vs)), Z(b.mult(*vs))
            if not z3.simplify(x - y).eq(z3.IntVal(0)) and not self.ex.prove(x == y, self.ex.st.pc + hy):
                raise Unsupported('event lists that are not aligned')
        return out
    def unrep(self, b, e):
        """a repeated list aligned with the list whose pieces have the repeat counts as lengths"""
        m = len(b.dims) - 1
        if len(e.dims) < m:
            raise Unsupported('repeat')
        vs = e.vars()
        hy = []
        for i in range(m):
            x, y = e.dim(i, vs), b.dim(i, vs)
            if not x.eq(y) and not self.ex.prove(x == y, self.ex.st.pc + hy):
                raise Unsupported('repeat that is not aligned')
            hy += [vs[i] >= 0, vs[i] < x]
        inner = self.nest(vs[m:], [e.dim(i, vs) for i in range(m, len(vs))], TRUE, Z(e.mult(*vs)))
        cnt = Z(b.rep(*vs[:m]))
        g = Z(b.mult(*vs[:m], z3.IntVal(0)))
        if not self.ex.prove(inner == ite(g > 0, cnt, z3.IntVal(0)), self.ex.st.pc + hy, 10000):
            raise Unsupported('the repeat counts are not the lengths of the pieces')
        return X.Bag(e.dims, e.mult, lambda *v: b.elem(*v[:m], z3.IntVal(0)), b.dtype)
    def wrap(self, c):
        return self.ex.new(c) if isinstance(c, (X.D, X.Bag, X.OA, X.Rows)) else c
    def isev(self, *cs):
        return any(isinstance(c, X.Bag) and c.dtype.name == 'ev' for c in cs)
    def binop(self, op, a, b):
        if isinstance(a, str) and op in ('Add', 'Mod'):
            return '<str>'
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, X.Ref) and isinstance(self.ex.raw(a), X.ListC):
            c = self.ex.raw(a)
            if op == 'Add' and isinstance(b, X.Ref) and isinstance(self.ex.raw(b), X.ListC) and c.base is None and self.ex.raw(b).base is None:
                return self.ex.new(X.ListC(list(c.segs) + list(self.ex.raw(b).segs)))
            n = const_of(b)
            if op == 'Mult' and isinstance(n, int) and c.base is None:
                return self.ex.new(X.ListC(list(c.segs) * n))
            raise Unsupported('list arithmetic')
        if isinstance(a, (tuple,)) and op == 'Mult':
            return a * const_of(b)
        if isinstance(a, (X.ModV, X.Func)) or a is None or b is None:
            raise X.PyRaise('TypeError')
        ca, cb = self.snap(a), self.snap(b)
        if isinstance(cb, (tuple,)) and isinstance(ca, X.D):
            b = self.array(b)
            cb = self.snap(b)
        W = self.pow2mask(b) if op == 'BitAnd' and X.is_num(b) and not isinstance(b, (bool, X.F)) and not X.isinst_bool(b) else None
        if W is not None:
            def masked(x, y):
                self.check('bits of a non-negative number', X.num(x) >= 0)
                return self.edivmod(X.num(x), W)[1]
        r = self.elementwise(masked if W is not None else lambda x, y: self.scal(op, x, y), a, b)
        def ev(c):
            return isinstance(c, X.Bag) and (c.dtype.name == 'ev' or c.dtype.name[0] == 'u')
        def fix(r, ca, cb):
            """the arithmetic of small or unsigned event types stays within the values of the list"""
            if isinstance(r, X.Bag) and (ev(ca) or ev(cb)) and r.dtype.kind() == 'int' and op in ('Add', 'Sub', 'Mult', 'Pow', 'FloorDiv', 'Mod', 'RShift', 'BitAnd', 'LShift'):
                other = cb if ev(ca) else ca
                if isinstance(other, X.Bag) and not ev(other) and other.dtype.kind() == 'int':
                    return r                                   # a wider type
                b = ca if ev(ca) else cb
                r = r.with_(dtype=b.dtype, bound=b.bound)
                if op in ('Add', 'Sub', 'Mult', 'Pow', 'LShift') and not self.quiet:
                    vs = r.vars()
                    x = Z(r.elem(*vs))
                    if b.dtype.name != 'ev':
                        self.ex.oblige('unsigned arithmetic does not wrap', x >= 0, [r.inside(vs)] + getattr(self, 'elem_hyps', []))
                        return r
                    self.ex.oblige('event arithmetic stays in the range of the event type', And(x >= 0, x < b.bound) if b.bound is not None else FALSE,
                                   [r.inside(vs)] + getattr(self, 'elem_hyps', []))
            return r
        if isinstance(r, X.Bag):
            r = fix(r, ca, cb)
        if isinstance(r, X.OA) and (isinstance(ca, X.OA) or isinstance(cb, X.OA)):
            r = self.oa_events(op, r, ca, cb, fix)
        return self.wrap(r)
    def oa_events(self, op, r, ca, cb, fix):
        shape = r.shape
        def pair(idx):
            out = []
            for c1, x in (ca.get(*idx) if isinstance(ca, X.OA) else [(TRUE, ca)]):
                for c2, y in (cb.get(*idx) if isinstance(cb, X.OA) else [(TRUE, cb)]):
                    c = z3.simplify(And(Z(c1), Z(c2)))
                    if not z3.is_false(c):
                        out.append((c, x, y))
            return out
        p = [fresh('i') for _ in shape]
        old = getattr(self, 'elem_hyps', [])
        for c, x, y in pair(p):
            self.elem_hyps = old + [And(i >= 0, i < s) for i, s in zip(p, shape)] + [c]
            fix(self.elementwise(lambda a, b: self.scal_q(op, a, b), x, y), x, y)
        self.elem_hyps = old
        def get(*idx):
            idx = [Z(i) for i in idx]
            self.quiet += 1
            try:
                return [(c, fix(self.elementwise(lambda a, b: self.scal(op, a, b), x, y), x, y)) for c, x, y in pair(idx)]
            finally:
                self.quiet -= 1
        return X.OA(shape, get)
    def scal_q(self, op, a, b):
        self.quiet += 1
        try:
            return self.scal(op, a, b)
        finally:
            self.quiet -= 1
    def invert(self, v):
        return self.wrap(self.elementwise(lambda x: Not(Z(x)) if X.isinst_bool(x) else self.unsup('bit inversion'), v))
    def unsup(self, s):
        raise Unsupported(s)
    def cmp_scal(self, op, a, b):
        if isinstance(a, X.F) or isinstance(b, X.F):
            x, y = X.asF(a), X.asF(b)
            c = self.cmp_scal(op, x.val, y.val)
            return Or(x.nan, y.nan, c) if op == 'NotEq' else And(Not(x.nan), Not(y.nan), c)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        a, b = Z(a), Z(b)
        if a.sort() != b.sort():
            a, b = X.num(a), X.num(b)
            if a.sort() != b.sort():
                a, b = real(a), real(b)
        if op == 'Eq':
            return a == b
        if op == 'NotEq':
            return Not(a == b)
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
    def compare(self, op, a, b):
        for x in (a, b):
            if hasattr(x, 'pycmp'):
                return x.pycmp(self.ex, op, b if x is a else a)
        if isinstance(a, SetLen) or isinstance(b, SetLen):
            raise Unsupported('size of a set')
        la = self.ex.raw(a).segs if isinstance(a, X.Ref) and isinstance(self.ex.raw(a), X.ListC) else None
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                r = False
            elif len(a) != len(b):
                r = False
            else:
                r = self.ex.fold_bool([self.compare('Eq', x, y) for x, y in zip(a, b)], True)
            if op == 'Eq':
                return r
            if op == 'NotEq':
                return (not r) if isinstance(r, bool) else Not(r)
            raise Unsupported('order of tuples')
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (X.SliceV, X.DT)) or isinstance(b, (X.SliceV, X.DT)):
            if op not in ('Eq', 'NotEq'):
                raise X.PyRaise('TypeError')
            if isinstance(a, X.SliceV) and isinstance(b, X.SliceV):
                r = self.ex.fold_bool([self.compare('Eq', x, y) for x, y in ((a.a, b.a), (a.b, b.b), (a.c, b.c))], True)
                return r if op == 'Eq' else ((not r) if isinstance(r, bool) else Not(r))
            elif isinstance(a, X.DT) and isinstance(b, X.DT):
                r = a.name == b.name
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            else:
                r = a is None and b is None
            return r if op == 'Eq' else not r
        return self.wrap(self.elementwise(lambda x, y: self.cmp_scal(op, x, y), a, b))
    def contains(self, c, x):
        s = self.snap(c)
        if hasattr(c, 'pycontains'):
            return c.pycontains(self.ex, x)
        if isinstance(s, X.Bag):
            return self.member(s, Z(x))
        if isinstance(s, X.DictC):
            return x in s.d
        it = self.ex.iterable(c)
        if isinstance(it, list):
            return self.ex.fold_bool([self.compare('Eq', y, x) for y in it], False)
        raise Unsupported('in')
    # ---------------- indexing
    def key(self, key, shape):
        """the key as a tuple of items over the axes"""
        key = key if isinstance(key, tuple) else (key,)
        out, ax = [], 0
        for x in key:
            if x is Ellipsis:
                used = sum(self.axes(y) for y in key if y is not Ellipsis and y is not None)
                for _ in range(len(shape) - used):
                    out.append(X.SliceV(None, None, None))
                    ax += 1
                continue
            out.append(x)
            ax += self.axes(x)
        if ax > len(shape):
            raise X.PyRaise('IndexError')
        out += [X.SliceV(None, None, None)] * (len(shape) - ax)
        return out
    def axes(self, x):
        if x is None:
            return 0
        if isinstance(x, X.SelV):
            return x.ndims
        c = self.snap(x) if isinstance(x, X.Ref) else x
        if isinstance(c, X.D) and c.dtype.kind() == 'bool':
            return len(c.shape)
        return 1
    def slice_bounds(self, s, n):
        def lim(x, dflt):
            if x is None:
                return dflt
            k = const_of(x)
            if k is not None and k < 0:
                v = z3.simplify(n + k)
                return v if self.ex.prove(v >= 0) else z3.If(v >= 0, v, z3.IntVal(0))
            x = Z(x)
            if self.ex.prove(And(x >= 0, x <= n)):
                return x
            if k is None and not self.ex.prove(x >= 0):
                raise Unsupported('a slice bound that may be negative')
            return z3.If(x <= n, x, n)
        if s.c is not None and const_of(s.c) != 1:
            raise Unsupported('slice step')
        a, b = lim(s.a, z3.IntVal(0)), lim(s.b, n)
        ln = z3.simplify(b - a)
        if not self.ex.prove(ln >= 0):
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        return a, ln
    def neg(self, i, n, check):
        i = Z(i)
        k = const_of(i)
        if k is not None and k < 0:
            i = z3.simplify(n + k)
        elif k is None and check and not self.quiet and self.ex.branch(i < 0):
            i = z3.simplify(i + n)
        if check and not self.quiet:
            self.check('the index is within the array', And(i >= 0, i < n))
        return i
    def basic(self, key, shape, check=True):
        """(new shape, to, back) for a basic key, or None"""
        plan, ax = [], 0
        newshape = []
        for x in key:
            if x is None:
                plan.append(('n',))
                newshape.append(z3.IntVal(1))
                continue
            if isinstance(x, X.SliceV):
                if x.none():
                    plan.append(('s', ax, z3.IntVal(0), len(newshape), None))
                    newshape.append(shape[ax])
                else:
                    a, ln = self.slice_bounds(x, shape[ax])
                    plan.append(('s', ax, a, len(newshape), ln))
                    newshape.append(ln)
                ax += 1
            elif isinstance(x, X.SelV):
                plan.append(('sel', ax, x, len(newshape)))
                newshape += list(x.shape)
                for i in range(x.ndims):
                    b = getattr(x, 'base', None)
                    if b is not None and not shape[ax + i].eq(b[i]):
                        self.check('the index fits the shape', shape[ax + i] == b[i])
                ax += x.ndims
            elif isinstance(x, int) or (X.is_term(x) and x.sort() == INT):
                plan.append(('i', ax, self.neg(x, shape[ax], check)))
                ax += 1
            else:
                return None
        def to(*idx):
            out = [None] * len(shape)
            for p in plan:
                if p[0] == 'i':
                    out[p[1]] = p[2]
                elif p[0] == 's':
                    v = Z(idx[p[3]])
                    out[p[1]] = v if z3.is_int_value(p[2]) and p[2].as_long() == 0 else z3.simplify(v + p[2])
                elif p[0] == 'sel':
                    r = p[2].sel(*idx[p[3]:p[3] + len(p[2].shape)])
                    for j, t in enumerate(r):
                        out[p[1] + j] = t
            return out
        def back(*b):
            cond, idx = TRUE, [z3.IntVal(0)] * len(newshape)
            for p in plan:
                if p[0] == 'i':
                    cond = And(cond, Z(b[p[1]]) == p[2])
                elif p[0] == 's':
                    v = z3.simplify(Z(b[p[1]]) - p[2])
                    if p[4] is not None:
                        cond = And(cond, v >= 0, v < p[4])
                    idx[p[3]] = v
                elif p[0] == 'sel':
                    bb = b[p[1]:p[1] + p[2].ndims]
                    cond = And(cond, p[2].member(*bb))
                    for j, t in enumerate(p[2].inv(*bb)):
                        idx[p[3] + j] = t
            return cond, idx
        return newshape, to, back
    def get_item(self, o, key, check=True):
        ex = self.ex
        c = self.snap(o)
        if isinstance(c, X.ListC):
            k = const_of(key)
            if c.base is None and isinstance(k, int) and all(not s.dims and z3.is_true(Z(s.guard)) for s in c.segs):
                if not -len(c.segs) <= k < len(c.segs):
                    raise X.PyRaise('IndexError')
                return c.segs[k].value
            if isinstance(key, X.SliceV) and c.base is None and all(not s.dims and z3.is_true(Z(s.guard)) for s in c.segs):
                xs = [const_of(x) if x is not None else None for x in (key.a, key.b, key.c)]
                return ex.new(X.ListC(c.segs[slice(*xs)]))
            raise Unsupported('list index')
        if isinstance(c, X.Bag):
            k = self.snap(key) if isinstance(key, X.Ref) else key
            if isinstance(k, X.Bag) and k.dtype.kind() == 'bool':
                a, m = self.align([c, k])
                return ex.new(a.with_(mult=lambda *vs: ite(Z(m.elem(*vs)), Z(a.mult(*vs)), z3.IntVal(0)), rep=None))
            if isinstance(k, X.SliceV) and k.none():
                return o
            raise Unsupported('index of an event list')
        if isinstance(c, X.Rows):
            raise Unsupported('index of selected rows')
        if not isinstance(c, (X.D, X.OA)):
            raise Unsupported('index of %s' % type(c).__name__)
        keys = self.key(key, c.shape)
        b = self.basic(keys, c.shape, check)
        if b is not None:
            shape, to, back = b
            if not shape:
                i = to()
                if isinstance(c, X.D):
                    return c.read(*i)
                return self.cell(c.get(*i))
            if isinstance(o, X.Ref):
                return ex.new(X.View(o, shape, to, back))
            raise Unsupported('view')
        return self.advanced(o, c, keys)
    def cell(self, cases):
        """the object in a cell"""
        ex = self.ex
        cases = [(Z(a), b) for a, b in cases if not z3.is_false(z3.simplify(Z(a)))]
        if len(cases) > 1:
            live = []
            for a, b in cases:
                if not ex.prove(Not(a)):
                    live.append((a, b))
            cases = live
        if not cases:
            raise X.Infeasible()
        if len(cases) == 1 or all(b is None for a, b in cases):
            v = cases[0][1]
        else:
            v = None
            for i, (a, b) in enumerate(cases[:-1]):
                if ex.branch(a):
                    v = b
                    break
            else:
                v = cases[-1][1]
        if isinstance(v, X.Hole):
            raise Unsupported('an object cell that the loop changes is read')
        return ex.new(v) if v is not None else None
    def advanced(self, o, c, keys):
        ex = self.ex
        adv = [(i, x) for i, x in enumerate(keys) if isinstance(x, X.Ref)]
        if len(adv) != 1:
            raise Unsupported('several index arrays')
        pos, x = adv[0]
        k = self.snap(x)
        if isinstance(k, X.ListC):
            k = self.snap(self.array(x))
        # axes before and after
        ax = sum(self.axes(y) for y in keys[:pos])
        rest = keys[:pos] + keys[pos + 1:]
        na = self.axes(x)
        if isinstance(c, X.OA):
            if pos != 0 or any(not (isinstance(y, X.SliceV) and y.none()) for y in rest):
                raise Unsupported('index of an object array')
            if isinstance(k, X.D) and k.dtype.kind() == 'int' and len(k.shape) == 1:
                i = fresh('i')
                e = Z(k.read(i))
                self.ex.oblige('the index is within the array', And(e >= 0, e < c.shape[0]), [i >= 0, i < k.shape[0]] + getattr(self, 'elem_hyps', []))
                return ex.new(X.OA([k.shape[0]] + list(c.shape[1:]), lambda *ii: c.get(k.read(ii[0]), *ii[1:])))
            if isinstance(k, X.Bag) and k.dtype.kind() == 'int':
                vs = k.vars()
                e = Z(k.elem(*vs))
                self.ex.oblige('the index is within the array', And(e >= 0, e < c.shape[0]), [k.inside(vs)])
                if len(c.shape) == 1:
                    raise Unsupported('index of an object array')
                return ex.new(X.Rows(k, c))
            if isinstance(k, X.D) and k.dtype.kind() == 'bool' and len(k.shape) == 1:
                self.check('the mask fits', k.shape[0] == c.shape[0])
                bag = X.Bag([k.shape[0]], lambda v: ite(Z(k.read(v)), z3.IntVal(1), z3.IntVal(0)), lambda v: v, X.DT('i8'))
                return ex.new(X.Rows(bag, c))
            raise Unsupported('index of an object array')
        if isinstance(k, X.D) and k.dtype.kind() == 'bool':
            if any(not isinstance(y, int) and not X.is_term(y) for y in rest):
                raise Unsupported('mask and slices')
            for i, s in enumerate(k.shape):
                if not s.eq(c.shape[ax + i]):
                    self.check('the mask fits', s == c.shape[ax + i])
            pre = [self.neg(y, c.shape[i], True) for i, y in enumerate(keys[:pos])]
            post = [self.neg(y, c.shape[ax + na + i], True) for i, y in enumerate(keys[pos + 1:])]
            return ex.new(X.Bag(k.shape, lambda *vs: ite(Z(k.read(*vs)), z3.IntVal(1), z3.IntVal(0)), lambda *vs: c.read(*pre, *vs, *post), c.dtype))
        if any(not isinstance(y, int) and not X.is_term(y) for y in rest):
            raise Unsupported('index array and slices')
        pre = [self.neg(y, c.shape[i], True) for i, y in enumerate(keys[:pos])]
        post = [self.neg(y, c.shape[ax + 1 + i], True) for i, y in enumerate(keys[pos + 1:])]
        n = c.shape[ax]
        if isinstance(k, X.Bag):
            vs = k.vars()
            e = Z(k.elem(*vs))
            self.ex.oblige('the index is within the array', And(e >= 0, e < n), [k.inside(vs)] + getattr(self, 'elem_hyps', []))
            return ex.new(k.with_(elem=lambda *vs: c.read(*pre, k.elem(*vs), *post), dtype=c.dtype))
        if isinstance(k, X.D):
            p = [fresh('i') for _ in k.shape]
            e = Z(k.read(*p))
            self.ex.oblige('the index is within the array', And(e >= 0, e < n), [And(i >= 0, i < s) for i, s in zip(p, k.shape)])
            return ex.new(X.D(k.shape, lambda *i: c.read(*pre, k.read(*i), *post), c.dtype))
        raise Unsupported('index')
    # ---------------- writing
    def write(self, ref, match, val):
        """cells with match(idx) get val(idx)"""
        ex = self.ex
        c = ex.raw(ref)
        if isinstance(c, X.View):
            def m(*b):
                cond, idx = c.back(*b)
                return And(cond, match(*idx))
            self.write(c.base, m, lambda *b: val(*c.back(*b)[1]))
            return
        if isinstance(c, X.D):
            cast = self.cast_fn(c.dtype) if c.dtype.kind() != 'int' else (lambda v: self.need_int(v))
            ex.st.heap[ref.id] = X.D(c.shape, lambda *i: X.fite(match(*i), cast(val(*i)), c.read(*i)), c.dtype)
            return
        if isinstance(c, X.OA):
            def get(*i):
                i = [Z(x) for x in i]
                m = z3.simplify(Z(match(*i)))
                if z3.is_false(m):
                    return c.get(*i)
                v = val(*i)
                v = v if isinstance(v, list) else [(TRUE, v)]
                new = [(And(m, Z(a)), b) for a, b in v]
                if z3.is_true(m):
                    return new
                return new + [(And(Not(m), Z(a)), b) for a, b in c.get(*i)]
            ex.st.heap[ref.id] = X.OA(c.shape, get)
            return
        raise Unsupported('assignment to %s' % type(c).__name__)
    def need_int(self, v):
        if isinstance(v, X.F):
            raise Unsupported('a float is stored in an integer array')
        v = X.num(v)
        if v.sort() == REAL:
            a = toint(v)
            return a if a is not None else z3.ToInt(v)
        return v
    def value_at(self, v, shape):
        """the value to store at an index of the target of this shape"""
        ex = self.ex
        if isinstance(v, tuple) or (isinstance(v, X.Ref) and isinstance(ex.raw(v), X.ListC)):
            v = self.array(v)
        c = self.snap(v)
        if isinstance(c, X.D):
            nd = len(c.shape)
            for i in range(nd):
                s, t = c.shape[nd - 1 - i], shape[len(shape) - 1 - i]
                if not s.eq(t) and const_of(s) != 1:
                    self.check('the assigned value has the shape of the target', s == t)
            return lambda *i: c.read(*[z3.IntVal(0) if const_of(s) == 1 and const_of(t) != 1 else x for s, t, x in zip(c.shape, shape[len(shape) - nd:], i[len(i) - nd:])])
        if isinstance(c, X.OA):
            for s, t in zip(c.shape, shape):
                if not s.eq(t):
                    self.check('the assigned value has the shape of the target', s == t)
            return lambda *i: c.get(*i)
        if isinstance(c, X.Bag):
            raise Unsupported('an event list is stored in a dense array')
        return lambda *i: c
    def set_item(self, o, key, v):
        ex = self.ex
        if hasattr(o, 'pysetitem'):
            return o.pysetitem(ex, key, v)
        c = ex.raw(o)
        if isinstance(c, X.DictC):
            d = dict(c.d)
            d[key] = v
            ex.st.heap[o.id] = X.DictC(d)
            return
        if isinstance(c, X.ListC):
            raise Unsupported('list item assignment')
        c = self.snap(o)
        if isinstance(c, X.Bag):
            vc = self.snap(v)
            if isinstance(key, X.SliceV) and key.none():
                if isinstance(vc, X.Bag):
                    a, b = self.align([c, vc])
                    ex.st.heap[o.id] = c.with_(elem=b.elem)
                elif not X.is_arr(vc):
                    ex.st.heap[o.id] = c.with_(elem=lambda *vs: vc)
                else:
                    raise Unsupported('assignment to an event list')
                return
            raise Unsupported('assignment to an event list')
        keys = self.key(key, c.shape)
        b = self.basic(keys, c.shape)
        if b is not None:
            shape, to, back = b
            if isinstance(c, X.OA) and not shape:
                if v is not None:
                    vc = self.snap(v)
                    if isinstance(vc, X.D):
                        vc = self.dense_bag(vc)
                    if not isinstance(vc, X.Bag):
                        raise Unsupported('object cell')
                else:
                    vc = None
                self.write(o, lambda *i: back(*i)[0], lambda *i: vc)
                return
            val = self.value_at(v, shape)
            self.write(o, lambda *i: back(*i)[0], lambda *i: val(*back(*i)[1]))
            return
        self.scatter(o, c, keys, v, None)
    def aug_item(self, o, key, op, v):
        ex = self.ex
        c = self.snap(o)
        if isinstance(c, X.DictC):
            self.set_item(o, key, self.binop(op, c.d[key], v))
            return
        if not isinstance(c, X.D):
            self.set_item(o, key, self.binop(op, self.ex.getitem(o, key), v))
            return
        keys = self.key(key, c.shape)
        b = self.basic(keys, c.shape)
        if b is not None:
            shape, to, back = b
            val = self.value_at(v, shape)
            p = [fresh('i') for _ in c.shape]
            r = self.scal(op, c.read(*p), val(*back(*p)[1]))       # obligations of the operation
            if c.dtype.kind() == 'int' and not isinstance(r, X.F) and Z(r).sort() == REAL:
                raise X.PyRaise('UFuncTypeError')
            def new(*i):
                self.quiet += 1
                try:
                    return self.scal(op, c.read(*i), val(*back(*i)[1]))
                finally:
                    self.quiet -= 1
            self.write(o, lambda *i: back(*i)[0], new)
            return
        self.scatter(o, c, keys, v, op)
    def scatter(self, o, c, keys, v, op):
        """assignment through an index array or a mask"""
        ex = self.ex
        adv = [(i, x) for i, x in enumerate(keys) if isinstance(x, X.Ref)]
        if len(adv) != 1:
            raise Unsupported('several index arrays')
        pos, x = adv[0]
        k = self.snap(x)
        if isinstance(k, X.ListC):
            k = self.snap(self.array(x))
        ax = sum(self.axes(y) for y in keys[:pos])
        na = self.axes(x)
        if any(not isinstance(y, int) and not X.is_term(y) for y in keys[:pos] + keys[pos + 1:]):
            raise Unsupported('index array and slices')
        pre = [self.neg(y, c.shape[i], True) for i, y in enumerate(keys[:pos])]
        post = [self.neg(y, c.shape[ax + na + i], True) for i, y in enumerate(keys[pos + 1:])]
        if not isinstance(c, X.D):
            raise Unsupported('scatter to objects')
        vc = self.snap(self.array(v) if isinstance(v, tuple) else v)
        def fixed(idx):
            return And(*[Z(i) == p for i, p in zip(idx[:ax], pre)], *[Z(i) == p for i, p in zip(idx[ax + na:], post)])
        def apply(cond, at):
            def val(*i):
                self.quiet += 1
                try:
                    y = at(*i)
                    return y if op is None else self.scal(op, c.read(*i), y)
                finally:
                    self.quiet -= 1
            self.write(o, lambda *i: And(fixed(i), cond(*i[ax:ax + na])), val)
        if isinstance(k, X.D) and k.dtype.kind() == 'bool':
            for i, s in enumerate(k.shape):
                if not s.eq(c.shape[ax + i]):
                    self.check('the mask fits', s == c.shape[ax + i])
            if isinstance(vc, X.Bag):
                kb = X.Bag(k.shape, lambda *vs: ite(Z(k.read(*vs)), z3.IntVal(1), z3.IntVal(0)), lambda *vs: z3.IntVal(0), X.DT('i8'))
                self.align([kb, vc])
                apply(lambda *i: Z(k.read(*i)), lambda *i: vc.elem(*i[ax:ax + na]))
            elif not X.is_arr(vc):
                apply(lambda *i: Z(k.read(*i)), lambda *i: vc)
            else:
                raise Unsupported('mask assignment')
            return
        n = c.shape[ax]
        if isinstance(k, X.Bag):
            vs = k.vars()
            e = Z(k.elem(*vs))
            self.ex.oblige('the index is within the array', And(e >= 0, e < n), [k.inside(vs)] + getattr(self, 'elem_hyps', []))
            if not X.is_arr(vc):
                apply(lambda j: self.member(k, Z(j)), lambda *i: vc)
                return
            if isinstance(vc, X.Bag):
                k2, v2 = self.align([k, vc])
                w = [fresh('v') for _ in k2.dims]
                if len(w) == 1 and Z(k2.elem(*w)).eq(w[0]):
                    apply(lambda j: self.member(k2, Z(j)), lambda *i: v2.elem(i[ax]))
                    return
            raise Unsupported('scatter')
        if isinstance(k, X.D) and len(k.shape) == 1:
            i = fresh('i')
            e = Z(k.read(i))
            self.ex.oblige('the index is within the array', And(e >= 0, e < n), [i >= 0, i < k.shape[0]])
            inv = self.inverse(k) or self.view_inverse(x)
            if inv is None:
                raise Unsupported('scatter through an index array')
            member, back = inv
            if X.is_arr(vc) and isinstance(vc, X.D):
                apply(lambda j: member(Z(j)), lambda *i: vc.read(back(Z(i[ax]))))
            elif not X.is_arr(vc):
                apply(lambda j: member(Z(j)), lambda *i: vc)
            else:
                raise Unsupported('scatter')
            return
        raise Unsupported('scatter')
    def inverse(self, k):
        """(member, inverse) of a one-dimensional dense index array that is injective"""
        i = fresh('i')
        e = z3.simplify(Z(k.read(i)))
        if e.eq(i):
            return (lambda j: And(j >= 0, j < k.shape[0])), (lambda j: j)
        for inv in getattr(self.ex, 'inverses', ()):
            r = inv(k, e, i)
            if r is not None:
                return r
        return None
    def view_inverse(self, r):
        """(member, inverse) of a one-dimensional view of the numbers 0, 1, 2, ..."""
        def go(r):
            c = self.ex.raw(r)
            if isinstance(c, X.View):
                f = go(c.base)
                if f is None:
                    return None
                def g(j):
                    cond, b = f(j)
                    c2, idx = c.back(*b)
                    return And(cond, c2), idx
                return g
            if isinstance(c, X.D) and len(c.shape) == 1:
                i = fresh('i')
                if z3.simplify(Z(c.read(i))).eq(i):
                    return lambda j: (And(j >= 0, j < c.shape[0]), [j])
            return None
        f = go(r)
        if f is None:
            return None
        return (lambda j: f(j)[0]), (lambda j: f(j)[1][0])
    def dense_bag(self, d):
        if len(d.shape) != 1:
            raise Unsupported('a dense array as an event list')
        return X.Bag([d.shape[0]], lambda v: z3.IntVal(1), lambda v: d.read(v), d.dtype)
    def append(self, lst, v):
        ex = self.ex
        c = ex.raw(lst)
        if isinstance(v, X.Ref):
            s = self.snap(v)
            v2 = s if X.is_arr(s) else v
        else:
            v2 = v
        ex.st.heap[lst.id] = X.ListC(list(c.segs) + [X.Seg([], [], TRUE, v2)], c.base)
    # ---------------- shapes
    def regroup(self, old, new):
        """pairs of axis groups with equal sizes"""
        i = j = 0
        out = []
        old, new = [Z(x) for x in old], [Z(x) for x in new]
        while i < len(old) or j < len(new):
            a, b = i, j
            i2, j2 = i + 1, j + 1
            while True:
                pa, pb = self.prod(old[a:i2]), self.prod(new[b:j2])
                if i2 <= len(old) and j2 <= len(new) and (z3.simplify(pa - pb, som=True).eq(z3.IntVal(0)) or self.ex.prove(pa == pb, None, 1500)):
                    out.append((list(range(a, i2)), list(range(b, j2))))
                    i, j = i2, j2
                    break
                # extend the side with fewer axes first: try all the extensions in order of total size
                nxt = None
                cands = sorted([(x, y) for x in range(a, len(old) + 1) for y in range(b, len(new) + 1) if (x, y) > (a, b)], key=lambda t: t[0] + t[1])
                cands = [t for t in cands if t[0] + t[1] >= i2 + j2 and t != (i2, j2)]
                found = False
                for x, y in cands:
                    pa, pb = self.prod(old[a:x]), self.prod(new[b:y])
                    if (x > a or y > b) and (z3.simplify(pa - pb, som=True).eq(z3.IntVal(0)) or self.ex.prove(pa == pb, None, 1500)):
                        out.append((list(range(a, x)), list(range(b, y))))
                        i, j = x, y
                        found = True
                        break
                if not found:
                    return None
                break
        return out
    def reshape(self, o, shape):
        ex = self.ex
        c = self.snap(o)
        shape = list(shape)
        if isinstance(c, X.Bag):
            raise Unsupported('reshape of an event list')
        neg = [i for i, s in enumerate(shape) if const_of(s) == -1]
        if neg:
            rest = self.prod([s for i, s in enumerate(shape) if i not in neg])
            tot = self.prod(c.shape)
            shape[neg[0]] = tot if const_of(rest) == 1 else z3.simplify(tot / rest)
        g = self.regroup(c.shape, shape)
        if g is None:
            self.check('the reshaped array has the same number of elements', self.prod(c.shape) == self.prod(shape))
            g = [(list(range(len(c.shape))), list(range(len(shape))))]
        old, new = list(c.shape), [Z(s) for s in shape]
        def conv(idx, frm, to, gi, go):
            out = [None] * len(to)
            for a in g:
                src, dst = a[gi], a[go]
                if len(src) == 1 and len(dst) == 1:
                    out[dst[0]] = Z(idx[src[0]])
                    continue
                flat = z3.IntVal(0)
                for s in src:
                    flat = flat * frm[s] + Z(idx[s])
                flat = z3.simplify(flat)
                for n, d in enumerate(reversed(dst)):
                    if n == len(dst) - 1:
                        out[d] = flat
                    else:
                        flat, out[d] = self.edivmod(flat, to[d])
            return out
        def to(*idx):
            return conv(idx, new, old, 1, 0)
        def back(*b):
            return TRUE, conv(b, old, new, 0, 1)
        return ex.new(X.View(o, new, to, back))
    def shapeval(self, s):
        if isinstance(s, tuple):
            return [self.intval(x) for x in s]
        if isinstance(s, X.Ref):
            return [self.intval(x) for x in self.ex.iterable(s)]
        return [self.intval(s)]
    def tolist(self, v):
        it = self.ex.iterable(v)
        return it if isinstance(it, list) else None
    def array(self, v, dt=None):
        ex = self.ex
        if isinstance(v, X.Ref):
            c = ex.raw(v)
            if isinstance(c, X.ListC):
                if c.base is not None:
                    raise Unsupported('list that a loop extends')
                if all(not s.dims and z3.is_true(Z(s.guard)) for s in c.segs):
                    return self.array(tuple(s.value for s in c.segs), dt)
                if len(c.segs) == 1 and (X.is_term(c.segs[0].value) or isinstance(c.segs[0].value, (int, float))):
                    s = c.segs[0]
                    el = self.seg_fn(s, s.value)
                    b = X.Bag(self.seg_dims(s), self.seg_fn(s, ite(Z(s.guard), z3.IntVal(1), z3.IntVal(0))), el, dt or self.sort_dtype(s.value))
                    return ex.new(b)
                raise Unsupported('array of a list')
            c = self.snap(v)
            if dt is not None:
                return self.astype(v, dt)
            return ex.new(c)
        if isinstance(v, tuple):
            if not v:
                return ex.new(X.Bag([0], lambda v: z3.IntVal(1), lambda v: z3.IntVal(0), dt or X.DT('f8')))
            if all(X.is_num(x) for x in v):
                def read(i):
                    r = v[-1]
                    for j in range(len(v) - 2, -1, -1):
                        r = X.fite(Z(i) == j, v[j], r)
                    return Zn(r)
                d = X.D([len(v)], read, dt or self.sort_dtype(v[0]))
                return ex.new(d)
            if all(isinstance(x, tuple) for x in v) or all(isinstance(x, X.Ref) for x in v):
                ds = [self.snap(self.array(x)) if isinstance(x, tuple) else self.snap(x) for x in v]
                if all(isinstance(d, X.D) for d in ds):
                    for d in ds[1:]:
                        for s, t in zip(d.shape, ds[0].shape):
                            self.check('the shapes agree', s == t)
                    def read(i, *r):
                        x = ds[-1].read(*r)
                        for j in range(len(ds) - 2, -1, -1):
                            x = X.fite(Z(i) == j, ds[j].read(*r), x)
                        return x
                    return ex.new(X.D([len(ds)] + list(ds[0].shape), read, ds[0].dtype))
        raise Unsupported('np.array')
    def seg_dims(self, s):
        return [self.dimfn(s, i) for i in range(len(s.dims))]
    def dimfn(self, s, i):
        d = s.dims[i]
        if callable(d):
            return d
        if any(X.has(d, v) for v in s.vs[:i]):
            return lambda *vs: X.vsub(d, list(zip(s.vs[:i], [Z(x) for x in vs])))
        return d
    def seg_fn(self, s, t):
        return lambda *vs: X.vsub(X.Zv(t), list(zip(s.vs, [Z(x) for x in vs])))
    def astype(self, v, dt):
        ex = self.ex
        c = self.snap(v)
        f = self.cast_fn(dt)
        if isinstance(c, X.Bag):
            if dt.kind() == 'int' and c.dtype.kind() == 'int':
                # wide signed types hold every event; narrower ones have to be shown to
                n = dt.name
                if n in ('i8', 'u8', 'i4', 'u4', 'user', 'ev'):
                    return ex.new(c.with_(dtype=dt if n != 'ev' else c.dtype))
                vs = c.vars()
                lim = {'u1': 255, 'i1': 127, 'u2': 65535, 'i2': 32767}.get(n)
                if lim is None:
                    raise Unsupported('dtype %s' % n)
                self.ex.oblige('the values fit in %s' % n, Z(c.elem(*vs)) <= lim, [c.inside(vs)])
                return ex.new(c.with_(dtype=dt))
        r = self.elementwise(f, v)
        if isinstance(r, X.Bag):
            r = r.with_(dtype=dt)
        elif isinstance(r, X.D):
            r = X.D(r.shape, r.read, dt)
        return self.wrap(r) if isinstance(r, (X.D, X.Bag, X.OA)) else r
    def deepcopy(self, v):
        c = self.snap(v)
        if X.is_arr(c):
            return self.ex.new(c)
        if isinstance(c, (X.ListC, X.DictC)):
            return self.ex.new(c)
        if not isinstance(v, X.Ref):
            return v
        raise Unsupported('deepcopy')
    # ---------------- reductions
    def asbag(self, c):
        """any numeric array as a bag over all of its elements"""
        if isinstance(c, X.Bag):
            return c
        if isinstance(c, X.D):
            return X.Bag(list(c.shape), lambda *vs: z3.IntVal(1), c.read, c.dtype)
        raise Unsupported('reduction of %s' % type(c).__name__)
    def total(self, v):
        c = self.snap(v)
        b = self.asbag(c)
        def f(vs):
            x = b.elem(*vs)
            if isinstance(x, X.F):
                raise Unsupported('sum of floats that may be NaN')
            return X.num(x)
        return self.bagsum(b, f)
    def extremum(self, v, mx, initial=None):
        c = self.snap(v)
        if isinstance(c, (tuple, X.ListC, X.RangeV)):
            return self.ex.minmax([v], mx)
        b = self.asbag(c)
        vs = b.vars()
        x = X.num(b.elem(*vs))
        m = Z(b.mult(*vs))
        if initial is None:
            self.check('the reduced array is not empty', self.bagsum(b, lambda vs: z3.IntVal(1)) > 0)
            if x.sort() == REAL:
                raise Unsupported('extremum of floats')
            if mx:
                # non-negative values only
                self.ex.oblige('maximum of non-negative values', x >= 0, [b.inside(vs)])
                init = z3.IntVal(0)
            else:
                init = MAXV
        else:
            init = Z(initial)
        def level(i, acc):
            if i == len(vs):
                r = z3.If(x > acc, x, acc) if mx else z3.If(x < acc, x, acc)
                return ite(z3.simplify(m > 0), r, acc)
            a = fresh('acc', x.sort())
            body = level(i + 1, a)
            return self.th.rec_of(b.dim(i, vs), vs[i], a, acc, body)
        return level(0, init)
    def anyall(self, v, isany):
        c = self.snap(v)
        if not X.is_arr(c):
            return self.ex.truth(v)
        if isinstance(c, X.OA):
            raise Unsupported('any of objects')
        b = self.asbag(c)
        f = lambda vs: (lambda t: t if isany else Not(t))(truth(b.elem(*vs)))
        n = self.bagsum(b, f)
        return n > 0 if isany else n == 0
    def nanmean(self, v, axis=None):
        c = self.snap(v)
        if not isinstance(c, X.D):
            raise Unsupported('nanmean')
        nd = len(c.shape)
        axes = list(range(nd)) if axis is None else [a % nd for a in ([const_of(x) for x in axis] if isinstance(axis, tuple) else [const_of(axis)])]
        keep = [a for a in range(nd) if a not in axes]
        def at(*idx):
            vs = [fresh('v') for _ in axes]
            full = [None] * nd
            for a, x in zip(keep, idx):
                full[a] = Z(x)
            for a, x in zip(axes, vs):
                full[a] = x
            e = X.asF(c.read(*full))
            dims = [c.shape[a] for a in axes]
            n = self.nest(vs, dims, Not(e.nan), z3.IntVal(1))
            s = self.nest(vs, dims, Not(e.nan), e.val)
            return X.F(n == 0, s / real(n))
        if not keep:
            return at()
        return self.ex.new(X.D([c.shape[a] for a in keep], at, c.dtype))
    def unique(self, v, counts):
        ex = self.ex
        c = self.snap(v)
        if isinstance(c, X.D) and len(c.shape) == 1:
            c = self.dense_bag(c)
        if not isinstance(c, X.Bag) or c.dtype.kind() != 'int':
            raise Unsupported('np.unique')
        bound = c.bound
        if bound is None:
            bound = getattr(ex, 'unique_bound', None)
            if bound is None:
                raise Unsupported('np.unique of values without a known range')
        vs = c.vars()
        e = Z(c.elem(*vs))
        ex.oblige('the values are non-negative and bounded', And(e >= 0, e < bound), [c.inside(vs)] + getattr(self, 'elem_hyps', []))
        mult = lambda v: ite(self.member(c, Z(v)), z3.IntVal(1), z3.IntVal(0))
        u = X.Bag([bound], mult, lambda v: v, c.dtype, bound)
        if not counts:
            return ex.new(u)
        return (ex.new(u), ex.new(X.Bag([bound], mult, lambda v: self.count(c, Z(v)), X.DT('i8'))))
    def concatenate(self, v):
        ex = self.ex
        if isinstance(v, tuple) or (isinstance(v, X.Ref) and isinstance(ex.raw(v), X.ListC)):
            c = ex.raw(v) if isinstance(v, X.Ref) else X.ListC([X.Seg([], [], TRUE, self.snap(x)) for x in v])
            if c.base is not None or len(c.segs) != 1:
                if c.base is None and c.segs and all(not s.dims for s in c.segs):
                    return self.concat_items([s.value if X.is_arr(s.value) else self.snap(s.value) for s in c.segs])
                raise Unsupported('concatenation of a list')
            s = c.segs[0]
            b = s.value if X.is_arr(s.value) else self.snap(s.value)
            if isinstance(b, X.OA) and not s.dims:
                return ex.new(b)
            if not isinstance(b, X.Bag):
                raise Unsupported('concatenation of a list')
            m = len(s.dims)
            def split(f):
                return lambda *vs: X.vsub(X.Zv(f(*vs[m:])), list(zip(s.vs, [Z(x) for x in vs[:m]])))
            g = self.seg_fn(s, Z(s.guard))
            mul = split(b.mult)
            dims = self.seg_dims(s) + [self.shift_dim(s, b, i) for i in range(len(b.dims))]
            return ex.new(X.Bag(dims, lambda *vs: ite(g(*vs[:m]), Z(mul(*vs)), z3.IntVal(0)), split(b.elem), b.dtype, b.bound))
        c = self.snap(v)
        if isinstance(c, X.OA):
            return self.concat_oa(c)
        if isinstance(c, X.Rows):
            raise Unsupported('concatenation of selected rows')
        raise Unsupported('np.concatenate')
    def shift_dim(self, s, b, i):
        m = len(s.dims)
        d = b.dims[i]
        if callable(d):
            return lambda *vs: X.vsub(Z(d(*vs[m:])), list(zip(s.vs, [Z(x) for x in vs[:m]])))
        if any(X.has(d, x) for x in s.vs):
            return lambda *vs: X.vsub(d, list(zip(s.vs, [Z(x) for x in vs[:m]])))
        return d
    def concat_items(self, cs):
        if all(isinstance(c, X.Bag) for c in cs):
            if len(cs) == 1:
                return self.ex.new(cs[0])
            raise Unsupported('concatenation of several event lists')
        raise Unsupported('concatenation')
    def concat_oa(self, c):
        ex = self.ex
        if len(c.shape) == 2:
            # the rows one after the other
            F_ = c.shape[1]
            return ex.new(X.OA([z3.simplify(c.shape[0] * F_)], lambda t: c.get(Z(t) / F_, Z(t) % F_)))
        if len(c.shape) != 1:
            raise Unsupported('concatenation')
        ex.oblige('there is something to concatenate', c.shape[0] > 0)
        i = fresh('v')
        cases = [(Z(a), b) for a, b in c.get(i) if not z3.is_false(z3.simplify(Z(a)))]
        live = [(a, b) for a, b in cases if not (len(cases) > 1 and ex.prove(Not(a), ex.st.pc + [i >= 0, i < c.shape[0]]))]
        if any(not isinstance(b, X.Bag) for a, b in live):
            raise Unsupported('concatenation of %s' % [type(b).__name__ for a, b in live])
        b0 = live[0][1]
        if any(len(b.dims) != len(b0.dims) or any(not callable(x) and not callable(y) and not x.eq(y) for x, y in zip(b.dims, b0.dims)) for a, b in live[1:]):
            raise Unsupported('concatenation of different event lists')
        def at(f, *vs):
            cs = [(Z(a), b) for a, b in c.get(vs[0])]
            cs = [x for x in cs if isinstance(x[1], X.Bag)]
            r = Z(f(cs[-1][1])(*vs[1:]))
            for a, b in reversed(cs[:-1]):
                r = ite(a, Z(f(b)(*vs[1:])), r)
            return r
        dims = [c.shape[0]] + [(lambda *vs, d=d: at(lambda b: (lambda *w: Z(d(*w)) if callable(d) else d), *vs)) if callable(d) or X.has(d, i) else d for d in b0.dims]
        dims = [c.shape[0]] + [d if not (callable(d) or X.has(d, i)) else (lambda *vs, j=j: dim_at(c, j, vs)) for j, d in enumerate(b0.dims)]
        return ex.new(X.Bag(dims, lambda *vs: at(lambda b: b.mult, *vs), lambda *vs: at(lambda b: b.elem, *vs), b0.dtype, b0.bound if b0.bound is not None and not X.has(b0.bound, i) else None))
    # ---------------- attributes and methods
    def method(self, o, name):
        ex = self.ex
        raw = ex.raw(o)
        B = lambda f: X.Builtin(name, f)
        if isinstance(raw, X.ListC):
            if name == 'append':
                return B(lambda a, k: self.append(o, a[0]))
            raise Unsupported('list.%s' % name)
        if isinstance(raw, X.DictC):
            if name == 'items':
                return B(lambda a, k: tuple(raw.d.items()))
            if name == 'get':
                return B(lambda a, k: raw.d.get(a[0], a[1] if len(a) > 1 else None))
            if name == 'update':
                def upd(a, k):
                    d = dict(ex.raw(o).d)
                    if a:
                        d.update(ex.raw(a[0]).d)
                    d.update(k)
                    ex.st.heap[o.id] = X.DictC(d)
                return B(upd)
            if name == 'keys':
                return B(lambda a, k: tuple(raw.d))
            raise Unsupported('dict.%s' % name)
        c = self.snap(o)
        if name == 'shape':
            if isinstance(c, X.Bag):
                return (self.length(o),)
            if isinstance(c, X.Rows):
                return (self.length(o),) + tuple(c.oa.shape[1:])
            return tuple(simp(s) for s in c.shape)
        if name == 'ndim':
            return 1 if isinstance(c, X.Bag) else len(c.shape)
        if name == 'size':
            return self.length(o) if isinstance(c, X.Bag) else simp(self.prod(c.shape))
        if name == 'dtype':
            return X.DT('obj') if isinstance(c, (X.OA, X.Rows)) else c.dtype
        if name == 'T':
            if len(c.shape) == 1:
                return o
            if len(c.shape) == 2:
                return ex.new(X.View(o, (c.shape[1], c.shape[0]), lambda i, j: (j, i), lambda i, j: (TRUE, (j, i))))
            raise Unsupported('transpose')
        if name in ('ravel', 'flatten'):
            if isinstance(c, X.Bag):
                return B(lambda a, k: o if name == 'ravel' else ex.new(c))
            return B(lambda a, k: self.reshape(o if name == 'ravel' else ex.new(c), [-1]))
        if name == 'reshape':
            return B(lambda a, k: self.reshape(o, self.shapeval(a[0]) if len(a) == 1 else [self.intval(x) for x in a]))
        if name == 'astype':
            return B(lambda a, k: self.astype(o, self.dtype(a[0])))
        if name == 'copy':
            return B(lambda a, k: ex.new(c))
        if name == 'any':
            return B(lambda a, k: self.anyall(o, True))
        if name == 'all':
            return B(lambda a, k: self.anyall(o, False))
        if name == 'sum':
            return B(lambda a, k: self.f_sum([o] + a, k))
        if name == 'max':
            return B(lambda a, k: self.extremum(o, True, k.get('initial')))
        if name == 'min':
            return B(lambda a, k: self.extremum(o, False, k.get('initial')))
        if name == 'fill':
            return B(lambda a, k: self.set_item(o, X.SliceV(None, None, None), a[0]))
        raise Unsupported('array method %s' % name)
    def scalar_attr(self, o, name):
        B = lambda f: X.Builtin(name, f)
        if name == 'astype':
            return B(lambda a, k: self.cast_scalar(o, self.dtype(a[0])))
        if name in ('any', 'all'):
            return B(lambda a, k: self.ex.truth(o))
        if name == 'item':
            return B(lambda a, k: o)
        if name in ('ravel', 'flatten'):
            return B(lambda a, k: self.ex.new(X.D([1], lambda i: Z(o), X.DT('i8' if Z(o).sort() == INT else 'f8'))))
        if name == 'reshape':
            return B(lambda a, k: self.reshape(self.ex.new(X.D([1], lambda i: Z(o), X.DT('i8' if Z(o).sort() == INT else 'f8'))), self.shapeval(a[0] if len(a) == 1 else tuple(a))))
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        raise Unsupported('attribute %s of a number' % name)
    # ---------------- np.*
    DTYPES = {'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'float32': 'f4',
              'float64': 'f8', 'bool_': 'bool', 'integer': 'integer', 'floating': 'floating', 'number': 'number', 'intp': 'i8'}
    def attr(self, name):
        if name in self.DTYPES:
            return X.DT(self.DTYPES[name])
        if name in ('nan', 'NaN'):
            return X.NAN
        if name == 'newaxis':
            return None
        if name == 'ndarray':
            return X.Builtin('ndarray', None)
        if name == 'pi':
            return z3.Real('pi')
        f = getattr(self, 'f_' + name, None)
        if f is None:
            raise Unsupported('np.%s' % name)
        return X.Builtin('np.' + name, f)
    def f_zeros(self, a, k, val=0):
        shape = self.shapeval(a[0] if a else k['shape'])
        dt = self.dtype(a[1] if len(a) > 1 else k.get('dtype'))
        if dt.kind() == 'obj':
            raise Unsupported('zeros of objects')
        v = self.cast_scalar(val, dt)
        # a numpy float array may hold NaN
        if dt.kind() == 'real' and getattr(self.ex, 'nan_arrays', False):
            v = X.asF(v)
        return self.ex.new(X.D(shape, lambda *i: v, dt))
    def f_ones(self, a, k):
        return self.f_zeros(a, k, 1)
    def f_full(self, a, k):
        v = a[1] if len(a) > 1 else k['fill_value']
        dt = a[2] if len(a) > 2 else k.get('dtype')
        dt = self.dtype(dt) if dt is not None else self.sort_dtype(v)
        return self.f_zeros([a[0], dt], {}, v)
    def f_empty(self, a, k):
        shape = self.shapeval(a[0] if a else k['shape'])
        dt = self.dtype(a[1] if len(a) > 1 else k.get('dtype'))
        if dt.kind() == 'obj':
            return self.ex.new(X.OA(shape, lambda *i: [(TRUE, None)]))
        f = self.th.fn('uninit', len(shape), {'int': INT, 'real': REAL, 'bool': BOOL}[dt.kind()])
        return self.ex.new(X.D(shape, lambda *i: f(*[Z(x) for x in i]), dt))
    def like(self, f, a, k):
        c = self.snap(a[0])
        return f([tuple(c.shape), k.get('dtype', c.dtype)] , {})
    def f_zeros_like(self, a, k):
        return self.like(self.f_zeros, a, k)
    def f_empty_like(self, a, k):
        return self.like(self.f_empty, a, k)
    def f_arange(self, a, k):
        a = [self.intval(x) for x in a]
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2:
            raise Unsupported('arange step')
        n = simp(Z(hi) - Z(lo))
        kc = const_of(n)
        return self.ex.new(X.D([n], lambda i: z3.simplify(Z(i) + lo), X.DT('i8')))
    def f_prod(self, a, k):
        xs = self.tolist(a[0])
        if xs is None:
            raise Unsupported('np.prod')
        r = 1
        for x in xs:
            r = self.scal('Mult', r, x)
        return r
    def f_sum(self, a, k):
        if k.get('axis') is not None or len(a) > 1:
            raise Unsupported('np.sum over an axis')
        return self.total(a[0])
    def f_mean(self, a, k):
        c = self.asbag(self.snap(a[0]))
        n = self.bagsum(c, lambda vs: z3.IntVal(1))
        self.check('no division by zero', n != 0)
        return real(self.total(a[0])) / real(n)
    def f_count_nonzero(self, a, k):
        b = self.asbag(self.snap(a[0]))
        return self.bagsum(b, lambda vs: truth(b.elem(*vs)))
    def f_max(self, a, k):
        return self.extremum(a[0], True, k.get('initial'))
    f_amax = f_max
    def f_min(self, a, k):
        return self.extremum(a[0], False, k.get('initial'))
    f_amin = f_min
    def f_any(self, a, k):
        return self.anyall(a[0], True)
    def f_all(self, a, k):
        return self.anyall(a[0], False)
    def f_maximum(self, a, k):
        return self.wrap(self.elementwise(lambda x, y: mm(x, y, True), a[0], a[1]))
    def f_minimum(self, a, k):
        return self.wrap(self.elementwise(lambda x, y: mm(x, y, False), a[0], a[1]))
    def f_sqrt(self, a, k):
        return self.wrap(self.elementwise(lambda x: X.F(x.nan, SQRT(x.val)) if isinstance(x, X.F) else SQRT(real(X.num(x))), a[0]))
    def f_hypot(self, a, k):
        sq = lambda x: real(X.num(x)) * real(X.num(x))
        return self.wrap(self.elementwise(lambda x, y: SQRT(sq(x) + sq(y)), a[0], a[1]))
    def f_square(self, a, k):
        return self.binop('Pow', a[0], 2)
    def f_log2(self, a, k):
        return Log2(Z(a[0]))
    def f_isnan(self, a, k):
        return self.wrap(self.elementwise(lambda x: x.nan if isinstance(x, X.F) else False, a[0]))
    def f_logical_and(self, a, k):
        return self.wrap(self.elementwise(lambda x, y: And(truth(x), truth(y)), a[0], a[1]))
    def f_logical_or(self, a, k):
        return self.wrap(self.elementwise(lambda x, y: Or(truth(x), truth(y)), a[0], a[1]))
    def f_logical_not(self, a, k):
        return self.wrap(self.elementwise(lambda x: Not(truth(x)), a[0]))
    def f_unique(self, a, k):
        return self.unique(a[0], bool(k.get('return_counts')))
    def f_concatenate(self, a, k):
        return self.concatenate(a[0])
    f_hstack = f_concatenate
    def f_append(self, a, k):
        x, y = a
        cx = self.snap(x)
        ly = self.ex.raw(y) if isinstance(y, X.Ref) else None
        if isinstance(cx, X.D) and len(cx.shape) == 1:
            return self.ex.new(Cat([self.dense_bag(cx), self.snap(self.array(y)) if isinstance(ly, X.ListC) else self.snap(y)]))
        raise Unsupported('np.append')
    def f_array(self, a, k):
        dt = a[1] if len(a) > 1 else k.get('dtype')
        return self.array(a[0], self.dtype(dt) if dt is not None else None)
    def f_asarray(self, a, k):
        if isinstance(a[0], X.Ref) and X.is_arr(self.snap(a[0])) and not k and len(a) == 1:
            return a[0]
        if isinstance(a[0], X.SelV):
            return a[0]
        return self.f_array(a, k)
    def f_ravel(self, a, k):
        return self.reshape(a[0], [-1])
    def f_reshape(self, a, k):
        return self.reshape(a[0], self.shapeval(a[1]))
    def f_where(self, a, k):
        if len(a) == 3:
            return self.wrap(self.elementwise(lambda c, x, y: X.fite(truth(c), X.Zv(x), X.Zv(y)) if sorts_agree(x, y) else X.fite(truth(c), real(x), real(y)), *a))
        c = self.snap(a[0])
        return self.nonzero(c)
    def f_nonzero(self, a, k):
        return self.nonzero(self.snap(a[0]))
    def f_flatnonzero(self, a, k):
        c = self.snap(a[0])
        r = self.nonzero(c)
        if len(r) != 1:
            raise Unsupported('flatnonzero')
        return r[0]
    def nonzero(self, c):
        if isinstance(c, X.Bag):
            m = lambda *vs: ite(truth(c.elem(*vs)), Z(c.mult(*vs)), z3.IntVal(0))
            return (self.ex.new(c.with_(mult=m, elem=lambda *vs: self.unsup('the place in a list'), dtype=X.DT('i8'), rep=None, bound=None)),)
        if isinstance(c, X.D):
            m = lambda *vs: ite(truth(c.read(*vs)), z3.IntVal(1), z3.IntVal(0))
            return tuple(self.ex.new(X.Bag(c.shape, m, (lambda *vs, i=i: vs[i]), X.DT('i8'))) for i in range(len(c.shape)))
        raise Unsupported('np.where')
    def f_ravel_multi_index(self, a, k):
        xs = self.tolist(a[0])
        shape = self.shapeval(a[1])
        def f(*i):
            r = z3.IntVal(0)
            for x, s in zip(i, shape):
                self.check('the index is within the shape', And(Z(x) >= 0, Z(x) < Z(s)))
                r = r * Z(s) + Z(x)
            return z3.simplify(r)
        return self.wrap(self.elementwise(f, *xs))
    def f_unravel_index(self, a, k):
        shape = self.shapeval(a[1])
        n = self.prod(shape)
        def mk(j):
            def f(x):
                x = Z(x)
                self.check('the index is within the shape', And(x >= 0, x < n))
                for s in reversed(shape[j + 1:]):
                    x = x / Z(s)
                return x % Z(shape[j]) if j else x
            return f
        r = [self.elementwise(mk(j), a[0]) for j in range(len(shape))]
        return tuple(self.wrap(x.with_(dtype=X.DT('i8'), bound=None) if isinstance(x, X.Bag) else x) for x in r)
    def f_indices(self, a, k):
        shape = self.shapeval(a[0])
        return tuple(self.ex.new(X.D(shape, (lambda *i, j=j: Z(i[j])), X.DT('i8'))) for j in range(len(shape)))
    def f_histogram(self, a, k):
        c = self.snap(a[0])
        bins = k.get('bins', a[1] if len(a) > 1 else None)
        if 'range' in k or 'weights' in k or 'density' in k:
            raise Unsupported('np.histogram')
        if isinstance(bins, X.RangeV) and bins.step == 1:
            lo, hi = Z(bins.a), Z(bins.b)
        elif isinstance(bins, X.Ref):
            d = self.snap(bins)
            i = fresh('i')
            if not isinstance(d, X.D) or len(d.shape) != 1:
                raise Unsupported('np.histogram')
            lo = z3.simplify(Z(d.read(z3.IntVal(0))))
            if not z3.simplify(Z(d.read(i)) - i - lo).eq(z3.IntVal(0)):
                raise Unsupported('np.histogram')
            hi = lo + d.shape[0]
        else:
            raise Unsupported('np.histogram')
        n = simp(hi - lo - 1)
        self.check('the histogram has an edge', Z(n) >= 0)
        b = self.asbag(c)
        def read(j):
            j = Z(j)
            e0, e1 = real(z3.simplify(lo + j)), real(z3.simplify(lo + j + 1))
            def f(vs):
                x = real(X.num(b.elem(*vs)))
                return Or(And(x >= e0, x < e1), And(j == n - 1, x == e1))
            return self.bagsum(b, f)
        return (self.ex.new(X.D([n], read, X.DT('i8'))), None)
    def f_bincount(self, a, k):
        b = self.snap(a[0])
        w = k.get('weights', a[1] if len(a) > 1 else None)
        n = Z(k.get('minlength', a[2] if len(a) > 2 else 0))
        if not isinstance(b, X.Bag):
            raise Unsupported('np.bincount')
        if w is not None:
            b, w = self.align([b, self.snap(w)])
        vs = b.vars()
        e = Z(b.elem(*vs))
        self.ex.oblige('the binned values are below minlength', And(e >= 0, e < n), [b.inside(vs)])
        def read(j):
            vs = b.vars()
            m = Z(b.mult(*vs))
            x = z3.IntVal(1) if w is None else real(w.elem(*vs))
            t = m if w is None else real(m) * x
            return self.nest(vs, [b.dim(i, vs) for i in range(len(vs))], Z(b.elem(*vs)) == Z(j), t)
        return self.ex.new(X.D([n], read, X.DT('i8' if w is None else 'f8')))
    def f_repeat(self, a, k):
        c = self.snap(a[0])
        n = a[1]
        if isinstance(c, X.D) and len(c.shape) == 1 and (isinstance(n, int) or X.is_term(n)):
            n = Z(n)
            return self.ex.new(X.D([z3.simplify(c.shape[0] * n)], lambda i: c.read(Z(i) / n), c.dtype))
        if isinstance(c, X.Bag):
            cn = self.snap(self.array(n) if isinstance(self.ex.raw(n), X.ListC) else n)
            x, y = self.align([c, cn])
            return self.ex.new(X.Bag(x.dims + [lambda *vs: Z(y.elem(*vs))], lambda *vs: x.mult(*vs[:-1]), lambda *vs: x.elem(*vs[:-1]), c.dtype, c.bound, rep=lambda *vs: y.elem(*vs)))
        raise Unsupported('np.repeat')
    def f_nanmean(self, a, k):
        return self.nanmean(a[0], k.get('axis', a[1] if len(a) > 1 else None))
    def f_nan_to_num(self, a, k):
        x = k.get('nan', 0)
        f = lambda v: X.fite(X.asF(v).nan, x if isinstance(x, X.F) else real(Z(x)), v)
        if k.get('copy') is False:
            c = self.snap(a[0])
            self.write(a[0], lambda *i: TRUE, lambda *i: f(c.read(*i)))
            return a[0]
        return self.wrap(self.elementwise(f, a[0]))
    def f_issubdtype(self, a, k):
        x, t = self.dtype(a[0]), a[1]
        n = t.name
        if x.name == 'user':
            return z3.Bool('user_dtype_is_' + n)
        return {'integer': x.kind() == 'int', 'floating': x.kind() == 'real', 'number': x.kind() != 'bool'}[n]
    def f_iinfo(self, a, k):
        return Info()
    f_finfo = f_iinfo
    def f_dtype(self, a, k):
        return self.dtype(a[0])
    def f_isscalar(self, a, k):
        return X.is_num(a[0])
    def f_add(self, a, k):
        return self.binop('Add', a[0], a[1])

class Info:
    def pyattr(self, ex, name):
        if name == 'max':
            return MAXV
        raise Unsupported('iinfo.%s' % name)
class SetLen:
    """the number of different values of a set"""
    def __init__(self, segs):
        self.segs = segs
class Cat:
    def __init__(self, parts):
        self.parts = parts

def dim_at(c, j, vs):
    cs = [(Z(a), b) for a, b in c.get(vs[0]) if isinstance(b, X.Bag)]
    r = cs[-1][1].dim(j, vs[1:])
    for a, b in reversed(cs[:-1]):
        r = ite(a, b.dim(j, vs[1:]), r)
    return r
def simp(t):
    k = const_of(t)
    return k if k is not None else z3.simplify(Z(t))
def Zn(x):
    return x if isinstance(x, X.F) else Z(x)
def sorts_agree(x, y):
    if isinstance(x, X.F) or isinstance(y, X.F):
        return True
    return Z(x).sort() == Z(y).sort()
def truth(x):
    if isinstance(x, X.F):
        return Or(x.nan, x.val != 0)
    x = Z(x)
    return x if x.sort() == BOOL else x != 0
def mm(x, y, mx):
    if isinstance(x, X.F) or isinstance(y, X.F):
        raise Unsupported('maximum of floats that may be NaN')
    x, y = X.num(x), X.num(y)
    if x.sort() != y.sort():
        x, y = real(x), real(y)
    return z3.If(x > y, x, y) if mx else z3.If(x < y, x, y)

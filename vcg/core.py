"""Terms, arrays and the prover shared by the C++ and the Python verification-condition
generators.

* Integers are mathematical polynomials over atoms (Poly).  Products of atoms are abstracted by
  fresh constants, about which true instances of the monotonicity of multiplication are added
  (lemmas()), so that the back end only sees linear arithmetic.
* Arrays are symbolic bases (uninterpreted functions) under stores and if-then-else; reads are
  expanded.  Universally quantified facts are attached to a base and instantiated at every index
  at which the base is read (`facts`), so queries are quantifier free.
* A query asks z3 whether the negated goal is consistent with the hypotheses (cvc5 is asked when
  z3 does not know)."""
import itertools, os, subprocess, tempfile, time
import z3

class Unsupported(Exception):
    """a construct outside the verifier's reach; reported as an undischarged obligation"""

# ---------------------------------------------------------------- polynomials
_atoms = {}        # z3 ast id -> (z3 term)
_mono = {}         # monomial (tuple of atom ids, len>=2) -> z3 const
_mono_by_id = {}   # ast id of the constant -> monomial

def reset():
    _atoms.clear(); _mono.clear(); _mono_by_id.clear(); _ites.clear(); _symcache.clear(); _order.clear(); _monocache.clear()

def _mono_const(m):
    c = _mono.get(m)
    if c is None:
        c = z3.Int('m!%d' % len(_mono))
        _mono[m] = c
        _mono_by_id[c.get_id()] = m
        _atoms[c.get_id()] = c
    return c

class Poly:
    __slots__ = ('t', '_z')
    def __init__(self, t):
        self.t = t
        self._z = None
    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})
    @staticmethod
    def atom(a):
        i = a.get_id()
        _atoms[i] = a
        m = _mono_by_id.get(i)
        return Poly({m if m else (i,): 1})
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const_value(self):
        return self.t.get((), 0)
    def __add__(self, o):
        o = P(o)
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        return self + (-P(o))
    def __rsub__(self, o):
        return P(o) - self
    def __mul__(self, o):
        o = P(o)
        if len(self.t) * len(o.t) > 400:
            raise Unsupported('polynomial too large')
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                s = r.get(m, 0) + c1 * c2
                if s:
                    r[m] = s
                else:
                    r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def divexact(self, k):
        """the polynomial divided by the integer k if every coefficient is divisible, else None"""
        if any(c % k for c in self.t.values()):
            return None
        return Poly({m: c // k for m, c in self.t.items()})
    def key(self):
        return tuple(sorted(self.t.items()))
    def same(self, o):
        return self.t == P(o).t
    def z(self):
        if self._z is None:
            parts = []
            c0 = 0
            for m, c in sorted(self.t.items()):
                if m == ():
                    c0 = c
                    continue
                a = _atoms[m[0]] if len(m) == 1 else _mono_const(m)
                parts.append(a if c == 1 else c * a)
            if not parts:
                self._z = z3.IntVal(c0)
            else:
                if c0:
                    parts.append(z3.IntVal(c0))
                self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z
    def atoms(self):
        return set(itertools.chain.from_iterable(self.t))
    # comparisons give z3 Bools
    def _cmp(self, o, f):
        d = self - P(o)
        if d.is_const():
            return z3.BoolVal(f(d.const_value(), 0))
        return None
    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return r if r is not None else self.z() <= P(o).z()
    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return r if r is not None else self.z() < P(o).z()
    def __ge__(self, o):
        return P(o) <= self
    def __gt__(self, o):
        return P(o) < self
    def eq(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r if r is not None else self.z() == P(o).z()
    def ne(self, o):
        return Not(self.eq(o))
    def __repr__(self):
        return str(self.z()) if len(self.t) < 12 else '<poly>'

def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return Poly.const(int(x))
    if z3.is_int_value(x):
        return Poly.const(x.as_long())
    return Poly.atom(x)

_fresh = itertools.count()
def fresh_int(name='v'):
    return Poly.atom(z3.Int('%s!%d' % (name, next(_fresh))))
def fresh_real(name='x'):
    return z3.Real('%s!%d' % (name, next(_fresh)))
def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, next(_fresh)))

# ---------------------------------------------------------------- booleans
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*xs):
    r = []
    for x in xs:
        x = B(x)
        if z3.is_false(x):
            return FALSE
        if not z3.is_true(x):
            r.append(x)
    return TRUE if not r else r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        x = B(x)
        if z3.is_true(x):
            return TRUE
        if not z3.is_false(x):
            r.append(x)
    return FALSE if not r else r[0] if len(r) == 1 else z3.Or(*r)
def Not(x):
    x = B(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    return Or(Not(a), b)
def iteP(c, a, b):
    """if-then-else on polynomials"""
    a, b = P(a), P(b)
    if z3.is_true(c) or a.same(b):
        return a
    if z3.is_false(c):
        return b
    if len(b.t) == 1 and b.atoms():
        t = _ites.get(next(iter(b.atoms())))
        if t is not None and a.same(t[1]) and Poly.atom(t[3]).same(b):
            return iteP(Or(c, t[0]), a, t[2])
    # share the common part
    d = a - b
    if len(d.t) <= 1 and not d.is_const() and len(b.t) > 1:
        t = z3.If(c, d.z(), z3.IntVal(0))
        _ites[t.get_id()] = (c, d, P(0), t)
        return b + Poly.atom(t)
    t = z3.If(c, a.z(), b.z())
    _ites[t.get_id()] = (c, a, b, t)
    return Poly.atom(t)
_ites = {}
def substP(p, m):
    """replace atoms by polynomials"""
    r = P(0)
    for mono, c in p.t.items():
        x = P(c)
        for a in mono:
            x = x * (m[a] if a in m else Poly({(a,): 1}))
        r = r + x
    return r
def iteR(c, a, b):
    if z3.is_true(c) or a.eq(b):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)
def iteB(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return Or(And(c, a), And(Not(c), b))

# ---------------------------------------------------------------- hypotheses
class Ctx:
    """collects hypotheses that hold unconditionally (definitions, type ranges, instances of
    quantified facts, each carrying its own guard)"""
    def __init__(self):
        self.hyps = []
        self._seen = set()
        self.queries = 0
        self.solver_time = 0.0
        self.cache = {}
        self.ranges = {}
        self.instantiating = 0
        self.divs = {}
        self.scale = float(os.environ.get('VCG_SCALE') or 1)
        self.timeout = 8000
        self.fp_monotone = False
        self.verbose = False
        self.scoped = []        # ids of symbols that stand for one pass over a loop, or one query
    def kill(self, mark):
        """forget the facts about the symbols scoped since mark: nothing mentions these symbols any more"""
        dead = set(self.scoped[mark:])
        del self.scoped[mark:]
        if dead:
            keep = []
            for h in self.hyps:
                if symbols(h) & dead:
                    self._seen.discard(h.get_id())
                else:
                    keep.append(h)
            self.hyps = keep
    def add(self, f):
        f = B(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self._seen:
            return
        self._seen.add(i)
        self.hyps.append(f)

    def setrange(self, p, lo, hi):
        """declare an atom together with its range"""
        self.add(And(p >= lo, p <= hi))
        self.ranges[next(iter(p.t))[0]] = (lo, hi)
        return p
    def interval(self, p):
        """(lo, hi) from the ranges of the atoms, None where unknown"""
        lo = hi = 0
        for m, c in p.t.items():
            a = b = 1
            for x in m:
                r = self.ranges.get(x)
                if r is None and x in _ites:
                    t = _ites[x]
                    u, v = self.interval(t[1]), self.interval(t[2])
                    if u[0] is not None and v[0] is not None:
                        r = self.ranges[x] = (min(u[0], v[0]), max(u[1], v[1]))
                if r is None:
                    return None, None
                cs = [a * r[0], a * r[1], b * r[0], b * r[1]]
                a, b = min(cs), max(cs)
            if c >= 0:
                lo, hi = lo + c * a, hi + c * b
            else:
                lo, hi = lo + c * b, hi + c * a
        return lo, hi

    # Euclidean division by a positive divisor (C division on non-negative operands)
    def divmod(self, a, b):
        a, b = P(a), P(b)
        if a.is_const() and b.is_const() and b.const_value() > 0:
            return P(a.const_value() // b.const_value()), P(a.const_value() % b.const_value())
        if b.is_const() and b.const_value() > 0:
            k = b.const_value()
            e = a.divexact(k)
            if e is not None:
                return e, P(0)
            rest = Poly({m: c % k for m, c in a.t.items() if c % k})
            lo, hi = self.interval(rest)
            if lo is not None and lo >= 0 and hi < k:
                return (a - rest).divexact(k), rest
        k = (a.key(), b.key())
        r = self.divs.get(k)
        if r is None:
            q, m = fresh_int('q'), fresh_int('r')
            self.divs[k] = (q, m)
            pos = b >= 1
            lo, hi = self.interval(a)
            blo, bhi = self.interval(b)
            if blo is not None and blo >= 1:
                self.ranges[next(iter(m.t))[0]] = (0, bhi - 1)
                if lo is not None:
                    c = [lo // blo, hi // blo, lo // bhi, hi // bhi]
                    self.ranges[next(iter(q.t))[0]] = (min(c), max(c))
            self.add(Implies(pos, And(a.eq(q * b + m), m >= 0, m < b)))
            self.add(Implies(And(pos, a >= 0), q >= 0))
            self.add(Implies(And(pos, a >= 0), q <= a))
            self.add(Implies(And(pos, a < b, a >= 0), And(q.eq(0), m.eq(a))))
            r = (q, m)
        return r

    # ---- queries
    def check(self, hyps, goal, timeout=None, rounds=200):
        """'proved' | 'refuted' (a model exists for the abstraction) | 'unknown'"""
        goal = B(goal)
        if z3.is_true(goal):
            return 'proved'
        t0 = time.time()
        self.queries += 1
        fs = list(hyps) + [Not(goal)]
        sel = self.relevant(fs)
        s = z3.Solver()
        budget = (timeout or self.timeout) / 1000.0 * self.scale
        s.set('timeout', int(budget * 1000))
        for f in fs:
            s.add(f)
        for f in sel:
            s.add(f)
        if self.fp_monotone:
            for l in fp_lemmas(fs + sel):
                s.add(l)
        lem = Lemmas(fs + sel)
        res = 'unknown'
        self.model = None
        for rnd_ in range(rounds):
            r = s.check()
            if r == z3.unsat:
                res = 'proved'
                break
            if r == z3.unknown:
                break
            left = budget - (time.time() - t0)
            new = lem.violated(s.model()) if lem.mons else []
            if not new:
                res = 'refuted'
                self.model = s.model()
                break
            if left <= 0:
                break
            s.set('timeout', max(1, int(left * 1000)))
            for l in new:
                s.add(l)
        self.lemmas_used = lem.used
        self.rounds = rnd_
        self.solver_time += time.time() - t0
        return res

    def relevant(self, fs):
        """hypotheses connected to the formulas by shared symbols"""
        if len(self.hyps) < 40:
            return list(self.hyps)
        syms = set()
        for f in fs:
            syms |= symbols(f)
        rest = [(h, symbols(h)) for h in self.hyps]
        out = []
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            new = []
            add = set()
            for h, sy in rest:
                if sy & syms or not sy:
                    out.append(h)
                    add |= sy
                else:
                    new.append((h, sy))
            rest = new
            if add - syms:
                syms |= add
                changed = True
        return out

_order = {}
def order(t):
    """a number for the term, the same whenever it is asked for (z3's own ids are reused)"""
    return _order.setdefault(t.get_id(), (len(_order), t))[0]

_symcache = {}
def symbols(f):
    i = f.get_id()
    r = _symcache.get(i)
    if r is not None:
        return r[1]
    out = set()
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        c = _symcache.get(j)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    m = _mono_by_id.get(j)
                    if m:
                        out.add(j)
                        for a in m:
                            out |= symbols(_atoms[a])
                    else:
                        out.add(j)
            else:
                stack.extend(x.children())
    r = frozenset(out)
    _symcache[i] = (f, r)
    return r

_monocache = {}
def monos_of(f):
    """monomial constants occurring in f (also inside atoms of monomials)"""
    return [s for s in symbols(f) if s in _mono_by_id]

class Lemmas:
    """true instances of the ordering properties of multiplication, added when a model violates
    them (the abstraction of products by constants is refined on demand)"""
    def __init__(self, fs):
        ms = set()
        for f in fs:
            for s in symbols(f):
                if s in _mono_by_id:
                    ms.add(s)
        self.mons = {}
        for s in sorted(ms):
            self.mons[_mono_by_id[s]] = _atoms[s]
        self.used = []
        self.tangents = 0
        self._pairs()
    def _pairs(self):
        ms = sorted(self.mons)
        self.splits = []
        for m in ms:
            seen = set()
            for i in range(len(m)):
                f, g = (m[i],), m[:i] + m[i + 1:]
                if f in seen or g in seen:
                    continue
                seen.add(f)
                self.splits.append((m, f, g))
        self.pairs = []
        for m1, m2 in itertools.combinations(ms, 2):
            common = set(m1) & set(m2)
            if not common:
                continue
            facs = set((a,) for a in common)
            for f in itertools.combinations(m1, 2):
                if minus(m2, f) is not None:
                    facs.add(f)
            for f in facs:
                a, b = minus(m1, f), minus(m2, f)
                if a and b:
                    self.pairs.append((m1, m2, f, a, b))
        # a product and one of its factors' lower-degree companions: f*a compared with f
    def violated(self, model):
        val = {}
        def v(m):
            r = val.get(m)
            if r is None:
                if not m:
                    return 1
                t = _atoms[m[0]] if len(m) == 1 else _mono_const(m)
                x = model.eval(t, model_completion=True)
                r = val[m] = x.as_long() if z3.is_int_value(x) else 0
            return r
        def z(m):
            return _atoms[m[0]] if len(m) == 1 else _mono_const(m)
        true = {}
        wrong = []
        for m in self.mons:
            p = 1
            for a in m:
                p *= v((a,))
            if v(m) != p:
                wrong.append(m)
        if not wrong:
            return []
        out = []
        for m, f, g in self.splits:
            c, F, G = v(m), v(f), v(g)
            if c == F * G:
                continue
            zc, zf, zg = z(m), z(f), z(g)
            n0 = len(out)
            if F >= 0 and G >= 0 and c < 0:
                out.append(z3.Implies(z3.And(zf >= 0, zg >= 0), zc >= 0))
            if F >= 1 and G >= 1 and (c < F or c < G):
                out.append(z3.Implies(z3.And(zf >= 1, zg >= 1), z3.And(zc >= zf, zc >= zg)))
            if (F == 0 or G == 0) and c != 0:
                out.append(z3.Implies(z3.Or(zf == 0, zg == 0), zc == 0))
            if F == 1 and c != G:
                out.append(z3.Implies(zf == 1, zc == zg))
            if G == 1 and c != F:
                out.append(z3.Implies(zg == 1, zc == zf))
            if F == -1 and c != -G:
                out.append(z3.Implies(zf == -1, zc == -zg))
            if G == -1 and c != -F:
                out.append(z3.Implies(zg == -1, zc == -zf))
            if f == g:
                if c < 0 or (c < F or c < -F):
                    out.append(z3.And(zc >= 0, zc >= zf, zc >= -zf))
            else:
                if (F >= 0 and G <= 0 or F <= 0 and G >= 0) and c > 0:
                    out.append(z3.Implies(z3.Or(z3.And(zf >= 0, zg <= 0), z3.And(zf <= 0, zg >= 0)), zc <= 0))
                if F <= 0 and G <= 0 and c < 0:
                    out.append(z3.Implies(z3.And(zf <= 0, zg <= 0), zc >= 0))
        for m1, m2, f, a, b in self.pairs:
            F, A, Bv, c1, c2 = v(f), v(a), v(b), v(m1), v(m2)
            if F < 0 or c1 == F * A and c2 == F * Bv:
                continue
            d = A - Bv
            # A <= B + d  =>  c1 <= c2 + d F   (F >= 0), for the difference in the model and small ones
            for k in {-2, -1, 0, 1, 2} | ({d} if abs(d) < 1 << 20 else set()):
                if A <= Bv + k and not c1 <= c2 + k * F:
                    out.append(z3.Implies(z3.And(z(f) >= 0, z(a) <= z(b) + k), z(m1) <= z(m2) + k * z(f)))
                if Bv <= A + k and not c2 <= c1 + k * F:
                    out.append(z3.Implies(z3.And(z(f) >= 0, z(b) <= z(a) + k), z(m2) <= z(m1) + k * z(f)))
            if len(out) > 60:
                break
        if not out and self.tangents < 60:
            for m, f, g in self.splits:
                c, F, G = v(m), v(f), v(g)
                if c == F * G:
                    continue
                self.tangents += 1
                zc, zf, zg = z(m), z(f), z(g)
                if c < F * G:
                    out.append(z3.Implies(z3.Or(z3.And(zf >= F, zg >= G), z3.And(zf <= F, zg <= G)), zc >= G * zf + F * zg - F * G))
                else:
                    out.append(z3.Implies(z3.Or(z3.And(zf >= F, zg <= G), z3.And(zf <= F, zg >= G)), zc <= G * zf + F * zg - F * G))
                if len(out) > 8:
                    break
        if not out:
            # equal factors, equal products
            for m1, m2 in itertools.combinations(sorted(self.mons), 2):
                if len(m1) == 2 == len(m2) and not set(m1) & set(m2) and v(m1) != v(m2):
                    for x, y in (m2, m2[::-1]):
                        if v((m1[0],)) == v((x,)) and v((m1[1],)) == v((y,)):
                            out.append(z3.Implies(z3.And(z((m1[0],)) == z((x,)), z((m1[1],)) == z((y,))), z(m1) == z(m2)))
                            break
                    if len(out) > 20:
                        break
        self.used += out
        return out

def minus(m, f):
    m = list(m)
    for x in f:
        if x in m:
            m.remove(x)
        else:
            return None
    return tuple(m)

def fp_lemmas(fs):
    """rounding is monotone"""
    out = []
    apps = {}
    seen = set()
    stack = list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in ('rnd32', 'rnd64') and x.num_args() == 1:
                apps.setdefault(x.decl().name(), []).append(x)
            stack.extend(x.children())
    for n, l in apps.items():
        for a, b in itertools.combinations(l[:12], 2):
            out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b))
            out.append(z3.Implies(b.arg(0) <= a.arg(0), b <= a))
    return out

# ---------------------------------------------------------------- arrays
class Base:
    """an array of unknown contents; sort 'int' | 'real'"""
    __slots__ = ('name', 'sort', 'arity', 'f', 'facts', 'ctx', 'lo', 'hi', 'done', 'byint')
    def __init__(self, ctx, name, sort, arity=1, lo=None, hi=None):
        self.ctx, self.sort, self.arity, self.lo, self.hi = ctx, sort, arity, lo, hi
        self.name = '%s!%d' % (name, next(_fresh))
        self.f = z3.Function(self.name, *([z3.IntSort()] * arity + [z3.IntSort() if sort == 'int' else z3.RealSort()]))
        self.facts = []
        self.done = set()
    def read(self, idx):
        t = self.f(*[P(i).z() for i in idx])
        ctx = self.ctx
        k = tuple(P(i).key() for i in idx)
        depth = getattr(ctx, 'factdepth', 0)
        if k not in self.done and depth <= 3:            # (facts about facts about ...: a few levels only)
            self.done.add(k)
            if self.sort == 'int':
                if self.lo is not None and self.hi is not None:
                    ctx.ranges[t.get_id()] = (self.lo, self.hi)
                    _atoms[t.get_id()] = t
                if self.lo is not None:
                    ctx.add(t >= self.lo)
                if self.hi is not None:
                    ctx.add(t <= self.hi)
            ctx.factdepth = depth + 1
            try:
                for fact in list(self.facts):
                    ctx.add(fact(idx, P(t) if self.sort == 'int' else t))
            finally:
                ctx.factdepth = depth
        return P(t) if self.sort == 'int' else t
    def add_fact(self, fact):
        """fact(idx, value) -> Bool, true for every index"""
        self.facts.append(fact)
        assert not self.done, 'fact after read'

class Store:
    __slots__ = ('a', 'idx', 'v', 'sort', 'arity')
    def __init__(self, a, idx, v):
        self.a, self.idx, self.v, self.sort, self.arity = a, idx, v, a.sort, a.arity
    def read(self, idx):
        c = And(*[P(i).eq(j) for i, j in zip(idx, self.idx)])
        if z3.is_true(c):
            return self.v
        o = self.a.read(idx)
        return iteP(c, self.v, o) if self.sort == 'int' else iteR(c, self.v, o)

class Fill:
    """elements with lo <= last index < hi (and equal leading indices) are fn(idx)"""
    __slots__ = ('a', 'lead', 'lo', 'hi', 'fn', 'sort', 'arity')
    def __init__(self, a, lead, lo, hi, fn):
        self.a, self.lead, self.lo, self.hi, self.fn, self.sort, self.arity = a, lead, P(lo), P(hi), fn, a.sort, a.arity
    def read(self, idx):
        c = And(*([P(i).eq(j) for i, j in zip(idx[:-1], self.lead)] + [P(idx[-1]) >= self.lo, P(idx[-1]) < self.hi]))
        if z3.is_false(c):
            return self.a.read(idx)
        v = self.fn(idx)
        if z3.is_true(c):
            return v
        o = self.a.read(idx)
        return iteP(c, v, o) if self.sort == 'int' else iteR(c, v, o)

class Ite:
    __slots__ = ('c', 'x', 'y', 'sort', 'arity')
    def __init__(self, c, x, y):
        self.c, self.x, self.y, self.sort, self.arity = c, x, y, x.sort, x.arity
    def read(self, idx):
        a, b = self.x.read(idx), self.y.read(idx)
        return iteP(self.c, a, b) if self.sort == 'int' else iteR(self.c, a, b)

class Func:
    """array given by a Python function of the index"""
    def __init__(self, fn, sort, arity=1):
        self.fn, self.sort, self.arity = fn, sort, arity
    def read(self, idx):
        return self.fn(idx)

def same_arr(a, b):
    return a is b

# ---------------------------------------------------------------- folds
class Fold:
    """S(p.., n) = sum of term(p.., k) for 0 <= k < n; uninterpreted, unfolded one step at every use"""
    def __init__(self, ctx, name, term, sort='int', arity=0, nonneg=False, init=0, comb=None):
        self.ctx, self.term, self.sort, self.nonneg = ctx, term, sort, nonneg
        self.init, self.comb = init, comb
        s = z3.IntSort() if sort == 'int' else z3.RealSort()
        self.f = z3.Function('%s!%d' % (name, next(_fresh)), *([z3.IntSort()] * (arity + 1) + [s]))
        self.seen = {}
        self.hooks = []
        self.upper = None     # per-step upper bound of the term, for S(n) <= upper*n
    def app(self, *idx):
        t = self.f(*[P(i).z() for i in idx])
        return P(t) if self.sort == 'int' else t
    def __call__(self, *idx):
        idx = tuple(P(i) for i in idx)
        k = tuple(i.key() for i in idx)
        if k in self.seen:
            return self.app(*idx)
        n, par = idx[-1], idx[:-1]
        t = self.app(*idx)
        self.seen[k] = idx
        prev = self.app(*par, n - 1)
        term = self.term(*par, n - 1)
        if self.sort == 'int':
            step = prev + term if self.comb is None else self.comb(prev, term)
            self.ctx.add(Implies(n >= 1, t.eq(step)))
            self.ctx.add(Implies(n.eq(0), t.eq(self.init)))
            if self.nonneg:
                self.ctx.add(Implies(n >= 0, t >= 0))
                self.ctx.add(Implies(n >= 1, prev >= 0))
                for kk, other in list(self.seen.items()):
                    if kk != k:
                        same = And(*[a.eq(b) for a, b in zip(par, other[:-1])])
                        o = self.app(*other)
                        self.ctx.add(Implies(And(same, other[-1] >= 0, other[-1] <= n), o <= t))
                        self.ctx.add(Implies(And(same, n >= 0, n <= other[-1]), t <= o))
                        # k < n  =>  S(k) + term(k) <= S(n)
                        self.ctx.add(Implies(And(same, other[-1] >= 0, other[-1] < n), o + self.term(*par, other[-1]) <= t))
                        self.ctx.add(Implies(And(same, n >= 0, n < other[-1]), t + self.term(*par, n) <= o))
            if self.upper is not None:
                self.ctx.add(Implies(n >= 0, t <= n * self.upper))
                self.ctx.add(Implies(n >= 1, prev <= (n - 1) * self.upper))
        else:
            step = prev + term if self.comb is None else self.comb(prev, term)
            self.ctx.add(Implies(n >= 1, t == step))
            self.ctx.add(Implies(n.eq(0), t == self.init))
        for h in self.hooks:
            h(*idx)
        return t

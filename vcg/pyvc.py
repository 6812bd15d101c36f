"""Terms, recurrences and the prover of the Python verification-condition generator.

Terms are plain z3 terms.  Loops and reductions are represented by *recurrences*: function symbols f(params, n)
with f(params, 0) = init and f(params, n+1) = body(params, n, f(params, n)); sums are the special case
body = acc + delta.  The free variables of a body are its parameters, and bodies that are equal up to renaming share
a symbol, so that congruence identifies equal sums.

prove() instantiates the definitions (unfolding), the facts about data functions, and extensionality (two sums
are equal if their summands are, which is itself proved), then lowers integer arithmetic to polynomials (core.py)."""
import itertools, z3
import core
from polybound import PB
from core import Unsupported, Ctx, Poly, P, And, Or, Not, Implies, TRUE, FALSE

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_n = itertools.count()
def fresh(name='k', sort=INT):
    return z3.Const('%s!%d' % (name, next(_n)), sort)

def Z(x):
    """a z3 term for a Python number or term"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float('inf') else None
    return x
def ite(c, a, b):
    c, a, b = Z(c), Z(a), Z(b)
    if z3.is_true(c) or a.eq(b):
        return a
    if z3.is_false(c):
        return b
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    if a.sort() == BOOL:
        return Or(And(c, a), And(Not(c), b))
    return z3.If(c, a, b)
def real(x):
    x = Z(x)
    if x.sort() == REAL:
        return x
    if x.sort() == BOOL:
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)
def const_of(x):
    """the Python value of a constant term, else None"""
    if isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, z3.ExprRef):
        y = z3.simplify(x)
        if z3.is_true(y):
            return True
        if z3.is_false(y):
            return False
        if z3.is_int_value(y):
            return y.as_long()
    return None
def has(t, v):
    seen, stack = set(), [t]
    i = v.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() == i:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False
def apps(fs, pred=None):
    """uninterpreted applications (arity > 0) in the formulas"""
    seen, stack, out = set(), list(fs), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out
def free_consts(t):
    seen, out, order = set(), [], []
    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            for c in x.children():
                go(c)
    go(t)
    return out
def conj(c):
    return list(itertools.chain.from_iterable(conj(x) for x in c.children())) if z3.is_and(c) else [c]

def nnf(c, pos):
    """the conjuncts of c (or of not c)"""
    if z3.is_not(c):
        return nnf(c.arg(0), not pos)
    if z3.is_true(c) or z3.is_false(c):
        return [] if z3.is_true(c) == pos else [FALSE]
    if (z3.is_and(c) and pos) or (z3.is_or(c) and not pos):
        return list(itertools.chain.from_iterable(nnf(x, pos) for x in c.children()))
    if pos:
        return [c]
    if z3.is_app_of(c, z3.Z3_OP_LE):
        return [c.arg(0) > c.arg(1)]
    if z3.is_app_of(c, z3.Z3_OP_GE):
        return [c.arg(0) < c.arg(1)]
    return [Not(c)]
def inner_ite(t):
    """an if-then-else inside a formula"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() != BOOL:
            return x
        stack.extend(x.children())
    return None
def add(*xs):
    xs = [x for x in xs if not ((z3.is_int_value(x) and x.as_long() == 0) or (z3.is_rational_value(x) and x.numerator_as_long() == 0))] or [xs[0]]
    return xs[0] if len(xs) == 1 else z3.Sum(xs)
def mul(*xs):
    return xs[0] if len(xs) == 1 else z3.Product(list(xs))
def solve_eq(l, r, k):
    """k from l == r, linear with coefficient +-1"""
    d = z3.simplify(l - r, som=True)
    coef, rest = 0, []
    for t in (d.children() if z3.is_add(d) else [d]):
        if t.eq(k):
            coef += 1
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(1).eq(k):
            coef += t.arg(0).as_long()
        elif has(t, k):
            return None
        else:
            rest.append(t)
    if coef not in (1, -1):
        return None
    s = z3.Sum(rest) if rest else z3.IntVal(0)
    return z3.simplify(-s if coef == 1 else s)
def toint(t):
    """the integer term of a real term that is one"""
    if t.sort() == INT:
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if k == z3.Z3_OP_ITE:
        a, b = toint(t.arg(1)), toint(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return None
    cs = [toint(x) for x in t.children()]
    if any(c is None for c in cs) or not cs:
        return None
    return z3.Sum(cs) if k == z3.Z3_OP_ADD else z3.Product(cs) if k == z3.Z3_OP_MUL else -cs[0] if k == z3.Z3_OP_UMINUS else cs[0] - z3.Sum(cs[1:])

class Rec:
    pass

class Theory:
    def __init__(self):
        self.facts = {}         # function name -> [fn(*args) -> Bool]
        self.recs = {}          # name -> Rec
        self.bykey = {}
        self.extra = []         # global facts
        self.queries, self.solver_time = 0, 0.0
        self.timeout = 10000
        self.fubini = False
        self.compare = False
        self.depth = 0
        self.proved_ext = {}
        self.nonneg = {}
        self.ghosts = []
        self.trusted = set()
        self.sum_rules = []
    def fn(self, name, nargs, sort=INT, facts=()):
        f = z3.Function('%s!%d' % (name, next(_n)), *([INT] * nargs + [sort]))
        self.facts[f.name()] = list(facts)
        return f
    # ---- recurrences
    def lift(self, body, k, acc, init):
        """the symbol of a recurrence, and the actual parameters"""
        fv = [x for x in free_consts(body) + free_consts(init) if not x.eq(k) and (acc is None or not x.eq(acc))]
        seen, params = set(), []
        for x in fv:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                params.append(x)
        cnt = itertools.count()
        ph = [z3.Const('c!!%d!%s' % (i, x.sort()), x.sort()) for i, x in enumerate(params)]
        K, A = z3.Int('k!!'), (z3.Const('acc!!%s' % acc.sort(), acc.sort()) if acc is not None else None)
        sub = list(zip(params, ph)) + [(k, K)] + ([(acc, A)] if acc is not None else [])
        b, i = z3.substitute(body, *sub), z3.substitute(init, *sub)
        key = (b.sexpr(), i.sexpr(), str(b.sort()), acc is None)
        r = self.bykey.get(key)
        if r is None:
            r = Rec()
            r.name = ('sum' if acc is None else 'rec') + '!%d' % next(_n)
            r.f = z3.Function(r.name, *([x.sort() for x in params] + [INT, init.sort() if acc is not None else b.sort()]))
            r.params, r.k, r.acc, r.body, r.init, r.sum = ph, K, A, b, i, acc is None
            self.bykey[key] = r
            self.recs[r.name] = r
            self.facts.setdefault(r.name, [])
        return r, params
    def body(self, app, k=None, acc=None):
        """the body of a recurrence for the parameters of an application, at step k"""
        r = self.recs[app.decl().name()]
        args = app.children()
        sub = list(zip(r.params, args[:-1])) + [(r.k, Z(k))] + ([(r.acc, acc)] if not r.sum else [])
        return z3.substitute(r.body, *sub)
    def init(self, app):
        r = self.recs[app.decl().name()]
        return z3.substitute(r.init, *zip(r.params, app.children()[:-1])) if r.params else r.init
    def sigma(self, n, fn):
        """sum of fn(k) for 0 <= k < n"""
        k = fresh('s')
        d = Z(fn(k))
        if d.sort() == BOOL:
            d = z3.If(d, z3.IntVal(1), z3.IntVal(0))
        return self.sum_of(Z(n), k, d)
    def sum_of(self, n, k, d):
        d = z3.simplify(Z(d))
        if d.sort() == REAL:
            i = toint(d)
            if i is not None:
                return z3.ToReal(self.gsum(n, k, [], i))
        return self.gsum(n, k, [], d)
    def gsum(self, n, k, cs, d):
        """sum over k < n of d where all of cs hold"""
        zero = z3.RealVal(0) if d.sort() == REAL else z3.IntVal(0)
        if d.eq(zero) or any(z3.is_false(c) for c in cs):
            return zero
        if z3.is_add(d):
            return add(*[self.gsum(n, k, cs, x) for x in d.children()])
        if z3.is_app_of(d, z3.Z3_OP_UMINUS):
            return -self.gsum(n, k, cs, d.arg(0))
        if z3.is_app_of(d, z3.Z3_OP_ITE):
            c, x, y = d.children()
            return add(self.gsum(n, k, cs + nnf(c, True), x), self.gsum(n, k, cs + nnf(c, False), y))
        if z3.is_mul(d):
            ch = d.children()
            out = [x for x in ch if not has(x, k)]
            rest = [x for x in ch if has(x, k)]
            if out:
                one = z3.RealVal(1) if d.sort() == REAL else z3.IntVal(1)
                return mul(*out, self.gsum(n, k, cs, mul(*rest) if rest else one))
            for i, x in enumerate(ch):
                if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_add(x):
                    r = ch[:i] + ch[i + 1:]
                    if z3.is_add(x):
                        return add(*[self.gsum(n, k, cs, mul(*r, y)) for y in x.children()])
                    c, p, q = x.children()
                    return add(self.gsum(n, k, cs + nnf(c, True), mul(*r, p)), self.gsum(n, k, cs + nnf(c, False), mul(*r, q)))
        for c in cs:
            t = inner_ite(c)
            if t is not None and has(t, k):
                b, x, y = t.children()
                z, w = [z3.simplify(z3.substitute(c2, (t, x))) for c2 in cs], [z3.simplify(z3.substitute(c2, (t, y))) for c2 in cs]
                fl = lambda l: [q for c2 in l for q in nnf(c2, True)]
                return add(self.gsum(n, k, nnf(b, True) + fl(z), d), self.gsum(n, k, nnf(b, False) + fl(w), d))
        # the guards
        u, seen = [], set()
        for c in cs:
            if c.get_id() not in seen and not z3.is_true(c):
                seen.add(c.get_id())
                u.append(c)
        out = [c for c in u if not has(c, k)]
        if out:
            return ite(And(*out), self.gsum(n, k, [c for c in u if has(c, k)], d), zero)
        for c in u:
            if z3.is_eq(c) and c.arg(0).sort() == INT:
                t = solve_eq(c.arg(0), c.arg(1), k)
                if t is None:
                    continue
                sub = [z3.simplify(z3.substitute(x, (k, t))) for x in u if not x.eq(c)]
                return ite(And(t >= 0, t < n, *sub), z3.substitute(d, (k, t)), zero)
        for rule in self.sum_rules:
            r = rule(self, n, k, u, d)
            if r is not None:
                return r
        if not u and not has(d, k):
            m = z3.If(n >= 0, n, z3.IntVal(0))
            return (z3.ToReal(m) if d.sort() == REAL else m) * d
        # bounds on k (from k-free terms) are left as guards; one canonical order
        u.sort(key=lambda c: c.sexpr())
        r, ps = self.lift(ite(And(*u), d, zero) if u else d, k, None, zero)
        return r.f(*ps, n)
    def rec(self, n, init, fn):
        k, init = fresh('s'), Z(init)
        acc = fresh('acc', init.sort())
        return self.rec_of(Z(n), k, acc, init, Z(fn(k, acc)))
    def rec_of(self, n, k, acc, init, body):
        r, ps = self.lift(body, k, acc, init)
        return r.f(*ps, n)
    # ---- the prover
    def instances(self, fs, rounds=3):
        """definitions and facts about the applications in fs"""
        out = list(self.extra)
        done = set()
        frontier = list(fs)
        for rnd in range(rounds):
            new = []
            A = apps(fs + out)
            for a in A:
                if a.get_id() in done:
                    continue
                done.add(a.get_id())
                nm = a.decl().name()
                for f in self.facts.get(nm, ()):
                    new.append(f(*a.children()))
                r = self.recs.get(nm)
                if r is not None:
                    n = a.children()[-1]
                    new.append(Implies(n <= 0, a == (self.init(a))))
                    if r.sum and self.is_nonneg(a):
                        new.append(a >= 0)
                    if not r.sum and a.sort() in (INT, REAL):
                        for up in (True, False):
                            if self.monotone(r, up):
                                new.append(a >= self.init(a) if up else a <= self.init(a))
                    if rnd == 0 and const_of(n) is None or (const_of(n) is not None and 0 < const_of(n) <= 4):
                        new.append(self.unfold(a, z3.simplify(n - 1)))
            # unfolding: f(.., n) and f(.., n+1) both occur
            byname = {}
            for a in A:
                if a.decl().name() in self.recs:
                    byname.setdefault(a.decl().name(), []).append(a)
            for nm, l in byname.items():
                for x, y in itertools.permutations(l, 2):
                    if ('u', x.get_id(), y.get_id()) in done:
                        continue
                    done.add(('u', x.get_id(), y.get_id()))
                    if all(p.eq(q) for p, q in zip(x.children()[:-1], y.children()[:-1])):
                        d = z3.simplify(x.children()[-1] - y.children()[-1])
                        if z3.is_int_value(d) and d.as_long() == 1:
                            new.append(self.unfold(x, y.children()[-1], y))
            new = [x for x in new if not z3.is_true(x)]
            if not new:
                break
            out += new
        return out
    def unfold(self, a, k, prev=None):
        """f(n) = body(n-1, f(n-1)) for n >= 1"""
        r = self.recs[a.decl().name()]
        prev = prev if prev is not None else a.decl()(*a.children()[:-1], k)
        b = self.body(a, k, prev)
        return Implies(a.children()[-1] >= 1, a == (prev + b if r.sum else b))
    def is_nonneg(self, a):
        r = self.recs[a.decl().name()]
        if r.name not in self.nonneg:
            self.nonneg[r.name] = False
            s = z3.Solver()
            s.set('timeout', 2000)
            fs = [r.body < 0, r.k >= 0]
            inst = []
            for _ in range(2):
                for x in apps(fs + inst):
                    for f in self.facts.get(x.decl().name(), ()):
                        inst.append(f(*x.children()))
                    q = self.recs.get(x.decl().name())
                    if q is not None and q.sum and q is not r and self.is_nonneg(x):
                        inst.append(x >= 0)
            s.add(fs + [i for i in inst if not z3.is_true(i)])
            self.nonneg[r.name] = s.check() == z3.unsat
        return self.nonneg[r.name]
    def monotone(self, r, up):
        """every step of the recurrence keeps or increases (decreases) the value"""
        key = ('mono', r.name, up)
        if key not in self.nonneg:
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(r.body < r.acc if up else r.body > r.acc)
            self.nonneg[key] = s.check() == z3.unsat
        return self.nonneg[key]
    def swapped(self, a):
        """sum over k of sum over v = sum over v of sum over k"""
        r = self.recs[a.decl().name()]
        if not r.sum:
            return None
        k = fresh('s')
        b = self.body(a, k)
        if z3.is_app(b) and b.decl().name() in self.recs and self.recs[b.decl().name()].sum and not has(b.children()[-1], k):
            v = fresh('s')
            inner = self.body(b, v)
            return self.sum_of(b.children()[-1], v, self.sum_of(a.children()[-1], k, inner))
        return None
    def prove(self, hyps, goal, timeout=None):
        goal = Z(goal)
        if z3.is_true(goal):
            return 'proved'
        hyps = [Z(h) for h in hyps]
        if PB(hyps).goal(goal):
            return 'proved'
        r, model = self.attempt(hyps, goal, [], timeout)
        if r == 'proved' or self.depth > 2:
            return r
        # extensionality
        eqs = []
        fs = hyps + [Not(goal)]
        for rnd in range(2):
            A = [a for a in apps(fs + eqs) if a.decl().name() in self.recs]
            if self.fubini:
                for a in list(A):
                    s = self.swapped(a)
                    if s is not None and not any(e.eq(a == s) for e in eqs):
                        eqs.append(a == s)
                        A += [x for x in apps([s]) if x.decl().name() in self.recs]
            got = False
            for a, b in itertools.combinations(A, 2):
                if a.sort() != b.sort() or a.decl().eq(b.decl()):
                    continue
                ra, rb = self.recs[a.decl().name()], self.recs[b.decl().name()]
                if ra.sum != rb.sum:
                    continue
                key = (a.get_id(), b.get_id())
                if key not in self.proved_ext or self.proved_ext[key][0] != tuple(h.get_id() for h in hyps):
                    self.depth += 1
                    try:
                        na, nb = a.children()[-1], b.children()[-1]
                        ok = na.eq(nb) or self.prove(hyps, na == nb, 2000) == 'proved'
                        if ok:
                            k = fresh('k')
                            acc = fresh('acc', a.sort()) if not ra.sum else None
                            ok = ra.sum or self.prove(hyps, self.init(a) == self.init(b), 2000) == 'proved'
                            mono = []
                            if ok and not ra.sum and a.sort() in (INT, REAL):
                                for up in (True, False):
                                    if self.monotone(ra, up) and self.monotone(rb, up):
                                        mono.append(acc >= self.init(a) if up else acc <= self.init(a))
                            ok = ok and self.prove(hyps + mono + [k >= 0, k < na], self.body(a, k, acc) == self.body(b, k, acc), 3000) == 'proved'
                    finally:
                        self.depth -= 1
                    e = a == b
                    if not ok and self.compare and ra.sum:
                        # sums of terms one of which is never the larger
                        self.depth += 1
                        try:
                            na, nb = a.children()[-1], b.children()[-1]
                            if na.eq(nb):
                                k = fresh('k')
                                for x, y in ((a, b), (b, a)):
                                    if self.prove(hyps + [k >= 0, k < na], self.body(x, k, None) <= self.body(y, k, None), 3000) == 'proved':
                                        ok, e = True, x <= y
                                        break
                        finally:
                            self.depth -= 1
                    self.proved_ext[key] = (tuple(h.get_id() for h in hyps), ok, a, b, e)
                if self.proved_ext[key][1]:
                    e = self.proved_ext[key][4]
                    if not any(x.eq(e) for x in eqs):
                        eqs.append(e)
                        got = True
            if not got and not self.fubini:
                break
        if eqs:
            r, model = self.attempt(hyps, goal, eqs, timeout)
        return r
    def attempt(self, hyps, goal, eqs, timeout):
        fs = hyps + eqs + [Not(goal)]
        inst = self.instances(fs)
        ctx = Ctx()
        low = Lower(ctx)
        L = [low(x) for x in hyps + eqs + inst]
        g = low(goal)
        self.queries += 1
        r = ctx.check(L, g, timeout or self.timeout)
        self.solver_time += ctx.solver_time
        self.model = getattr(ctx, 'model', None)
        return ('unknown' if r == 'refuted' and False else r), self.model

class Lower:
    """rewrites integer arithmetic to polynomials with abstracted products"""
    def __init__(self, ctx):
        self.ctx, self.memo, self.pm = ctx, {}, {}
    def __call__(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self.go(t)
        self.memo[i] = (t, r)
        return r
    def p(self, t):
        """Poly of an integer term"""
        i = t.get_id()
        if i in self.pm:
            return self.pm[i][1]
        r = self.poly(t)
        self.pm[i] = (t, r)
        return r
    def poly(self, t):
        if z3.is_int_value(t):
            return P(t.as_long())
        k = t.decl().kind()
        c = t.children()
        if k == z3.Z3_OP_ADD:
            r = P(0)
            for x in c:
                r = r + self.p(x)
            return r
        if k == z3.Z3_OP_SUB:
            r = self.p(c[0])
            for x in c[1:]:
                r = r - self.p(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.p(c[0])
        if k == z3.Z3_OP_MUL:
            r = P(1)
            for x in c:
                r = r * self.p(x)
            return r
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            q, m = self.ctx.divmod(self.p(c[0]), self.p(c[1]))
            return q if k == z3.Z3_OP_IDIV else self.p(c[0]) - self.p(c[1]) * q
        if k == z3.Z3_OP_ITE:
            return core.iteP(self(c[0]), self.p(c[1]), self.p(c[2]))
        if k == z3.Z3_OP_UNINTERPRETED:
            return Poly.atom(t.decl()(*[self(x) for x in c]) if c else t)
        if k == z3.Z3_OP_TO_INT:
            return Poly.atom(z3.ToInt(self(c[0])))
        raise Unsupported('term %s' % t.decl())
    def go(self, t):
        s = t.sort()
        if s == INT:
            return self.p(t).z()
        k, c = t.decl().kind(), t.children()
        if not c:
            return t
        if s == BOOL and len(c) == 2 and c[0].sort() == INT and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = self.p(c[0]), self.p(c[1])
            return {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_GT: lambda: a > b,
                    z3.Z3_OP_EQ: lambda: a.eq(b), z3.Z3_OP_DISTINCT: lambda: a.ne(b)}[k]()
        ch = [self(x) for x in c]
        if k == z3.Z3_OP_AND:
            return And(*ch)
        if k == z3.Z3_OP_OR:
            return Or(*ch)
        if k == z3.Z3_OP_NOT:
            return Not(ch[0])
        return t.decl()(*ch)

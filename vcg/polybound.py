"""Bounds of polynomials: t >= 0 from bounds x >= c and x <= e of its atoms.

A polynomial that is linear in an atom x with x <= u is smallest at x = u if the coefficient of x is <= 0; when every
atom y is replaced by y' + (lower bound of y) and no coefficient is negative, the polynomial is non-negative."""
import z3
from core import P, Poly

class PB:
    def __init__(self, hyps):
        self.lb, self.ub = {}, {}      # atom id -> constant / [Poly]
        self.atoms = {}
        self.memo = {}
        self.hy = []
        for h in hyps:
            self.take(h)
        self.bounds()
    def take(self, h):
        if z3.is_and(h):
            for c in h.children():
                self.take(c)
            return
        neg = False
        if z3.is_not(h):
            neg, h = True, h.arg(0)
        k = h.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) or h.arg(0).sort() != z3.IntSort():
            return
        if k == z3.Z3_OP_EQ:
            if neg:
                return
            d = self.poly(h.arg(0)) - self.poly(h.arg(1))
            self.hy += [d, -d]
            return
        a, b = self.poly(h.arg(0)), self.poly(h.arg(1))
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        self.hy.append({z3.Z3_OP_LE: lambda: b - a, z3.Z3_OP_LT: lambda: b - a - 1, z3.Z3_OP_GE: lambda: a - b, z3.Z3_OP_GT: lambda: a - b - 1}[k]())
    def poly(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        k, c = t.decl().kind(), t.children()
        if z3.is_int_value(t):
            r = P(t.as_long())
        elif k == z3.Z3_OP_ADD:
            r = P(0)
            for x in c:
                r = r + self.poly(x)
        elif k == z3.Z3_OP_SUB:
            r = self.poly(c[0])
            for x in c[1:]:
                r = r - self.poly(x)
        elif k == z3.Z3_OP_UMINUS:
            r = -self.poly(c[0])
        elif k == z3.Z3_OP_MUL:
            r = P(1)
            for x in c:
                r = r * self.poly(x)
        else:
            r = Poly.atom(t)
            self.atoms[i] = t
        self.memo[i] = (t, r)
        return r
    def bounds(self):
        for d in self.hy:
            for m, c in d.t.items():
                if len(m) == 1 and c in (1, -1) and not any(m[0] in m2 for m2 in d.t if m2 != m):
                    rest = Poly({k: v for k, v in d.t.items() if k != m})
                    if c == 1 and rest.is_const():
                        self.lb[m[0]] = max(self.lb.get(m[0], -10**30), -rest.const_value())
                    elif c == -1:
                        self.ub.setdefault(m[0], []).append(rest)
    def derived(self, i):
        """bounds of quotients and remainders"""
        t = self.atoms.get(i)
        if t is None or t.decl().kind() not in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or ('d', i) in self.memo:
            return
        self.memo[('d', i)] = True
        b = self.poly(t.arg(1))
        a = self.poly(t.arg(0))
        if not self.nonneg(b - 1, 3):
            return
        if t.decl().kind() == z3.Z3_OP_MOD:
            self.lb[i] = max(self.lb.get(i, 0), 0)
            self.ub.setdefault(i, []).append(b - 1)
            return
        if self.nonneg(a, 3):
            self.lb[i] = max(self.lb.get(i, 0), 0)
        ai = [m for m in a.t if len(m) == 1 and a.t[m] == 1]
        # a <= e - 1 with e = b*m  gives  a / b <= m - 1
        for d in self.hy:
            e = d + a + 1                   # a <= e - 1 when d >= 0
            if e is None:
                continue
            m = self.divide(e, b)
            if m is not None:
                self.ub.setdefault(i, []).append(m - 1)
    def divide(self, e, b):
        if len(b.t) != 1:
            return None
        (mb, cb), = b.t.items()
        out = {}
        for m, c in e.t.items():
            mm = list(m)
            for x in mb:
                if x not in mm:
                    return None
                mm.remove(x)
            if c % cb:
                return None
            out[tuple(mm)] = c // cb
        return Poly(out)
    def nonneg(self, p, depth=8):
        """p >= 0 follows from the bounds"""
        ids = {x for m in p.t for x in m}
        for i in ids:
            self.derived(i)
        # shift by the lower bounds
        q = Poly({})
        ok = True
        for m, c in p.t.items():
            t = P(c)
            for x in m:
                a = Poly.atom(self.atom(x))
                if x not in self.lb:
                    if c < 0 or len(m) != 2 or m[0] != m[1]:
                        ok = False
                t = t * (a + self.lb.get(x, 0))
            q = q + t
        if ok and all(c >= 0 for c in q.t.values()):
            return True
        if depth == 0:
            return False
        for x in sorted(ids):
            us = self.ub.get(x)
            if not us or any(m.count(x) > 1 for m in p.t):
                continue
            co = Poly({tuple(y for y in m if y != x): c for m, c in p.t.items() if x in m})
            rest = Poly({m: c for m, c in p.t.items() if x not in m})
            if all(c < 0 for c in co.t.values()) or self.nonneg(-co, 0):
                for u in us:
                    if any(x in m for m in u.t):
                        continue
                    if self.nonneg(co * u + rest, depth - 1):
                        return True
            elif x in self.lb and self.nonneg(co, 0):
                if self.nonneg(co * self.lb[x] + rest, depth - 1):
                    return True
        return False
    def atom(self, x):
        import core
        return core._atoms[x]
    def goal(self, g):
        """True if the goal (a conjunction of inequalities) follows"""
        if z3.is_true(g):
            return True
        if z3.is_and(g):
            return all(self.goal(c) for c in g.children())
        neg = False
        if z3.is_not(g):
            neg, g = True, g.arg(0)
        k = g.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or g.arg(0).sort() != z3.IntSort():
            return False
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        a, b = self.poly(g.arg(0)), self.poly(g.arg(1))
        d = {z3.Z3_OP_LE: lambda: b - a, z3.Z3_OP_LT: lambda: b - a - 1, z3.Z3_OP_GE: lambda: a - b, z3.Z3_OP_GT: lambda: a - b - 1}[k]()
        return self.nonneg(d)

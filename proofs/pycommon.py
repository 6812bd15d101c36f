"""Proof tasks about the Python sources."""
import os, sys, time, z3
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vcg'))
import core, pyvc
from pyvc import *
from pyexec import *
from pyinterp import Interp
import pyexec as X
from core import And, Or, Not, Implies, TRUE, FALSE, Unsupported
REPO = os.environ.get('VERIF_REPO', '/repo')
SPARSE = 'python/stempy/io/sparse_array.py'
COMPAT = 'python/stempy/io/compatibility.py'
IMAGE = 'python/stempy/image/__init__.py'

ASSUMPTIONS = [
    'numpy functions by contract (vcg/pynp.py), Python semantics of the interpreted subset (vcg/pyinterp.py)',
    'floating-point arithmetic as exact real arithmetic; integer results fit the dtype they are stored in',
    'events are stored with an integer type that can hold every pixel number of the frame',
]

class PyTask:
    def __init__(self, name, fn, files=(COMPAT, SPARSE, IMAGE)):
        self.name, self.fn, self.files = name, fn, files
    def execute(self, quick):
        t0 = time.time()
        core.reset() if hasattr(core, 'reset') else None
        T = PT(self)
        try:
            self.fn(T)
            T.finish()
        except Exception as e:
            import traceback
            kind = 'unsupported: ' if isinstance(e, Unsupported) else ''
            det = kind + (str(e) if kind else traceback.format_exc()[-2500:]) + ' (line %s)' % getattr(T.ex, 'line', '?')
            if os.environ.get('VCG_DEBUG'):
                traceback.print_exc()
            T.results.append(dict(name='verifier', status='unknown', function=self.name, backend='', seconds=0, detail=det, kind='verifier'))
        return dict(name=self.name, obligations=T.results, functions=sorted(T.ex.used), assumptions=list(ASSUMPTIONS), trusted=['numpy contracts (vcg/pynp.py)'],
                    loops=T.ex.loops, queries=T.th.queries, solver=T.th.solver_time, seconds=round(time.time() - t0, 2), vacuous=False)

class PT:
    def __init__(self, task):
        self.task = task
        self.th = Theory()
        self.ex = Interp(self.th, {})
        self.results = []
        self.hy = []
        self.deferred = []
        self.monotone_goals = []
        self.late = []
        sys.setrecursionlimit(20000)
        for f in task.files:
            nm = {COMPAT: 'compatibility', SPARSE: 'sparse_array', IMAGE: 'image'}[f]
            self.ex.load(os.path.join(REPO, f), nm)
        self.scale = float(os.environ.get('VCG_SCALE', '1'))
        self.th.timeout = int(20000 * self.scale)
        self.vacuity = []
    # ---- symbolic inputs
    def assume(self, *cs):
        for c in cs:
            self.ex.hyps.append(Z(c))
    def int(self, name, lo=None):
        x = z3.Int(name)
        if lo is not None:
            self.assume(x >= lo)
        return x
    def frames(self, dims, N, binary=True, name='c'):
        """event lists indexed by dims; c(.., v) is the multiplicity of pixel v"""
        nd = len(dims)
        c = self.th.fn(name, nd + 1)
        idx = lambda a: And(*[And(x >= 0, x < d) for x, d in zip(a[:-1], dims)], a[-1] >= 0, a[-1] < N)
        self.th.facts[c.name()] = [(lambda *a: And(c(*a) >= 0, c(*a) <= 1)) if binary else (lambda *a: c(*a) >= 0)]
        return c, lambda *i: [(TRUE, Bag([N], lambda v: c(*[Z(x) for x in i], v), lambda v: v, DT('ev'), N))]
    def array(self, scan=2, min_frames=1, shape=None, frame=None, frames=None):
        """a symbolic sparse array: (ref, info)"""
        A = Kw()
        A.S = shape or [self.int('S%d' % i, 1) for i in range(scan)]
        A.H, A.W = frame or (self.int('H', 1), self.int('W', 1))
        A.F = self.int('F', min_frames) if frames is None else z3.IntVal(frames)
        A.N = z3.simplify(A.H * A.W)
        A.P = z3.simplify(A.S[0] * A.S[1]) if scan == 2 else A.S[0]
        self.assume(A.P >= 1, A.N >= 1)
        A.c, get = self.frames([A.P, A.F], A.N)
        A.data = self.ex.new(OA([A.P, A.F], get))
        A.dtype = DT('user')
        A.meta = self.ex.new(DictC({}))
        A.sparse_slicing, A.allow_full_expand = z3.Bool('sparse_slicing'), z3.Bool('allow_full_expand')
        cls = self.ex.glob('sparse_array', 'SparseArray')
        A.attrs = dict(data=A.data, scan_shape=tuple(A.S), frame_shape=(A.H, A.W), dtype=A.dtype, sparse_slicing=A.sparse_slicing,
                       allow_full_expand=A.allow_full_expand, metadata=A.meta)
        A.ref = self.ex.new(Obj(cls, dict(A.attrs)))
        A.D = lambda p, v: self.th.sigma(A.F, lambda f: A.c(Z(p), f, Z(v)))
        A.pos = lambda i, j=None: z3.simplify(Z(i) * A.S[1] + Z(j)) if j is not None else Z(i)
        return A
    # ---- running
    def run(self, fn, args=(), kw=None, setup=None):
        """all the outcomes of a call"""
        ex = self.ex
        def go():
            return ex.call(fn, list(args), dict(kw or {}))
        base = ex.st
        out = ex.explore(ex.st, go)
        return out
    def normal(self, outs):
        """the normal outcomes; there must be no others"""
        res = []
        for st, kind, v in outs:
            if kind == 'ok':
                res.append((st, v))
                continue
            self.deferred.append(('no exception (%s)' % v, self.task.name, list(self.ex.hyps) + list(st.pc), FALSE))
        self.fact('the function returns', len(res) > 0)
        return res
    def dense(self, st, v, shape):
        d = dense(st, self.ex, v)
        self.fact('the result is an array of the right rank', isinstance(d, D) and len(d.shape) == len(shape))
        for a, b in zip(d.shape, shape):
            self.ensure('the result has the right shape', a == b, st)
        return d
    def glob(self, mod, name):
        return self.ex.glob(mod, name)
    def ensure(self, name, goal, st=None, hyps=(), fn=None):
        self.deferred.append((name, fn or self.task.name, list(self.ex.hyps) + (list(st.pc) if st is not None else []) + [Z(h) for h in hyps], Z(goal)))
    def lemma_le(self, name, a, b, p):
        """a <= b for two sums, term by term, for every p (proved as an obligation): from then on a fact about every application of a's function"""
        a, b = Z(a), Z(b)
        self.monotone_goals.append(a <= b)
        self.deferred.append((name, self.task.name, list(self.ex.hyps), a <= b))
        i = [k for k, x in enumerate(a.children()) if x.eq(p)]
        if len(i) != 1:
            raise Unsupported('lemma about %s' % a)
        self.late.append((a.decl().name(), lambda *args: a.decl()(*args) <= z3.substitute(b, (p, args[i[0]]))))
    def induct(self, name, Q, n, hyps=()):
        """Q(n) for n >= 0 by induction (proved as obligations); usable as a hypothesis"""
        k = fresh('k')
        hy = list(self.ex.hyps) + [Z(h) for h in hyps]
        self.deferred.append((name + ' (base)', self.task.name, hy, Q(z3.IntVal(0))))
        self.deferred.append((name + ' (step)', self.task.name, hy + [k >= 0, Q(k)], Q(k + 1)))
        return [Implies(n >= 0, Q(n))]
    def flat(self, name, g, m, F_, var):
        """the sum of g over m*F_ numbers is the sum over m rows of the sum over F_ columns (proved by two inductions); g is a term in var"""
        th = self.th
        sub = lambda x: z3.substitute(g, (var, Z(x)))
        G = th.sigma(m * F_, sub)
        if not is_sum(th, G):
            return []
        Gn = lambda x: G.decl()(*G.children()[:-1], x)
        q = z3.Int('rowOfSum')
        row = lambda a, n: th.sigma(n, lambda r: sub(a * F_ + r))
        inner = self.induct(name + ': one row', lambda n: Implies(q >= 0, Gn(q * F_ + n) == Gn(q * F_) + row(q, n)), F_, [F_ >= 1])
        k = fresh('k')
        hy = list(self.ex.hyps) + [F_ >= 1]
        rows = lambda n: th.sigma(n, lambda a: th.sigma(F_, lambda r: sub(a * F_ + r)))
        Q = lambda n: Gn(z3.simplify(n * F_, som=True)) == rows(n)
        self.deferred.append((name + ' (base)', self.task.name, hy, Q(z3.IntVal(0))))
        self.deferred.append((name + ' (step)', self.task.name, hy + [k >= 0, Q(k)] + [z3.substitute(h, (q, k)) for h in inner] + [(k + 1) * F_ == k * F_ + F_], Q(k + 1)))
        return [G == rows(m)]
    def points(self, terms, n, p):
        """for the sums of n non-negative terms in terms: term p is at most the sum (proved by induction as obligations)"""
        out, seen = [], set()
        for a in apps([Z(t) for t in terms]):
            if not is_sum(self.th, a) or a.get_id() in seen or not a.children()[-1].eq(Z(n)):
                continue
            seen.add(a.get_id())
            f = lambda m, a=a: a.decl()(*a.children()[:-1], m)
            if a.sort() != INT:
                continue
            out += [z3.substitute(h, (self.pt, Z(p))) for h in self.induct('every term of a sum of non-negative terms is at most the sum', lambda m: Implies(And(self.pt >= 0, self.pt < m), f(m) >= self.th.body(a, self.pt)), a.children()[-1])]
        return out
    def ordered(self, terms, n):
        """of the sums of n terms in terms: which are term by term at most another one (proved as obligations)"""
        S, out = [], []
        for a in apps([Z(t) for t in terms]):
            if is_sum(self.th, a) and a.sort() == INT and a.children()[-1].eq(Z(n)) and not any(a.eq(b) for b in S):
                S.append(a)
        for a in S:
            for b in S:
                g = a <= b
                if a is not b and self.th.attempt(self.ex.hyps + [self.pt >= 0, self.pt < n], self.th.body(a, self.pt) <= self.th.body(b, self.pt), [], 1000)[0] == 'proved':
                    self.monotone_goals.append(g)
                    self.deferred.append(('one sum is term by term at most another', self.task.name, list(self.ex.hyps), g))
                    out.append(g)
        return out
    pt = z3.Int('pointOfSum')
    def unchanged(self, A, st, name='the array is not changed'):
        o = st.heap[A.ref.id]
        ok = isinstance(o, Obj) and all(o.attrs.get(k) is v or (isinstance(v, Ref) and o.attrs.get(k) == v) or (isinstance(v, tuple) and o.attrs.get(k) == v)
                                        or (is_term(v) and is_term(o.attrs.get(k)) and v.eq(o.attrs[k])) for k, v in A.attrs.items()) and len(o.attrs) == len(A.attrs)
        ok = ok and st.heap[A.data.id] is self.ex.st.heap[A.data.id]
        self.results.append(dict(name=name, status='discharged' if ok else 'failed', function=self.task.name, backend='structural', seconds=0, kind='frame', detail=''))
    def fact(self, name, ok, detail=''):
        self.results.append(dict(name=name, status='discharged' if ok else 'failed', function=self.task.name, backend='structural', seconds=0, kind='shape', detail=detail))
    def obligations(self):
        """the obligations of the executed code"""
        for o in self.ex.obls:
            self.deferred.append((o.name, o.where, list(self.ex.hyps) + list(o.hyps), o.goal))
        self.ex.obls = []
    def finish(self):
        self.obligations()
        seen = set()
        for name, fn, hy, goal in sorted(self.deferred, key=lambda d: not any(d[3].eq(g) for g in self.monotone_goals)):
            key = (name, fn, goal.get_id(), tuple(h.get_id() for h in hy))
            if key in seen:
                continue
            seen.add(key)
            t0 = time.time()
            self.th.compare = any(goal.eq(g) for g in self.monotone_goals)
            if self.late and not self.th.compare:
                for nm, f in self.late:
                    self.th.facts[nm] = self.th.facts[nm] + [f]
                self.late = []
            try:
                r = self.th.prove(hy, goal)
            except Unsupported as e:
                r = 'unsupported: %s' % e
            det = ''
            if r != 'proved' and os.environ.get('VCG_DEBUG'):
                det = 'HYPS %s GOAL %s' % ([str(h) for h in hy], goal)
                print('---', name, r, det[:3000])
                def show(t, d=1):
                    for x in apps([t]) if d < 6 else []:
                        if x.decl().name() in self.th.recs:
                            rr = self.th.recs[x.decl().name()]
                            b = self.th.body(x, fresh('s'), fresh('acc', x.sort()))
                            print('    ' + '  ' * d, x.decl(), 'n =', x.children()[-1], 'BODY', str(b).replace('\n', ' '))
                            show(b, d + 1)
                if os.environ.get('VCG_SHOW'):
                    show(goal)
            self.results.append(dict(name=name, status='discharged' if r == 'proved' else 'failed' if r == 'refuted' else 'unknown', function=fn, backend='z3',
                                     seconds=round(time.time() - t0, 3), kind='vc', detail=det[:300]))
        # the assumptions are consistent
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(self.ex.hyps)
        if s.check() == z3.unsat:
            self.results.append(dict(name='assumptions are consistent', status='failed', function=self.task.name, backend='z3', seconds=0, kind='vacuity', detail=''))
def dense(st, ex, ref):
    saved, ex.st = ex.st, st
    try:
        return ex.snap(ref)
    finally:
        ex.st = saved

class Result:
    """a sparse array that the code returned"""
    def __init__(self, T, st, ref):
        self.T, self.st, self.ref = T, st, ref
        o = st.heap[ref.id] if isinstance(ref, Ref) else None
        T.fact('the result is a sparse array', isinstance(o, Obj) and 'data' in o.attrs)
        self.attrs = o.attrs
        self.scan_shape = self.shape_of(o.attrs['scan_shape'])
        self.frame_shape = self.shape_of(o.attrs['frame_shape'])
        self.data = dense(st, T.ex, o.attrs['data'])
        T.fact('the data are frames of event lists', isinstance(self.data, OA) and len(self.data.shape) == 2)
        self.P, self.F = self.data.shape
    def shape_of(self, s):
        saved, self.T.ex.st = self.T.ex.st, self.st
        try:
            return [Z(x) for x in self.T.ex.np.shapeval(s)]
        finally:
            self.T.ex.st = saved
    def frame(self, p, f, v):
        """how often pixel v is listed in frame f of position p"""
        r = z3.IntVal(0)
        hy = list(self.T.ex.hyps) + list(self.st.pc) + [p >= 0, p < self.P, f >= 0, f < self.F]
        cases = [(z3.simplify(Z(c)), b) for c, b in self.data.get(p, f)]
        cases = [(c, b) for c, b in cases if not z3.is_false(c)]
        for c, b in cases:
            if not isinstance(b, Bag):
                self.T.ensure('every cell holds an event list', Not(c), self.st, [p >= 0, p < self.P, f >= 0, f < self.F])
                continue
            x = self.T.ex.np.count(b, v)
            r = x if len(cases) == 1 else ite(c, x, r)
        if len(cases) > 1:
            self.T.ensure('every cell holds one event list', Or(*[c for c, b in cases]), self.st, [p >= 0, p < self.P, f >= 0, f < self.F])
        return r
    def D(self, p, v):
        return self.T.th.sigma(self.F, lambda f: self.frame(p, f, v))

def flat_rule(T):
    """sum over t < m*F of g(t / F, t % F) = sum over q < m of the sum over r < F of g(q, r)"""
    def rule(th, n, k, u, d):
        fs = []
        body = And(*u, z3.IntVal(0) == d) if d.sort() == INT else And(*u, z3.RealVal(0) == d)
        seen, stack = set(), [body]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and x.arg(0).eq(k):
                    if not any(x.arg(1).eq(y) for y in fs):
                        fs.append(x.arg(1))
                stack.extend(x.children())
                if is_sum(th, x) and any(has(a, k) for a in x.children()):
                    stack.append(th.body(x, fresh('s')))
        for F_ in fs:
            if has(F_, k):
                continue
            m = quotient(n, F_)
            if m is None or T.ex.th.attempt(T.ex.hyps, F_ > 0, [], 2000)[0] != 'proved':
                continue
            q, r = fresh('q'), fresh('r')
            def subst(t):
                t = rewrite(th, t, k, F_, q, r)
                return t
            cs, dd = [subst(c) for c in u], subst(d)
            return th.gsum(m, q, [], th.gsum(F_, r, cs, dd))
        return None
    return rule
def is_sum(th, x):
    return z3.is_app(x) and x.decl().name() in th.recs and th.recs[x.decl().name()].sum
def rewrite(th, t, k, F_, q, r):
    memo = {}
    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        y = x
        if x.eq(k):
            y = q * F_ + r
        elif z3.is_app(x) and x.num_args():
            kd = x.decl().kind()
            if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and x.arg(0).eq(k) and x.arg(1).eq(F_):
                y = q if kd == z3.Z3_OP_IDIV else r
            elif is_sum(th, x) and has(x, k):
                s = fresh('s')
                y = th.sum_of(go(x.children()[-1]), s, go(th.body(x, s)))
            else:
                ch = [go(c) for c in x.children()]
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    y = X.rebuild(x, ch)
        memo[i] = (x, y)
        return y
    return go(t)
def quotient(n, F_):
    """n / F_ when the product form of n contains F_"""
    n, F_ = z3.simplify(n), z3.simplify(F_)
    fac = lambda t: [y for x in t.children() for y in fac(x)] if z3.is_mul(t) else [t]
    a, b = fac(n), fac(F_)
    for x in b:
        for i, y in enumerate(a):
            if x.eq(y):
                a.pop(i)
                break
        else:
            return None
    return z3.Product(a) if len(a) > 1 else a[0] if a else z3.IntVal(1)
def bounds_rule(T):
    """sum over k of d where k*W <= x < k*W + W: only k = x / W counts"""
    def rule(th, n, k, u, d):
        for c in u:
            b = X.bound_of(c, k)
            if b is None:
                continue
            x, W = b
            hi = x - k * W < W
            o = [y for y in u if not y.eq(c)]
            if th.attempt(T.ex.hyps + o, hi, [], 2000)[0] == 'proved':
                # for W <= 0 no k satisfies the guards, x / W neither
                q = x / W
                sub = lambda t: z3.substitute(t, (k, q))
                return ite(And(q >= 0, q < n, *[sub(y) for y in u]), sub(d), z3.RealVal(0) if d.sort() == REAL else z3.IntVal(0))
        return None
    return rule

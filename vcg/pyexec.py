"""Symbolic execution of /repo's Python sources for deductive verification.

The functions are taken from the source files by the ast module on every run and executed on symbolic inputs of any
size; a loop over a symbolic range is replaced by its exact summary (sums, overwrites or recurrences), found by running the
body once from an arbitrary state of the cells it changes.  numpy's functions are trusted contracts (pynp.py)."""
import ast, itertools, os, z3
from core import Unsupported, And, Or, Not, Implies, TRUE, FALSE
from pyvc import *

class PyRaise(Exception):
    def __init__(self, what, node=None):
        self.what, self.node = what, node
        Exception.__init__(self, what)
class _Return(Exception):
    def __init__(self, v):
        self.v = v
class _Break(Exception):
    pass
class _Continue(Exception):
    pass
class Infeasible(Exception):
    pass

# ---------------------------------------------------------------- values
class Ref:
    """a mutable object; its (immutable) content is in the heap of the state"""
    __slots__ = ('id',)
    def __init__(self, i):
        self.id = i
    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id
    def __hash__(self):
        return hash(('ref', self.id))
class F:
    """a floating-point value that may be NaN"""
    def __init__(self, nan, val):
        self.nan, self.val = Z(nan), real(val)
NAN = F(True, 0)
class DT:
    def __init__(self, name):
        self.name = name
    def kind(self):
        n = self.name
        return 'obj' if n == 'obj' else 'bool' if n == 'bool' else 'real' if n.startswith('f') else 'int'
class D:
    """a dense array: read(*idx) is the element"""
    def __init__(self, shape, read, dtype):
        self.shape, self.read, self.dtype = tuple(Z(s) for s in shape), read, dtype
class Bag:
    """a one-dimensional array whose elements are elem(vars), mult(vars) times each, for the vars in [0, dims)"""
    def __init__(self, dims, mult, elem, dtype, bound=None, rep=None):
        self.dims, self.mult, self.elem, self.dtype, self.bound, self.rep = [Z(d) if not callable(d) else d for d in dims], mult, elem, dtype, bound, rep
    def vars(self):
        return [fresh('v') for _ in self.dims]
    def dim(self, i, vs):
        d = self.dims[i]
        return Z(d(*vs[:i])) if callable(d) else d
    def inside(self, vs):
        return And(*[And(v >= 0, v < self.dim(i, vs)) for i, v in enumerate(vs)], Z(self.mult(*vs)) > 0)
    def with_(self, **kw):
        b = Bag(self.dims, self.mult, self.elem, self.dtype, self.bound, self.rep)
        for k, v in kw.items():
            setattr(b, k, v)
        return b
class OA:
    """an array of objects: get(*idx) is a list of (condition, Bag or None or Hole)"""
    def __init__(self, shape, get):
        self.shape, self.get = tuple(Z(s) for s in shape), get
class Rows:
    """the rows of an object array selected by the elements of a bag"""
    def __init__(self, bag, oa):
        self.bag, self.oa = bag, oa
class Hole:
    def __init__(self, idx):
        self.idx = idx
class View:
    """a view: to(idx) -> base idx; back(base idx) -> (condition, idx)"""
    def __init__(self, base, shape, to, back):
        self.base, self.shape, self.to, self.back = base, tuple(shape), to, back
class Seg:
    def __init__(self, vs, dims, guard, value):
        self.vs, self.dims, self.guard, self.value = vs, dims, guard, value
class ListC:
    def __init__(self, segs, base=None):
        self.segs, self.base = segs, base
class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs
class DictC:
    def __init__(self, d):
        self.d = d
class SetC:
    def __init__(self, segs):
        self.segs = segs
class Func:
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_
class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_
class ClassM:
    def __init__(self, f):
        self.f = f
class StaticM:
    def __init__(self, f):
        self.f = f
class ClassV:
    def __init__(self, name, attrs, exc=False):
        self.name, self.attrs, self.exc = name, attrs, exc
class ModV:
    def __init__(self, name):
        self.name = name
class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c
    def none(self):
        return self.a is None and self.b is None and self.c is None
class SelV:
    """an abstract index (slice, index list or mask) of one or more axes, by its numpy contract"""
    def __init__(self, ndims, shape, sel, member, inv, kind='slice'):
        self.ndims, self.shape, self.sel, self.member, self.inv, self.kind = ndims, shape, sel, member, inv, kind
    def pyattr(self, ex, name):
        if self.kind != 'slice':
            if name == 'ndim':
                return self.ndims
            if name == 'dtype':
                return DT('bool' if self.kind == 'mask' else 'i8')
            if name == 'shape':
                return tuple(self.base) if self.kind == 'mask' else tuple(self.shape)
        raise Unsupported('attribute %s of an index' % name)
class RangeV:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step
class Seq:
    """an iterable of n items"""
    def __init__(self, n, get):
        self.n, self.get = n, get
class Space:
    """an iterable over a space of index vectors"""
    def __init__(self, dims, guard, get):
        self.dims, self.guard, self.get = dims, guard, get
class Kw:
    pass

def is_term(x):
    return isinstance(x, z3.ExprRef)
def is_num(x):
    return is_term(x) or (isinstance(x, (int, float)) and not isinstance(x, str)) or isinstance(x, F)
def is_arr(c):
    return isinstance(c, (D, Bag, OA, Rows))

def vsub(v, pairs):
    """substitution in a value; pairs of (constant, term)"""
    if not pairs:
        return v
    if is_term(v):
        return z3.simplify(z3.substitute(v, *pairs)) if v.sort() == INT else z3.substitute(v, *pairs)
    if isinstance(v, F):
        return F(vsub(v.nan, pairs), vsub(v.val, pairs))
    if isinstance(v, tuple):
        return tuple(vsub(x, pairs) for x in v)
    if isinstance(v, Bag):
        return Bag([lift_fn(d, i, pairs) if callable(d) else vsub(d, pairs) for i, d in enumerate(v.dims)], lift_fn(v.mult, len(v.dims), pairs),
                   lift_fn(v.elem, len(v.dims), pairs) if v.elem else None, v.dtype, vsub(v.bound, pairs) if v.bound is not None else None, v.rep)
    if isinstance(v, D):
        return D([vsub(s, pairs) for s in v.shape], lift_fn(v.read, len(v.shape), pairs), v.dtype)
    if isinstance(v, OA):
        return OA([vsub(s, pairs) for s in v.shape], lambda *idx: [(vsub_at(c, pairs, idx, v, j, 0), vsub_at(c, pairs, idx, v, j, 1)) for j, c in enumerate(oa_probe(v, idx, pairs))])
    if v is None or isinstance(v, (int, float, str, bool, Ref, Hole)):
        return v
    raise Unsupported('substitution in %s' % type(v))
def oa_probe(v, idx, pairs):
    fv = [fresh('x') for _ in idx]
    out = []
    for c, b in v.get(*fv):
        c2 = vsub(vsub(Z(c), pairs), list(zip(fv, [Z(i) for i in idx])))
        out.append((c2, vsub(vsub(b, pairs), list(zip(fv, [Z(i) for i in idx]))) if b is not None else None))
    return out
def vsub_at(c, pairs, idx, v, j, which):
    return c[which]
def lift_fn(f, n, pairs):
    def g(*a):
        fv = [fresh('x') for _ in a]
        return vsub(vsub(Zv(f(*fv)), pairs), list(zip(fv, [Z(x) for x in a])))
    return g
def Zv(x):
    return x if isinstance(x, (F, Bag, D)) else Z(x)

def fite(c, a, b):
    """ite on values that may be F"""
    c = Z(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, F) or isinstance(b, F):
        a, b = asF(a), asF(b)
        return F(ite(c, a.nan, b.nan), ite(c, a.val, b.val))
    return ite(c, a, b)
def asF(x):
    return x if isinstance(x, F) else F(False, x)
def isinst_bool(x):
    return isinstance(x, bool) or (is_term(x) and x.sort() == BOOL)
def num(x):
    """Bool -> Int"""
    x = Z(x)
    if is_term(x) and x.sort() == BOOL:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if not (z3.is_true(x) or z3.is_false(x)) else z3.IntVal(1 if z3.is_true(x) else 0)
    return x

class State:
    def __init__(self):
        self.heap, self.envs, self.pc = {}, {}, []
    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.pc = list(self.pc)
        return s

class Obl:
    def __init__(self, name, where, hyps, goal):
        self.name, self.where, self.hyps, self.goal = name, where, hyps, goal

class Exec:
    def __init__(self, th, files):
        self.th = th
        self.st = State()
        self.ids = itertools.count(1)
        self.obls = []
        self.oracle, self.made = [], []
        self.mods = {}
        self.used = set()
        self.loops = 0
        self.stack = []
        self.fact_cache = {}
        self.files = files
        import pynp
        self.np = pynp.Numpy(self)
        self.hyps = []
        self.warnings = 0
    # ---------------- heap
    def new(self, content):
        r = Ref(next(self.ids))
        self.st.heap[r.id] = content
        return r
    def raw(self, r):
        return self.st.heap[r.id]
    def snap(self, v):
        """an immutable copy of an array value"""
        if isinstance(v, Ref):
            c = self.raw(v)
            if isinstance(c, View):
                b = self.snap(c.base)
                if isinstance(b, D):
                    return D(c.shape, lambda *i: b.read(*c.to(*i)), b.dtype)
                if isinstance(b, OA):
                    return OA(c.shape, lambda *i: b.get(*c.to(*i)))
                raise Unsupported('view')
            return c
        return v
    # ---------------- proving
    def prove(self, goal, hyps=None, timeout=3000):
        goal = Z(goal)
        h = self.hyps + (self.st.pc if hyps is None else hyps)
        key = (goal.get_id(), tuple(x.get_id() for x in h))
        if key not in self.fact_cache:
            self.fact_cache[key] = (self.th.prove(h, goal, timeout) == 'proved', goal, h)
        return self.fact_cache[key][0]
    def oblige(self, name, goal, hyps=()):
        goal = Z(goal)
        if z3.is_true(goal):
            return
        self.obls.append(Obl(name, '.'.join(x for x in self.stack[-1:]), self.st.pc + list(hyps), goal))
    def branch(self, c):
        """the truth of a condition on the current path"""
        if isinstance(c, bool):
            return c
        c = self.truth(c)
        if isinstance(c, bool):
            return c
        k = const_of(c)
        if isinstance(k, bool):
            return k
        if self.prove(c):
            return True
        if self.prove(Not(c)):
            return False
        i = len(self.made)
        b = self.oracle[i] if i < len(self.oracle) else True
        self.made.append(b)
        self.st.pc.append(c if b else Not(c))
        return b
    def explore(self, st, run):
        """all paths of run() from the state; [(state, kind, value)]"""
        out = []
        saved = self.st, self.oracle, self.made
        work = [[]]
        mark = len(self.stack)
        while work:
            o = work.pop()
            self.st, self.oracle, self.made = st.copy(), o, []
            if len(out) > 64:
                raise Unsupported('too many paths')
            try:
                kind, v = 'ok', run()
            except PyRaise as e:
                kind, v = 'raise', e
            except _Return as e:
                kind, v = 'return', e.v
            except _Break:
                kind, v = 'break', None
            except _Continue:
                kind, v = 'ok', None
            except Infeasible:
                kind = None
            del self.stack[mark:]
            for i in range(len(o), len(self.made)):
                work.append(self.made[:i] + [False])
            if kind:
                out.append((self.st, kind, v))
        self.st, self.oracle, self.made = saved
        return out
    # ---------------- loops
    def iterable(self, v):
        """a concrete list of items, a Seq or a Space"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (Seq, Space)):
            return v
        if isinstance(v, RangeV):
            n = z3.simplify(Z(v.b) - Z(v.a)) if v.step == 1 else None
            if n is None:
                raise Unsupported('range step')
            k = const_of(n)
            if k is not None:
                return [z3.simplify(Z(v.a) + i) if not isinstance(v.a, int) else v.a + i for i in range(k)]
            return Seq(n, lambda i: z3.simplify(Z(v.a) + i))
        if isinstance(v, Ref):
            c = self.raw(v)
            if isinstance(c, ListC):
                if c.base is None and all(not s.dims and z3.is_true(Z(s.guard)) for s in c.segs):
                    return [s.value for s in c.segs]
                if c.base is None and len(c.segs) == 1:
                    s = c.segs[0]
                    return Space(s.dims, lambda *vs: vsub(Z(s.guard), list(zip(s.vs, vs))), lambda *vs: self.box(vsub(s.value, list(zip(s.vs, vs)))))
                raise Unsupported('iteration over a list')
            if isinstance(c, DictC):
                return list(c.d)
            c = self.snap(v)
            if isinstance(c, Rows):
                return Space(c.bag.dims, lambda *vs: Z(c.bag.mult(*vs)) > 0, lambda *vs: self.getitem(self.new(c.oa), c.bag.elem(*vs)), )
            if isinstance(c, Bag):
                return Space(c.dims, lambda *vs: Z(c.mult(*vs)) > 0, lambda *vs: c.elem(*vs))
            if isinstance(c, (D, OA)):
                n = const_of(c.shape[0])
                if n is not None:
                    return [self.getitem(v, i) for i in range(n)]
                return Seq(c.shape[0], lambda i: self.getitem(v, i, check=False))
        if isinstance(v, Obj):
            raise Unsupported('iteration over an object')
        raise Unsupported('iteration over %s' % type(v).__name__)
    def box(self, v):
        return self.new(v) if isinstance(v, (Bag, D, OA)) else v
    def enumerate(self, it, start=0):
        it = self.iterable(it)
        if isinstance(it, list):
            return [(start + i, x) for i, x in enumerate(it)]
        if isinstance(it, Seq):
            return Seq(it.n, lambda i: (z3.simplify(i + start), it.get(i)))
        raise Unsupported('enumerate over a filtered sequence')
    def zip(self, *its):
        its = [self.iterable(i) for i in its]
        if all(isinstance(i, list) for i in its):
            return [tuple(x) for x in zip(*its)]
        if all(isinstance(i, Seq) for i in its):
            n = its[0].n
            for j in its[1:]:
                if not j.n.eq(n) and not self.prove(j.n == n):
                    raise Unsupported('zip of different lengths')
            return Seq(n, lambda k: tuple(i.get(k) for i in its))
        if all(isinstance(i, Space) for i in its):
            a = its[0]
            vs = [fresh('v') for _ in a.dims]
            for b in its[1:]:
                if len(b.dims) != len(a.dims) or not all(x.eq(y) for x, y in zip(a.dims, b.dims)) or not self.prove(a.guard(*vs) == b.guard(*vs), self.st.pc + [And(v >= 0, v < d) for v, d in zip(vs, a.dims)]):
                    raise Unsupported('zip of sequences that are not aligned')
            return Space(a.dims, a.guard, lambda *vs: tuple(i.get(*vs) for i in its))
        raise Unsupported('zip')
    def run_loop(self, it, body):
        """execute body(item) for every item"""
        it = self.iterable(it)
        if isinstance(it, list):
            for x in it:
                try:
                    body(x)
                except _Continue:
                    continue
                except _Break:
                    return 'break'
            return
        if isinstance(it, Seq):
            self.summarise(it.n, lambda k: body(it.get(k)))
            return
        def level(vs):
            if len(vs) == len(it.dims):
                if self.branch(it.guard(*vs)):
                    body(it.get(*vs))
                return
            d = it.dims[len(vs)]
            d = Z(d(*vs)) if callable(d) else d
            self.summarise(d, lambda k: level(vs + [k]))
        level([])
    def hole_content(self, c, k, tag, table):
        th = self.th
        if isinstance(c, D):
            p = [fresh('i') for _ in c.shape]
            v = c.read(*p)
            comps = []
            if isinstance(v, F):
                comps = [th.fn('hn' + tag, 1 + len(c.shape), BOOL), th.fn('hv' + tag, 1 + len(c.shape), REAL)]
                rd = lambda *i: F(comps[0](k, *[Z(x) for x in i]), comps[1](k, *[Z(x) for x in i]))
            else:
                comps = [th.fn('h' + tag, 1 + len(c.shape), Z(v).sort())]
                rd = lambda *i: comps[0](k, *[Z(x) for x in i])
            for j, f in enumerate(comps):
                table[f.name()] = (tag, j)
            return D(c.shape, rd, c.dtype)
        if isinstance(c, OA):
            return OA(c.shape, lambda *i: [(TRUE, Hole(tuple(Z(x) for x in i)))])
        if isinstance(c, ListC):
            return ListC([], base='hole')
        raise Unsupported('a loop changes a %s' % type(c).__name__)
    def summarise(self, n, body):
        n = Z(n)
        self.loops += 1
        st0 = self.st
        mods_h, mods_l = set(), set()
        mark = len(self.obls)
        hook = getattr(self, 'loop_hook', None)
        for attempt in range(8):
            del self.obls[mark:]
            k = fresh('k')
            table = {}
            st = st0.copy()
            st.pc = st.pc + [k >= 0, k < n]
            for i in mods_h:
                st.heap[i] = self.hole_content(st0.heap[i], k, 'h%d' % i, table)
            lhole = {}
            for (e, nm) in mods_l:
                v = st0.envs[e][nm]
                if not is_num(v):
                    if isinstance(v, Ref) and isinstance(self.raw(v), D):
                        raise Unsupported('a loop rebinds the array %s' % nm)
                    raise Unsupported('a loop changes the variable %s' % nm)
                if isinstance(v, F):
                    f = [self.th.fn('hn', 1, BOOL), self.th.fn('hv', 1, REAL)]
                    st.envs[e][nm] = F(f[0](k), f[1](k))
                else:
                    srt = REAL if (e, nm) in lhole else Z(v).sort()
                    f = [self.th.fn('hl', 1, srt)]
                    st.envs[e][nm] = f[0](k)
                for j, g in enumerate(f):
                    table[g.name()] = ((e, nm), j)
            base = st.copy()
            paths = self.explore(st, lambda: body(k))
            nh = {i for s, _, _ in paths for i in st0.heap if s.heap[i] is not base.heap[i]}
            nl = set()
            for s, _, _ in paths:
                for e in st0.envs:
                    for nm in st0.envs[e]:
                        a, b = s.envs[e].get(nm), base.envs[e][nm]
                        if a is not b and not (isinstance(a, Ref) and a == b) and not (is_term(a) and is_term(b) and a.eq(b)) and not (not is_term(a) and not is_term(b) and type(a) == type(b) and isinstance(a, (int, str)) and a == b):
                            nl.add((e, nm))
            # variables that are loop-local in effect (assigned before they are read) are dropped instead
            for x in list(nl - mods_l):
                v = st0.envs[x[0]][x[1]]
                if not is_num(v):
                    nl.discard(x)
                    self.dead = getattr(self, 'dead', set())
                    self.dead.add(x)
            if nh <= mods_h and nl <= mods_l:
                break
            mods_h |= nh
            mods_l |= nl
        else:
            raise Unsupported('loop')
        base_pc = len(st.pc)
        good = []
        for s, kind, v in paths:
            if kind == 'ok':
                good.append((And(*s.pc[base_pc:]), s))
            else:
                what = 'no %s inside the loop' % ('exception (%s)' % v if kind == 'raise' else kind)
                self.obls.append(Obl(what, '.'.join(self.stack[-1:]), list(s.pc), FALSE))
                if not self.prove(FALSE, s.pc):
                    raise Unsupported('%s at %s' % (what, self.stack[-1:]))
                self.obls.pop()
        if not good:
            raise Unsupported('loop without a normal iteration')
        # ---- the cells
        cells = {}   # (cell, comp) -> (params, merged term, init, hole fn name)
        def merged(get):
            vals = [(c, get(s)) for c, s in good]
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = fite(c, v, r)
            return r
        finals = {}
        byname = {}
        for name, (cell, j) in table.items():
            byname[(cell, j)] = name
        for i in mods_h:
            c0 = st0.heap[i]
            if isinstance(c0, D):
                p = [fresh('i') for _ in c0.shape]
                ini = c0.read(*p)
                v = merged(lambda s: s.heap[i].read(*p))
                if isinstance(ini, F):
                    v = asF(v)
                    cells[('h%d' % i, 0)] = (p, v.nan, ini.nan)
                    cells[('h%d' % i, 1)] = (p, v.val, ini.val)
                else:
                    cells[('h%d' % i, 0)] = (p, Z(v), Z(ini))
        for x in mods_l:
            ini = st0.envs[x[0]][x[1]]
            v = merged(lambda s: s.envs[x[0]][x[1]])
            if isinstance(ini, F):
                v = asF(v)
                cells[(x, 0)] = ([], v.nan, ini.nan)
                cells[(x, 1)] = ([], v.val, ini.val)
            else:
                v, ini = Z(v), Z(ini)
                if v.sort() != ini.sort() and REAL in (v.sort(), ini.sort()):
                    raise Unsupported('the variable %s changes its type in a loop' % x[1])
                cells[(x, 0)] = ([], v, ini)
        solved = {}    # (cell, j) -> (params, fn(m) -> term)
        pending = dict(cells)
        while pending:
            progress = False
            for key in list(pending):
                p, e, ini = pending[key]
                hname = byname[key]
                # arguments of the hole that are equal to the cell's own index under the guards
                e = self.own_index(e, hname, k, p)
                # other cells' holes by their solved values at the start of the iteration
                deps = {a.decl().name() for a in apps([e]) if a.decl().name() in table and a.decl().name() != hname}
                if any(table[d] not in solved for d in deps):
                    continue
                for d in deps:
                    q, fn = solved[table[d]]
                    e = self.replace_fn(e, d, lambda args, q=q, fn=fn: z3.substitute(fn(args[0]), *zip(q, args[1:])) if q else fn(args[0]))
                solved[key] = (p, self.solve_cell(e, hname, k, p, ini, n))
                del pending[key]
                progress = True
            if not progress:
                raise Unsupported('cells that depend on each other in a loop')
        def close(t):
            for _ in range(6):
                names = {a.decl().name() for a in apps([t]) if a.decl().name() in table}
                if not names:
                    return t
                for d in names:
                    q, fn = solved[table[d]]
                    t = self.replace_fn(t, d, lambda args: z3.substitute(fn(args[0]), *zip(q, args[1:])) if q else fn(args[0]))
            raise Unsupported('holes')
        for o in self.obls[mark:]:
            o.hyps = [close(h) for h in o.hyps]
            o.goal = close(o.goal)
        # ---- the state after the loop
        new = st0
        for i in mods_h:
            c0 = st0.heap[i]
            if isinstance(c0, D):
                def mk(i=i, c0=c0):
                    p, f0 = solved[('h%d' % i, 0)]
                    t0 = f0(n)
                    t1 = solved[('h%d' % i, 1)][1](n) if ('h%d' % i, 1) in solved else None
                    def rd(*idx):
                        s = list(zip(p, [Z(x) for x in idx]))
                        a = z3.substitute(t0, *s) if s else t0
                        if t1 is None:
                            return a
                        return F(a, z3.substitute(t1, *[(q, Z(x)) for q, x in zip(solved[('h%d' % i, 1)][0], idx)]))
                    return D(c0.shape, rd, c0.dtype)
                new.heap[i] = mk()
            elif isinstance(c0, ListC):
                new.heap[i] = self.close_list(c0, [(close(c), s.heap[i]) for c, s in good], k, n, close)
            elif isinstance(c0, OA):
                new.heap[i] = self.close_oa(c0, [(close(c), s.heap[i]) for c, s in good], k, n, close)
        for x in mods_l:
            f0 = solved[(x, 0)][1](n)
            v = f0 if (x, 1) not in solved else F(f0, solved[(x, 1)][1](n))
            new.envs[x[0]][x[1]] = v
        self.st = new
    def map_terms(self, v, f):
        """apply f to the terms of a value"""
        if is_term(v):
            return f(v)
        if isinstance(v, F):
            return F(f(v.nan), f(v.val))
        if isinstance(v, Bag):
            nd = len(v.dims)
            def w(g):
                def h(*a):
                    fv = [fresh('x') for _ in a]
                    r = self.map_terms(Zv(g(*fv)), f)
                    return vsub(r, list(zip(fv, [Z(x) for x in a])))
                return h
            return Bag([w(d) if callable(d) else f(d) for d in v.dims], w(v.mult), w(v.elem) if v.elem else None, v.dtype, f(v.bound) if v.bound is not None else None, v.rep)
        if isinstance(v, tuple):
            return tuple(self.map_terms(x, f) for x in v)
        if isinstance(v, D):
            def rd(*a):
                fv = [fresh('x') for _ in a]
                return vsub(self.map_terms(Zv(v.read(*fv)), f), list(zip(fv, [Z(x) for x in a])))
            return D([f(s) for s in v.shape], rd, v.dtype)
        return v
    def close_list(self, c0, ends, k, n, close):
        segs = list(c0.segs)
        for c, l in ends:
            for s in l.segs:
                k2 = fresh('k')
                sub = [(k, k2)]
                dims = [n] + [self.map_terms(d, close) if not callable(d) else d for d in s.dims]
                dims = [dims[0]] + [vsub(d, sub) for d in dims[1:]]
                segs.append(Seg([k2] + s.vs, dims, vsub(And(c, close(Z(s.guard))), sub), vsub(self.map_terms(s.value, close), sub)))
        # the order of the segments of different loops does not matter to a multiset; several segments of one loop interleave
        return ListC(segs, c0.base)
    def close_oa(self, c0, ends, k, n, close):
        def get(*idx):
            idx = [Z(x) for x in idx]
            out, rest = [], TRUE
            for c, oa in ends:
                for cc, v in oa.get(*idx):
                    cc = And(c, close(Z(cc)))
                    if isinstance(v, Hole):
                        if not all(a.eq(b) for a, b in zip(v.idx, idx)):
                            raise Unsupported('object cells read across iterations')
                        continue
                    v = self.map_terms(v, close) if v is not None else None
                    g, sol = self.last_k(cc, k, n)
                    if sol is None:
                        if not has_val(v, k) and not has(g, k):
                            # the same write in every iteration
                            out.append((And(g, n > 0), v))
                            rest = And(rest, Not(And(g, n > 0)))
                            continue
                        raise Unsupported('object cell written in a loop: %s' % cc)
                    out.append((And(vsub(g, [(k, sol)]), sol < n), vsub(v, [(k, sol)]) if v is not None else None))
                    rest = And(rest, Not(out[-1][0]))
            for cc, v in c0.get(*idx):
                out.append((And(rest, Z(cc)), v))
            return [(z3.simplify(a), b) for a, b in out if not z3.is_false(z3.simplify(a))]
        return OA(c0.shape, get)
    def own_index(self, e, hname, k, p):
        """rewrites hole(k, t) to hole(k, p) where the guards above imply t = p"""
        if not p:
            return e
        def walk(t, env):
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                c2 = walk(c, env)
                return ite(c2, walk(a, env + conj(c2)), walk(b, env + [Not(c2)])) if a.sort() != BOOL else z3.If(c2, walk(a, env + conj(c2)), walk(b, env + [Not(c2)]))
            if z3.is_app(t) and t.num_args():
                ch = [walk(x, env) for x in t.children()] if not z3.is_and(t) else None
                if ch is None:
                    cs, e2 = [], list(env)
                    for x in t.children():
                        y = walk(x, e2)
                        cs.append(y)
                        e2.append(y)
                    return And(*cs)
                if t.decl().name() == hname and not all(a.eq(b) for a, b in zip(ch[1:], p)):
                    if all(a.eq(b) or self.prove(a == b, self.st.pc + env) for a, b in zip(ch[1:], p)):
                        return t.decl()(ch[0], *p)
                return t.decl()(*ch)
            return t
        return walk(e, [])
    def replace_fn(self, t, name, fn):
        memo = {}
        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.decl().name() == name:
                    r = fn(ch)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = rebuild(x, ch)
            memo[i] = (x, r)
            return r
        return go(t)
    def solve_cell(self, e, hname, k, p, ini, n):
        bad = [a for a in apps([e]) if a.decl().name() == hname and not (a.arg(0).eq(k) and all(x.eq(y) for x, y in zip(a.children()[1:], p)))]
        if bad:
            raise Unsupported('a loop reads other cells of the array it changes: %s' % bad[0])
        acc = fresh('acc', e.sort())
        e = self.replace_fn(e, hname, lambda args: acc)
        e = z3.simplify(e) if e.sort() == INT else e
        if not has(e, acc):
            # overwritten in every iteration: the last one counts
            return lambda m: ite(Z(m) > 0, z3.substitute(e, (k, Z(m) - 1)), ini)
        d = additive(e, acc)
        if d is not None:
            return lambda m: ini + self.th.sum_of(Z(m), k, d)
        o = overwrite(e, acc)
        if o is not None:
            cond, val = o
            g, sol = self.last_k(cond, k, n)
            if sol is not None:
                return lambda m: ite(And(z3.substitute(g, (k, sol)), sol < Z(m)), z3.substitute(val, (k, sol)), ini)
            if not has(cond, k) and not has(val, k):
                return lambda m: ite(And(cond, Z(m) > 0), val, ini)
        return lambda m: self.th.rec_of(Z(m), k, acc, ini, e)
    def last_k(self, cond, k, n):
        """cond determines k: (condition including 0 <= k, solution) or (cond, None)"""
        cs = nnf(z3.simplify(cond), True) if is_term(cond) else []
        for c in cs:
            if z3.is_eq(c) and c.arg(0).sort() == INT:
                t = solve_eq(c.arg(0), c.arg(1), k)
                if t is not None:
                    return And(cond, t >= 0), t
        # k / W == q and k % W == r
        for c in cs:
            if z3.is_eq(c):
                for a, b in (c.children(), c.children()[::-1]):
                    if z3.is_app_of(a, z3.Z3_OP_MOD) and a.arg(0).eq(k) and not has(a.arg(1), k) and not has(b, k):
                        W = a.arg(1)
                        for c2 in cs:
                            if z3.is_eq(c2):
                                for x, y in (c2.children(), c2.children()[::-1]):
                                    if z3.is_app_of(x, z3.Z3_OP_IDIV) and x.arg(0).eq(k) and x.arg(1).eq(W) and not has(y, k):
                                        if self.prove(W > 0, self.st.pc + [k >= 0, k < n]):
                                            t = y * W + b
                                            rest = [z for z in cs if z is not c and z is not c2]
                                            return And(*rest, W > 0, b >= 0, b < W, t >= 0), t
        # 0 <= x - k*W < W
        lo = [bound_of(c, k) for c in cs]
        for b in lo:
            if b is None:
                continue
            x, W = b     # c is  k*W <= x ; needs x < k*W + W
            hi = z3.simplify(x - k * W < W)
            if self.prove(Implies(And(cond), x - k * W < W), self.st.pc + [k >= 0, k < n]) and self.prove(W > 0, self.st.pc):
                q = x / W
                return And(cond, q >= 0), q
        return cond, None

def has_val(v, k):
    if v is None:
        return False
    if is_term(v):
        return has(v, k)
    if isinstance(v, Bag):
        fv = v.vars()
        return has(Z(v.mult(*fv)), k) or (v.elem is not None and has(Z(v.elem(*fv)), k)) or any(has(v.dim(i, fv), k) for i in range(len(fv)))
    return True
def rebuild(x, ch):
    kd = x.decl().kind()
    if kd == z3.Z3_OP_ITE:
        return ite(*ch) if ch[1].sort() != BOOL else z3.If(*ch)
    if kd == z3.Z3_OP_AND:
        return And(*ch)
    if kd == z3.Z3_OP_OR:
        return Or(*ch)
    if kd == z3.Z3_OP_NOT:
        return Not(ch[0])
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(ch)
    return x.decl()(*ch)
def bound_of(c, k):
    """(x, W) when c says k*W <= x"""
    if z3.is_not(c):
        c2 = c.arg(0)
        if z3.is_le(c2):
            l, r = c2.arg(0), c2.arg(1) + 1      # not l <= r  ->  r + 1 <= l
            l, r = r, l
        elif z3.is_ge(c2):
            l, r = c2.arg(0) + 1, c2.arg(1)
        else:
            return None
    elif z3.is_le(c):
        l, r = c.arg(0), c.arg(1)
    elif z3.is_ge(c):
        l, r = c.arg(1), c.arg(0)
    else:
        return None
    d = z3.simplify(l - r, som=True)    # d <= 0
    terms = d.children() if z3.is_add(d) else [d]
    W, rest = None, []
    for t in terms:
        if has(t, k):
            if z3.is_mul(t) and W is None:
                cs = [x for x in t.children() if not x.eq(k)]
                if len(cs) == t.num_args() - 1 and not any(has(x, k) for x in cs):
                    W = z3.Product(cs) if len(cs) > 1 else cs[0]
                    continue
            return None
        rest.append(t)
    if W is None:
        return None
    if z3.is_int_value(W) and W.as_long() < 0:
        return None
    return z3.simplify(-z3.Sum(rest)) if rest else z3.IntVal(0), W
def additive(e, acc):
    """d with e = acc + d"""
    if e.eq(acc):
        return z3.RealVal(0) if acc.sort() == REAL else z3.IntVal(0)
    if acc.sort() == BOOL or not has(e, acc):
        return None
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        if has(e.arg(0), acc):
            return None
        a, b = additive(e.arg(1), acc), additive(e.arg(2), acc)
        return ite(e.arg(0), a, b) if a is not None and b is not None else None
    if z3.is_add(e):
        w = [x for x in e.children() if has(x, acc)]
        if len(w) == 1:
            d = additive(w[0], acc)
            if d is not None:
                return z3.Sum([x for x in e.children() if not has(x, acc)] + [d])
    if e.decl().kind() == z3.Z3_OP_SUB and has(e.arg(0), acc) and not any(has(x, acc) for x in e.children()[1:]):
        d = additive(e.arg(0), acc)
        return None if d is None else d - z3.Sum(e.children()[1:])
    return None
def overwrite(e, acc):
    """(c, v) with e = ite(c, v, acc)"""
    if e.sort() == BOOL:
        # (c and v) or (not c and acc)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            pass
        elif z3.is_or(e) and e.num_args() == 2:
            for x, y in (e.children(), e.children()[::-1]):
                if has(x, acc) or not has(y, acc):
                    continue
                cy = conj(y)
                rest = [c for c in cy if not c.eq(acc)]
                if len(rest) == len(cy) - 1 and not any(has(c, acc) for c in rest):
                    c = Not(And(*rest))
                    return c, x
        if not z3.is_app_of(e, z3.Z3_OP_ITE):
            return overwrite_bool(e, acc)
    if not z3.is_app_of(e, z3.Z3_OP_ITE) or has(e.arg(0), acc):
        return None
    c, a, b = e.children()
    if b.eq(acc) and not has(a, acc):
        return c, a
    if a.eq(acc) and not has(b, acc):
        return Not(c), b
    oa = overwrite(a, acc) if has(a, acc) and not a.eq(acc) else ((FALSE, None) if a.eq(acc) else (TRUE, a))
    ob = overwrite(b, acc) if has(b, acc) and not b.eq(acc) else ((FALSE, None) if b.eq(acc) else (TRUE, b))
    if oa is None or ob is None:
        return None
    if oa[1] is None or ob[1] is None:
        cc, v = (And(c, oa[0]), oa[1]) if ob[1] is None else (And(Not(c), ob[0]), ob[1])
        return (cc, v) if v is not None else None
    return either(c, oa[0], ob[0]), ite(c, oa[1], ob[1])
def overwrite_bool(e, acc):
    """(c, v) with e = ite(c, v, acc), c with an equation in front that it implies"""
    f, t = (z3.simplify(z3.substitute(e, (acc, z3.BoolVal(b)))) for b in (False, True))
    def valid(g):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(Not(g))
        return s.check() == z3.unsat
    c = z3.simplify(t == f)
    if not valid(Implies(f, t)):
        return None
    eqs, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == INT:
            eqs.append(x)
        elif x.sort() == BOOL:
            todo += x.children()
    for x in eqs:
        if valid(Implies(c, x)):
            sub = lambda y: z3.simplify(z3.substitute(y, (x, z3.BoolVal(True))))
            return And(x, sub(c)), sub(f)
    return c, f
def either(c, a, b):
    """(c and a) or (not c and b), with the common conjuncts in front"""
    ca, cb = conj(z3.simplify(a)) if is_term(a) else [], conj(z3.simplify(b)) if is_term(b) else []
    common = [x for x in ca if any(x.eq(y) for y in cb)]
    ra, rb = And(*[x for x in ca if not any(x.eq(y) for y in common)]), And(*[x for x in cb if not any(x.eq(y) for y in common)])
    rest = TRUE if ra is TRUE and rb is TRUE or z3.is_true(Z(ra)) and z3.is_true(Z(rb)) else Or(And(c, ra), And(Not(c), rb))
    return And(*common, rest)

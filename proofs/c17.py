from pycommon import *
import itertools
ASSUMPTIONS = ['an index array is given by its numpy contract: a sequence of distinct positions within the axis']

class Sel:
    """an arbitrary slice of one axis: L distinct positions"""
    def __init__(self, T, name, n, kind='slice'):
        th = T.th
        L = self.L = T.int('L' + name, 0)
        self.n = n
        # sel and inv are inverse to each other between [0, L) and the positions of [0, n) that are members
        self.member = th.fn('member' + name, 1, BOOL)
        self.inv = th.fn('inv' + name, 1)
        self.sel = th.fn('sel' + name, 1)
        th.facts[self.sel.name()] = [lambda k: Implies(And(k >= 0, k < L), And(self.sel(k) >= 0, self.sel(k) < n, self.member(self.sel(k)), self.inv(self.sel(k)) == k))]
        th.facts[self.inv.name()] = [lambda b: Implies(And(b >= 0, b < n, self.member(b)), And(self.inv(b) >= 0, self.inv(b) < L, self.sel(self.inv(b)) == b))]
        th.facts[self.member.name()] = [lambda b: Implies(And(b >= 0, b < n, self.member(b)), And(self.inv(b) >= 0, self.inv(b) < L, self.sel(self.inv(b)) == b))]
        self.value = SelV(1, [L], lambda k: [self.sel(Z(k))], lambda b: And(Z(b) >= 0, Z(b) < n, self.member(Z(b))), lambda b: [self.inv(Z(b))], kind)
        self.value.base = [n]

class Mask2:
    """a boolean mask of two axes: L distinct pairs of positions"""
    def __init__(self, T, name, n, m):
        th = T.th
        L = self.L = T.int('L' + name, 0)
        self.n, self.m = n, m
        self.member = th.fn('member' + name, 2, BOOL)
        self.inv = th.fn('inv' + name, 2)
        self.s0, self.s1 = th.fn('sel_row' + name, 1), th.fn('sel_col' + name, 1)
        f = lambda k: Implies(And(k >= 0, k < L), And(self.s0(k) >= 0, self.s0(k) < n, self.s1(k) >= 0, self.s1(k) < m, self.member(self.s0(k), self.s1(k)), self.inv(self.s0(k), self.s1(k)) == k))
        g = lambda a, b: Implies(And(a >= 0, a < n, b >= 0, b < m, self.member(a, b)), And(self.inv(a, b) >= 0, self.inv(a, b) < L, self.s0(self.inv(a, b)) == a, self.s1(self.inv(a, b)) == b))
        for x in (self.s0, self.s1):
            th.facts[x.name()] = [f]
        for x in (self.member, self.inv):
            th.facts[x.name()] = [g]
        self.value = SelV(2, [L], lambda k: [self.s0(Z(k)), self.s1(Z(k))], lambda a, b: And(Z(a) >= 0, Z(a) < n, Z(b) >= 0, Z(b) < m, self.member(Z(a), Z(b))), lambda a, b: [self.inv(Z(a), Z(b))], 'mask')
        self.value.base = [n, m]
        T.masks.append(self)
    def rule(self, th, n, k, u, d):
        """sum over the pixels of the mask with a given number: that pixel"""
        for c in u:
            if z3.is_eq(c):
                for a, t in (c.children(), c.children()[::-1]):
                    if z3.is_app(a) and a.decl().eq(self.inv) and not has(t, k) and z3.simplify(n - self.n * self.m, som=True).eq(z3.IntVal(0)):
                        if a.arg(0).eq(k / self.m) and a.arg(1).eq(k % self.m) and any(z3.is_app(x) and x.decl().eq(self.member) and all(p.eq(q) for p, q in zip(x.children(), a.children())) for x in u):
                            e = self.s0(t) * self.m + self.s1(t)
                            sub = lambda x: z3.simplify(z3.substitute(x, (k / self.m, self.s0(t)), (k % self.m, self.s1(t)), (k, e)))
                            return ite(And(t >= 0, t < self.L, *[sub(x) for x in u if x is not c]), z3.substitute(d, (k / self.m, self.s0(t)), (k % self.m, self.s1(t)), (k, e)), z3.IntVal(0))
        return None

def index(T, kind, name, n):
    if kind == ':':
        return SliceV(None, None, None)
    if kind == 'i':
        i = T.int('i' + name, 0)
        T.assume(i < n)
        return i
    if kind == 'n':
        i = T.int('i' + name, 1)
        T.assume(i <= n)
        return -i
    s = Sel(T, name, n, {'s': 'slice', 'l': 'list', 'm': 'mask'}[kind])
    T.sels.append(s)
    return s.value

def indexing(kinds, scan, sparse):
    def f(T):
        T.sels, T.masks = [], []
        A = T.array(scan)
        T.th.sum_rules += [mask_rule(T), flat_rule(T), sel_rule(T), bounds_rule(T)]
        sizes = A.S + [A.H, A.W]
        key, i = [], 0
        for k in kinds:
            if k == 'M':
                key.append(Mask2(T, str(i), sizes[i], sizes[i + 1]).value)
                i += 2
            else:
                key.append(index(T, k, str(i), sizes[i]))
                i += 1
        key = tuple(key)
        T.ex.raw(A.ref).attrs['sparse_slicing'] = sparse
        A.attrs['sparse_slicing'] = sparse
        dn = T.ex.new(D(sizes, lambda *i: A.D(A.pos(*i[:scan]), i[-2] * A.W + i[-1]), A.dtype))
        outs = run_index(T, A, key, dn)
        if not sparse:
            # a full expansion may be denied
            for st, kind, v in outs:
                if kind == 'raise' and 'FullExpansionDenied' in str(v):
                    T.ensure('an expansion is denied only if it is not allowed', Not(A.allow_full_expand), st)
            outs = [o for o in outs if not (o[1] == 'raise' and 'FullExpansionDenied' in str(o[2]))]
        for st, v in T.normal(outs):
            spec, v = v
            sp = dense(st, T.ex, spec)
            nd = 0 if not isinstance(sp, D) else len(sp.shape)
            if isinstance(v, Ref) and isinstance(st.heap[v.id], Obj):
                R = Result(T, st, v)
                shape = R.scan_shape + R.frame_shape
                T.fact('the result has the right number of axes', len(shape) == nd and len(R.frame_shape) == 2 or len(shape) == nd)
                ns = len(R.scan_shape)
                p, e = fresh('p'), fresh('e')
                np_, ne = prod(R.scan_shape), prod(R.frame_shape)
                inb = [p >= 0, p < np_, e >= 0, e < ne]
                idx = unravel(p, R.scan_shape) + unravel(e, R.frame_shape)
                for a, b in zip(shape, sp.shape):
                    T.ensure('the result has the right shape', a == b, st)
                T.ensure('there is one row per position', R.P == np_, st)
                T.ensure('the values are those of the dense expansion', R.D(p, e) == sp.read(*idx), st, inb)
            else:
                d = dense(st, T.ex, v)
                if nd == 0:
                    T.ensure('the value is that of the dense expansion', Z(d if not isinstance(d, D) else d.read()) == Z(sp if not isinstance(sp, D) else sp.read()), st)
                else:
                    T.fact('the result has the right number of axes', isinstance(d, D) and len(d.shape) == nd)
                    for a, b in zip(d.shape, sp.shape):
                        T.ensure('the result has the right shape', a == b, st)
                    idx = [fresh('i') for _ in sp.shape]
                    inb = [And(i >= 0, i < s) for i, s in zip(idx, sp.shape)]
                    T.ensure('the values are those of the dense expansion', d.read(*idx) == sp.read(*idx), st, inb)
            T.unchanged(A, st)
    return f
def run_index(T, A, key, dn):
    ex = T.ex
    def go():
        spec = ex.np.get_item(dn, key)
        return spec, ex.getitem(A.ref, key)
    out = []
    for st, kind, v in ex.explore(ex.st, go):
        out.append((st, kind, v))
    return out

def prod(ss):
    return z3.simplify(z3.Product(list(ss))) if len(ss) > 1 else ss[0]
def unravel(p, ss):
    out = []
    for s in reversed(ss[1:]):
        out.append(p % s)
        p = p / s
    return [p] + out[::-1]
def mask_rule(T):
    def rule(th, n, k, u, d):
        for m in T.masks:
            r = m.rule(th, n, k, u, d)
            if r is not None:
                return r
        return None
    return rule
def sel_rule(T):
    """sum over the members b of an axis = sum over the selected positions, b = sel(k)"""
    def rule(th, n, k, u, d):
        for s in T.sels:
            for c in u:
                if z3.is_app(c) and c.decl().eq(s.member) and c.arg(0).eq(k) and s.n.eq(n):
                    y = fresh('y')
                    sub = [(k, s.sel(y))]
                    fix = lambda t: T.ex.replace_fn(z3.substitute(t, *sub), s.inv.name(), lambda a: y if a[0].eq(s.sel(y)) else s.inv(a[0]))
                    return th.gsum(s.L, y, [fix(x) for x in u if not x.eq(c)], fix(d))
        return None
    return rule

def reshape(new_scan, old_scan, as_tuple, via):
    def f(T):
        A = T.array(old_scan)
        ns = [T.int('n%d' % i, 1) for i in range(new_scan)]
        h, w = T.int('h', 1), T.int('w', 1)
        args = tuple(ns + [h, w])
        ex = T.ex
        def go():
            if via == 'shape':
                ex.setattr(A.ref, 'shape', args)
                return A.ref
            return ex.call(ex.getattr(A.ref, 'reshape'), [args] if as_tuple else list(args), {})
        ok = And(prod(ns) == A.P, h * w == A.N)
        for st, kind, v in ex.explore(ex.st, go):
            o = st.heap[A.ref.id].attrs
            same = all(o[k] is x or (isinstance(x, Ref) and o[k] == x) or (is_term(x) and o[k].eq(x)) for k, x in A.attrs.items() if k not in ('scan_shape', 'frame_shape')) and st.heap[A.data.id] is ex.st.heap[A.data.id]
            T.fact('the events are not changed', same)
            if kind == 'raise':
                T.ensure('a reshape is refused only if the sizes differ', Not(ok), st)
                T.fact('a refused reshape changes nothing', tuple(o['scan_shape']) == tuple(A.attrs['scan_shape']) and tuple(o['frame_shape']) == tuple(A.attrs['frame_shape']))
                continue
            T.ensure('a reshape is accepted only if the sizes agree', ok, st)
            T.fact('the array itself is returned', v == A.ref)
            R = Result(T, st, v)
            T.fact('the result has the right number of axes', len(R.scan_shape) == new_scan and len(R.frame_shape) == 2)
            for a, b in zip(R.scan_shape + R.frame_shape, ns + [h, w]):
                T.ensure('the result has the new shape', a == b, st)
    return f

def tasks():
    out = []
    for sparse in (True, False):
        for kinds in KINDS:
            out.append(PyTask('array[%s], %s' % (', '.join(kinds), 'sparse' if sparse else 'dense'), indexing(kinds, 2, sparse)))
        for kinds in KINDS1:
            out.append(PyTask('array[%s] of a 1-D scan, %s' % (', '.join(kinds), 'sparse' if sparse else 'dense'), indexing(kinds, 1, sparse)))
    for a in (1, 2):
        for b in (1, 2):
            out.append(PyTask('reshape, %d-D scan to %d-D scan' % (a, b), reshape(b, a, False, 'call')))
    out += [PyTask('reshape by a tuple', reshape(2, 2, True, 'call')), PyTask('shape = ...', reshape(2, 2, True, 'shape'))]
    return out
KINDS = ['%s%s' % (a, b) for a in ('ss', 'si', 'is', 'ns', 'ii', '::', ':s', 's:') for b in ('::', 'ss', 's:', ':s', 'si', 'ns', ':i')] + ['iiii', 'nnnn', 'ii', 'ss', 'is', 'sn', 'iis', 'sss', 's', 'i', 'ss i'.replace(' ', '')]
KINDS += ['sl', 'ls', 'lsss', 'slss', 'ssls', 'sssl', '::l', ':::l', 'l', 'M', 'Mss', 'Ms', 'ssM', '::M', 'sm', 'ms', '::m:']
KINDS1 = ['s', 'i', 'n', 'l', 'sss', 'isn', 'i', ':', 'sl:', 'lss', ':M', 'sM', 'm', ':s', '::s', 'ii', 'iii', 'si']

"""Contracts of the C++ standard library (and of the allocation functions) used at call sites.
These are the trusted specifications: the library's own code is not verified.

A std::vector has value semantics: its elements live in a data region of their own, whose number
of elements is part of the state; the begin/end pointers are derived from it.  Every function
that changes a vector is one of the contracts below."""
import re
import z3
from core import *
from llexec import *

SCALAR = {'unsigned short': (2, ('int', 16), False), 'short': (2, ('int', 16), True), 'unsigned int': (4, ('int', 32), False), 'int': (4, ('int', 32), True),
          'unsigned long': (8, ('int', 64), False), 'long': (8, ('int', 64), True), 'float': (4, ('real', 32), None), 'double': (8, ('real', 64), None),
          'unsigned char': (1, ('int', 8), False), 'char': (1, ('int', 8), True), 'signed char': (1, ('int', 8), True), 'bool': (1, ('int', 8), False),
          'unsigned long long': (8, ('int', 64), False)}
# sizes and pointer fields of class types that occur as vector elements: name -> (size, {offset: vector element type})
STRUCTS = {}
# offsets of fields that are pointers to storage owned by the element (new[] or shared_ptr): the storage is
# treated like a nested vector.  name -> {offset: element type}
OWNED = {}
def owned(t):
    if t.endswith('*') and t[:-1].strip() in SCALAR:
        return {0: t[:-1].strip()}
    return OWNED.get(t, {})

def targ(s, i=0):
    """template argument number i of the first <...> in s"""
    a = s.index('<') + 1
    d, out, cur = 0, [], ''
    for ch in s[a:]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out[i]

def elem(ex, t):
    """(size, fields {off: type}, nested vectors {off: element type}) of element type name t"""
    if t in SCALAR:
        s, ty, sg = SCALAR[t]
        return s, {0: (ty, sg)}, {}
    if t.startswith('std::vector<'):
        return 24, {}, {0: targ(t)}
    if t.startswith('std::pair<'):
        a, b = elem(ex, targ(t)), elem(ex, targ(t, 1))
        o = a[0] if a[0] % b[0] == 0 else a[0] + b[0] - a[0] % b[0]
        f = dict(a[1])
        f.update({o + k: v for k, v in b[1].items()})
        n = dict(a[2])
        n.update({o + k: v for k, v in b[2].items()})
        al = max([4 if not (a[0] >= 8 or b[0] >= 8) else 8])
        return -(-(o + b[0]) // al) * al, f, n
    if t in STRUCTS:
        return STRUCTS[t]
    if owned(t):
        return 8, {}, owned(t)
    raise Unsupported('elements of type %s' % t)

def data_region(ex, t, name, lead):
    """a new data region of a vector with elements of type t"""
    size, fields, nested = elem(ex, t)
    D = ex.region(name, stride=size, size=None, lead=lead)
    D.dyn = True
    D.elem = t
    D.fields = {o: ty for o, (ty, sg) in fields.items()}
    for o, (ty, sg) in fields.items():
        if sg:
            D.sorts[o] = ('int', ty[1], True)
    D.vec = {}
    D.own = set(owned(t))
    for o, et in nested.items():
        D.vec[o] = data_region(ex, et, name + '.e', lead + 1)
    return D

def vec_of(ex, st, pv, t=None, name='vector'):
    """(data region, index parameters) of the vector object at pv; registers it if t is given"""
    if not isinstance(pv, Ptr):
        raise Unsupported('vector at %r' % type(pv).__name__)
    live = [o for o in pv.opts if not z3.is_false(o[0])]
    if len(live) != 1 or live[0][1] is None:
        raise Unsupported('vector behind an ambiguous pointer')
    g, reg, par, off = live[0]
    if not hasattr(reg, 'vec'):
        reg.vec = {}
    if reg.stride is None:
        o = off.const_value() if off.is_const() else None
        if o is None:
            raise Unsupported('vector at a variable offset of a record')
        if o not in reg.vec:
            if t is None:
                raise Unsupported('unknown vector at %s+%d' % (reg.name, o))
            reg.vec[o] = data_region(ex, t, reg.name.split('#')[0] + '.data', 0)
        return reg.vec[o], tuple(par)
    idx, f = ex.place(st, reg, par, off, 24, 'vector')
    ex.bounds(st, g, reg, par, idx, 'vector object', 'access')
    if f not in reg.vec:
        raise Unsupported('unknown vector in %s+%d' % (reg.name, f))
    return reg.vec[f], tuple(par) + (idx,)

def vsize(ex, st, D, par):
    return dynsize(ex, st, D, par)
def set_vsize(ex, st, D, par, n):
    n = P(n)
    if D.lead == 0:
        st.mem[('c', D, 'n')] = I(n, 64)
    else:
        a = size_array(ex, st, D)
        st.mem[('a', D, 'n')] = Store(a, par, n)

def contents(ex, st, D):
    """{field offset: array}"""
    return {o: ex.array(st, D, o, ty) for o, ty in D.fields.items()}
def set_slice(ex, st, D, par, fn, lo=None, hi=None):
    """fn(field offset) -> function(index) giving the new elements of the vector at par in [lo,hi)"""
    for o, ty in D.fields.items():
        a = ex.array(st, D, o, ty)
        g = fn(o)
        st.mem[('a', D, o)] = Slice(a, par, lo, hi, g)

class Slice:
    """elements with the given leading indices (and last index in [lo,hi) if given) are g(last index)"""
    __slots__ = ('a', 'lead', 'lo', 'hi', 'g', 'sort', 'arity')
    def __init__(self, a, lead, lo, hi, g):
        self.a, self.lead, self.lo, self.hi, self.g, self.sort, self.arity = a, tuple(lead), lo, hi, g, a.sort, a.arity
    def read(self, idx):
        k = len(self.lead)
        c = [P(i).eq(j) for i, j in zip(idx[:k], self.lead)]
        if self.lo is not None:
            c.append(P(idx[k]) >= self.lo)
        if self.hi is not None:
            c.append(P(idx[k]) < self.hi)
        c = And(*c)
        if z3.is_false(c):
            return self.a.read(idx)
        v = self.g(*idx[k:])
        if z3.is_true(c):
            return v
        o = self.a.read(idx)
        return iteP(c, v, o) if self.sort == 'int' else iteR(c, v, o)

def copy_vec(ex, st, D, par, S, spar):
    """vector at (D,par) := vector at (S,spar), deep"""
    n = vsize(ex, st, S, spar)
    for o, ty in D.fields.items():
        if S.fields.get(o) != ty:
            raise Unsupported('copy between vectors of different types')
        src = ex.array(st, S, o, ty)
        a = ex.array(st, D, o, ty)
        st.mem[('a', D, o)] = Slice(a, par, None, None, lambda *i, src=src: src.read(tuple(spar) + i))
    for o, D2 in getattr(D, 'vec', {}).items():
        copy_nested(ex, st, D2, par, S.vec[o], spar)
    set_vsize(ex, st, D, par, n)

def copy_nested(ex, st, D, par, S, spar):
    sa = size_array(ex, st, S)
    da = size_array(ex, st, D)
    st.mem[('a', D, 'n')] = Slice(da, par, None, None, lambda *i: sa.read(tuple(spar) + i))
    for o, ty in D.fields.items():
        src = ex.array(st, S, o, ty)
        a = ex.array(st, D, o, ty)
        st.mem[('a', D, o)] = Slice(a, par, None, None, lambda *i, src=src: src.read(tuple(spar) + i))
    for o, D2 in getattr(D, 'vec', {}).items():
        copy_nested(ex, st, D2, par, S.vec[o], spar)

def zero_elems(ex, st, D, par, lo, hi):
    for o, ty in D.fields.items():
        a = ex.array(st, D, o, ty)
        st.mem[('a', D, o)] = Slice(a, par, lo, hi, lambda *i, a=a: P(0) if a.sort == 'int' else z3.RealVal(0))
    for o, D2 in getattr(D, 'vec', {}).items():
        sa = size_array(ex, st, D2)
        st.mem[('a', D2, 'n')] = Slice(sa, par, lo, hi, lambda *i: P(0))

def ty_of(d):
    """element type of the vector class a member function belongs to"""
    return targ(d[d.index('std::vector<'):])

# ------------------------------------------------------------------ handlers
def v_ctor(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0], ty_of(d))
    set_vsize(ex, st, D, par, 0)
def v_ctor_n(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0], ty_of(d))
    n = ex.u(st, a[1])
    set_vsize(ex, st, D, par, n)
    zero_elems(ex, st, D, par, None, None)
    init_default(ex, st, D, par, None, None)
def v_ctor_nv(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0], ty_of(d))
    n = ex.u(st, a[1])
    fill_from(ex, st, D, par, a[2], None, None)
    set_vsize(ex, st, D, par, n)
def init_default(ex, st, D, par, lo, hi):
    pass
def fill_from(ex, st, D, par, pv, lo, hi):
    for o, ty in D.fields.items():
        v = ex.load(st, ('int', ty[1]) if ty[0] == 'int' else (('float',) if ty[1] == 32 else ('double',)), ex.padd(pv, P(o)), 'value')
        x = ex.raw(st, D, o, ty, v)
        arr = ex.array(st, D, o, ty)
        st.mem[('a', D, o)] = Slice(arr, par, lo, hi, lambda *i, x=x: x)
    if getattr(D, 'vec', {}):
        S, spar = vec_of(ex, st, pv)
        for o, D2 in D.vec.items():
            if o != 0 or lo is not None:
                raise Unsupported('fill with class values')
            sa = size_array(ex, st, D2)
            n = vsize(ex, st, S, spar)
            st.mem[('a', D2, 'n')] = Slice(sa, par, lo, hi, lambda *i: n)
            for o2, ty in D2.fields.items():
                src, a = ex.array(st, S, o2, ty), ex.array(st, D2, o2, ty)
                st.mem[('a', D2, o2)] = Slice(a, par, None, None, lambda *i, src=src: src.read(tuple(spar) + i[1:]))
def v_copy(ex, st, d, a, ins):
    S, spar = vec_of(ex, st, a[1])
    D, par = vec_of(ex, st, a[0], ty_of(d))
    if D is S and all(x.same(y) for x, y in zip(par, spar)):
        return a[0]
    copy_vec(ex, st, D, par, S, spar)
    return a[0]
def v_move(ex, st, d, a, ins):
    v_copy(ex, st, d, a, ins)
    S, spar = vec_of(ex, st, a[1])
    D, par = vec_of(ex, st, a[0])
    if not (D is S and all(x.same(y) for x, y in zip(par, spar))):
        set_vsize(ex, st, S, spar, 0)
    return a[0]
def v_dtor(ex, st, d, a, ins):
    return None
def v_clear(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0])
    set_vsize(ex, st, D, par, 0)
def v_push(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0])
    n = vsize(ex, st, D, par)
    put_elem(ex, st, D, par, n, a[1], d)
    set_vsize(ex, st, D, par, n + 1)
    st.assume(n + 1 < (1 << 61))
    return ex.padd(ptr(D, 0, par), n * D.stride)
def put_elem(ex, st, D, par, n, pv, d=''):
    if hasattr(D, 'on_push'):
        D.on_push(ex, st, pv)
    if len(D.fields) == 1 and 0 in D.fields and not D.vec:
        ty = D.fields[0]
        v = ex.load(st, ('int', ty[1]) if ty[0] == 'int' else (('float',) if ty[1] == 32 else ('double',)), pv, 'push_back argument')
        a = ex.array(st, D, 0, ty)
        st.mem[('a', D, 0)] = Store(a, tuple(par) + (n,), ex.raw(st, D, 0, ty, v))
        return
    for o, ty in D.fields.items():
        v = ex.load(st, ('int', ty[1]) if ty[0] == 'int' else (('float',) if ty[1] == 32 else ('double',)), ex.padd(pv, P(o)), 'push_back argument')
        a = ex.array(st, D, o, ty)
        st.mem[('a', D, o)] = Store(a, tuple(par) + (n,), ex.raw(st, D, o, ty, v))
    for o, D2 in D.vec.items():
        if o in D.own:
            take_over(ex, st, D2, tuple(par) + (n,), ex.load(st, ('ptr',), ex.padd(pv, P(o)), 'owned pointer'))
            continue
        S, spar = vec_of(ex, st, ex.padd(pv, P(o)))
        copy_vec(ex, st, D2, tuple(par) + (n,), S, spar)
def take_over(ex, st, D2, par, p):
    """the storage p points to becomes that of the element par of a vector of owning pointers"""
    g, reg, spar, off = one(p)
    if reg is None or not off.same(0) or len(D2.fields) != 1:
        raise Unsupported('ownership of %s' % (reg and reg.name))
    if reg.stride == 'lazy':
        raise Unsupported('ownership of storage that was never used')
    ty = D2.fields[0]
    if reg.stride != D2.stride:
        raise Unsupported('ownership of storage of another type')
    src, dst = ex.array(st, reg, 0, ty), ex.array(st, D2, 0, ty)
    n = ex.size_now(st, reg, spar)
    st.mem[('a', D2, 0)] = Slice(dst, par, None, None, lambda *i: src.read(tuple(spar) + i))
    set_vsize(ex, st, D2, par, n)
    reg.gone = 'its storage belongs to ' + D2.name

def v_emplace0(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0])
    n = vsize(ex, st, D, par)
    zero_elems(ex, st, D, par, n, n + 1)
    set_vsize(ex, st, D, par, n + 1)
    return ex.padd(ptr(D, 0, par), n * D.stride)
def v_resize(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0])
    n, m = vsize(ex, st, D, par), ex.u(st, a[1])
    zero_elems(ex, st, D, par, n, None)
    set_vsize(ex, st, D, par, m)
def v_resize_value(ex, st, d, a, ins):
    D, par = vec_of(ex, st, a[0])
    n, m = vsize(ex, st, D, par), ex.u(st, a[1])
    b = ex.u(st, a[2])
    arr = ex.array(st, D, 0, D.fields[0])
    st.mem[('a', D, 0)] = Slice(arr, par, n, None, lambda *i: b)
    set_vsize(ex, st, D, par, m)
def v_bit(ex, st, d, a, ins):
    """vector<bool>::operator[]: a reference to the element (of one byte)"""
    D, par = vec_of(ex, st, a[0])
    return Agg([ptr(D, ex.u(st, a[1]), par), I(P(1), 64, 0, 1)])
def bit_set(ex, st, d, a, ins):
    ex.store(st, ('int', 8), I(ex.u(st, a[1]), 8, 0, 1), ex.load(st, ('ptr',), a[0], 'bit reference'), 'bit')
    return a[0]
def bit_get(ex, st, d, a, ins):
    return Bo(Not(ex.u(st, ex.load(st, ('int', 8), ex.load(st, ('ptr',), a[0], 'bit reference'), 'bit')).eq(0)))
def v_range(ex, st, d, a, ins):
    """vector(first, last): elements converted from the range"""
    D, par = vec_of(ex, st, a[0], ty_of(d))
    p, q = a[1], a[2]
    (g, reg, pp, off), (g2, reg2, pp2, off2) = one(p), one(q)
    if reg is not reg2:
        raise Unsupported('range of two objects')
    src_range(ex, st, reg, pp, off, off2)
    k = reg.stride
    e, f = ex.place(st, reg, pp, off, k, 'range')
    n = (off2 - off).divexact(k)
    if n is None:
        raise Unsupported('range length')
    ex.oblige(st, And(n >= 0, Implies(n >= 1, And(e >= 0, e + n <= ex.size_now(st, reg, pp)))), 'the copied range lies inside %s' % reg.name.split('#')[0], 'memory')
    if D.vec or list(D.fields) != [0]:
        raise Unsupported('range of class objects')
    src = ex.array(st, reg, f, reg.fields[f] if hasattr(reg, 'fields') else D.fields[0])
    dst = ex.array(st, D, 0, D.fields[0])
    sty, dty = reg.fields[f], D.fields[0]
    if sty == dty:
        conv = lambda v: v
    elif sty[0] == 'int' and dty[0] == 'real' and sty[1] <= 16:
        conv = lambda v: z3.ToReal(v.z())
        fld = D.sorts.get(0)
        if fld and fld[0] == 'realint':
            conv = lambda v: v
    else:
        raise Unsupported('conversion in a range constructor')
    D.origin, D.origin_reg = (e, n), reg
    st.mem[('a', D, 0)] = Slice(dst, par, None, None, lambda *i: conv(src.read(tuple(pp) + (e + i[0],))))
    set_vsize(ex, st, D, par, n)
def src_range(ex, st, reg, pp, off, off2):
    if reg is None:
        raise Unsupported('range from null')
def one(p):
    live = [o for o in p.opts if not z3.is_false(o[0])]
    if len(live) != 1:
        raise Unsupported('ambiguous pointer')
    return live[0]
def iter_ptr(x):
    while isinstance(x, Agg):
        x = x.v[0]
    return x

def h_new(ex, st, d, a, ins):
    n = ex.simp(st, ex.u(st, a[0]))
    ex.trusted.add('operator new returns fresh storage (allocation failure is not modelled)')
    if n.is_const() and not d.startswith('operator new[]'):
        r = ex.region('new')
    else:
        r = ex.region('new[]', stride='lazy')
        r.bytes = n
    return ptr(r)
def h_noop(ex, st, d, a, ins):
    return None
def h_throw(ex, st, d, a, ins):
    ex.throws.append(st.copy())
    return 'stop'
def h_fill(ex, st, d, a, ins):
    """std::fill(first, last, value)"""
    p, q = iter_ptr(a[0]), iter_ptr(a[1])
    if all(o[1] is None for o in p.opts if not z3.is_false(o[0])):
        return None
    (g, reg, pp, off), (g2, reg2, pp2, off2) = one(p), one(q)
    if reg is not reg2:
        raise Unsupported('range of two objects')
    fillrange(ex, st, reg, pp, off, off2 - off, a[2], d)
def h_fill_n(ex, st, d, a, ins):
    g, reg, pp, off = one(iter_ptr(a[0]))
    n = ex.u(st, a[1])
    sz = reg.stride
    fillrange(ex, st, reg, pp, off, n * sz, a[2], '')
    return ex.padd(iter_ptr(a[0]), n * sz)
def fillrange(ex, st, reg, pp, off, length, pv, d=''):
    et = vt = None
    m = re.search(r'fill(?:_n|_n_a|_a|_a1|_n_a1)?<', d)
    if m:
        et, vt = targ(d[m.start():]), targ(d[m.start():], 1)
        et = et[:-1].strip() if et.endswith('*') else None
    if reg.stride == 'lazy':
        if et not in SCALAR:
            raise Unsupported('fill of untyped storage')
        ex.place(st, reg, pp, P(0), SCALAR[et][0], 'fill')
        ex.array(st, reg, 0, SCALAR[et][1])
    e, f = ex.place(st, reg, pp, off, reg.stride, 'fill')
    n = length.divexact(reg.stride)
    if n is None:
        raise Unsupported('fill length')
    ex.oblige(st, And(n >= 0, Implies(n >= 1, And(e >= 0, e + n <= ex.size_now(st, reg, pp)))), 'the filled range lies inside %s' % reg.name.split('#')[0], 'memory')
    if reg.readonly:
        ex.oblige(st, FALSE, 'nothing is written to ' + reg.name, 'frame')
    ty = reg.fields[f]
    lt = ty
    if vt in SCALAR:
        lt = SCALAR[vt][1]
    v = ex.load(st, ('int', lt[1]) if lt[0] == 'int' else (('float',) if lt[1] == 32 else ('double',)), pv, 'fill value') if isinstance(pv, Ptr) else pv
    if isinstance(v, I) and ty[0] == 'int' and v.n != ty[1]:
        v = I(ex.s(st, v) if SCALAR[vt][2] else ex.u(st, v), ty[1])
    elif isinstance(v, I) and ty[0] == 'real':
        v = ex.rint(st, ex.s(st, v) if SCALAR[vt][2] else ex.u(st, v), None, None, ty[1])
    x = ex.raw(st, reg, f, ty, v)
    arr = ex.array(st, reg, f, ty)
    st.mem[('a', reg, f)] = Slice(arr, pp, e, e + n, lambda *i: x)

# shared_ptr: {pointer, control block}
def sp_copy(ex, st, d, a, ins):
    for o in (0,):
        v = ex.load(st, ('ptr',), ex.padd(a[1], P(o)), 'shared_ptr')
        ex.store(st, ('ptr',), v, ex.padd(a[0], P(o)), 'shared_ptr')
    return a[0]
def sp_move(ex, st, d, a, ins):
    sp_copy(ex, st, d, a, ins)
    ex.store(st, ('ptr',), NULL, a[1], 'shared_ptr')
    return a[0]
def sp_null(ex, st, d, a, ins):
    ex.store(st, ('ptr',), NULL, a[0], 'shared_ptr')
def sp_from_raw(ex, st, d, a, ins):
    ex.store(st, ('ptr',), a[1], a[0], 'shared_ptr')

def split_sp(d):
    """the member of std::shared_ptr / std::__shared_ptr that d is, or None"""
    m = re.match(r'^(?:void )?std::(?:__)?shared_ptr<', d)
    if not m:
        return None
    j, k = m.end() - 1, 0
    while j < len(d):
        k += {'<': 1, '>': -1}.get(d[j], 0)
        if k == 0:
            break
        j += 1
    rest = d[j + 1:]
    if not rest.startswith('::'):
        # "std::shared_ptr<T>& std::shared_ptr<T>::f": a return type
        m = re.match(r'^&? ?(std::(?:__)?shared_ptr<.*)$', rest)
        return split_sp(m.group(1)) if m else None
    return rest[2:]
SP_MEMBERS = [
    (r'~', h_noop),
    (r'(__)?shared_ptr\(\)', sp_null),
    (r'(__)?shared_ptr\(std::nullptr_t\)|(__)?shared_ptr\(decltype\(nullptr\)\)', sp_null),
    (r'(__)?shared_ptr\(std::(__)?shared_ptr<.*> const&\)', sp_copy),
    (r'(__)?shared_ptr\(std::(__)?shared_ptr<.*>&&\)', sp_move),
    (r'(__)?shared_ptr<.*>\([^(]*\*(, .*)?\)', sp_from_raw),
    (r'operator=\(std::(__)?shared_ptr<.*> const&\)', sp_copy),
    (r'operator=\(std::(__)?shared_ptr<.*>&&\)', sp_move),
    (r'reset\(\)', sp_null),
    (r'reset<.*>\([^(]*\*(, .*)?\)', sp_from_raw),
]
def keep_sp(d):
    r = split_sp(d)
    return r is not None and any(re.match(rx, r) for rx, fn in SP_MEMBERS)
def sp_handler(ex, st, d, a, ins):
    r = split_sp(d)
    for rx, fn in SP_MEMBERS:
        if re.match(rx, r):
            ex.trusted.add('std::shared_ptr keeps its object alive and points to it')
            return fn(ex, st, d, a, ins)

VEC = r'std::vector<.*>::'
def member(rx):
    return re.compile(r'^std::vector<.*, std::allocator<.*>>::' + rx)

def vec_handler(ex, st, d, a, ins):
    """dispatch on the member function name, after removing the class name"""
    cls, rest = split_class(d)
    for rx, fn in VEC_MEMBERS:
        if re.match(rx, rest):
            return fn(ex, st, cls, a, ins)
    raise Unsupported('vector member %s' % rest[:120])

def split_class(d):
    """'std::vector<...>::f(...)' -> ('std::vector<...>', 'f(...)')"""
    i = d.index('std::vector<') + len('std::vector')
    k = 0
    j = i
    while True:
        if d[j] == '<':
            k += 1
        elif d[j] == '>':
            k -= 1
            if k == 0:
                break
        j += 1
    return d[d.index('std::vector<'):j + 1], d[j + 3:]

VEC_MEMBERS = [
    (r'~vector', v_dtor),
    (r'vector\(\)', v_ctor),
    (r'vector\(unsigned long, std::allocator', v_ctor_n),
    (r'vector\(unsigned long, .* const&, std::allocator', v_ctor_nv),
    (r'vector\(std::vector<.*> const&\)', v_copy),
    (r'vector\(std::vector<.*>&&\)', v_move),
    (r'vector<.*, void>\(', v_range),
    (r'operator=\(std::vector<.*> const&\)', v_copy),
    (r'operator=\(std::vector<.*>&&\)', v_move),
    (r'push_back\(', v_push),
    (r'emplace_back<>\(', v_emplace0),
    (r'emplace_back<', v_push),
    (r'resize\(unsigned long\)', v_resize),
    (r'resize\(unsigned long, bool\)', v_resize_value),
    (r'operator\[\]\(unsigned long\)', v_bit),
    (r'clear\(\)', v_clear),
    (r'reserve\(', h_noop),
]
# vector members that are inlined (they only read begin/end)
VEC_INLINE = re.compile(r'^(operator\[\]|size\(|data\(|begin\(|end\(|empty\(|back\(|front\(|cbegin|cend|at\(|_M_range_check|_M_data_ptr)')

def keep_vec(d):
    m = re.match(r'^(?:std::vector<|[^(]*? std::vector<[^()]*>::[a-z_~]+|void std::vector<|unsigned .*std::vector<)', d)
    i = d.find('std::vector<')
    if i < 0:
        return False
    # the function itself must be a member of std::vector
    try:
        cls, rest = split_class(d)
    except (IndexError, ValueError):
        return False
    pre = d[:i]
    if '(' in pre or '<' in pre:
        return False
    j = i + len(cls)
    if d[j:j + 2] != '::':
        # a return type mentioning a vector: look for the member after it
        k = d.find('std::vector<', j)
        if k > 0 and d[j:k].strip() in ('', 'const&', '&', '*', '&&'):
            return keep_vec(d[k:])
        return False
    return not VEC_INLINE.match(rest) or (cls.startswith('std::vector<bool') and rest.startswith('operator[](unsigned long)') and not rest.endswith('const'))

HANDLERS = [
    (re.compile(r'^std::_Bit_reference::operator=\(bool\)'), bit_set),
    (re.compile(r'^std::_Bit_reference::operator bool\(\)'), bit_get),
    (re.compile(r'^operator new(\[\])?\('), h_new),
    (re.compile(r'^operator delete(\[\])?\('), h_noop),
    (re.compile(r'^(__cxa_throw|std::terminate|__clang_call_terminate|std::__throw_|abort|__cxa_rethrow)'), h_throw),
    (re.compile(r'^(__cxa_allocate_exception)'), lambda ex, st, d, a, ins: ptr(ex.region('exception'))),
    (re.compile(r'^std::_Bvector_base<std::allocator<bool>>::~'), h_noop),
    (re.compile(r'^(__cxa_free_exception|__cxa_begin_catch|__cxa_end_catch|__cxa_atexit)'), h_noop),
    (re.compile(r'^(std::invalid_argument|std::runtime_error|std::out_of_range|stempy::EofException|std::exception|std::logic_error)::'), h_noop),
    (re.compile(r'^(void )?std::(__)?fill(_a1|_a)?<.*>\('), h_fill),
    (re.compile(r'std::(__)?fill_n(_a1|_a)?<.*>\('), h_fill_n),
]
OSTREAM = re.compile(r'std::(basic_)?(o|i)?stringstream|std::(__cxx11::)?basic_string|std::ostream|std::operator<<|std::basic_ostream|std::__ostream|std::cout|std::cerr|std::endl|std::allocator<char>|std::to_string')

def keep(d):
    """functions that stay calls because they have a contract above"""
    if keep_vec(d) or keep_sp(d):
        return True
    h = d
    return any(rx.search(h) for rx, fn in HANDLERS) or is_stream(d)
def is_stream(d):
    n = d.split('(')[0]
    return bool(re.match(r'^(std::(__cxx11::)?basic_(o|i)?stringstream|std::(__cxx11::)?basic_string|std::basic_ostream|std::ostream|std::operator<<|std::allocator<char>::|std::basic_ios|std::ios_base|std::to_string)', n) or
                re.match(r'^(std::basic_ostream<.*>& |std::ostream& |std::__cxx11::basic_string<.*>\s+)std::(operator<<|endl|flush|operator\+)', n) or re.match(r'^std::basic_ostream<.*> std::', n))

ALL = HANDLERS + [(re.compile('x^'), None)]
class _Vec:
    def search(self, d):
        return keep_vec(d)
class _Sp:
    def search(self, d):
        return keep_sp(d)
class _Stream:
    def search(self, d):
        return is_stream(d)
ALL = HANDLERS + [(_Vec(), vec_handler), (_Sp(), sp_handler), (_Stream(), h_noop)]

"""The statements, expressions and operators of the Python subset."""
import ast, os
from pyexec import *
import pyexec

class Interp(Exec):
    # ---------------- modules
    def load(self, path, name):
        src = open(path).read()
        tree = ast.parse(src)
        env = next(self.ids)
        self.st.envs[env] = {'__name__': name}
        self.mods[name] = env
        scope = (env,)
        for s in tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.stmt(s, scope)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self.stmt(s, scope)
            elif isinstance(s, ast.Assign):
                try:
                    self.stmt(s, scope)
                except (Unsupported, PyRaise):
                    pass
            elif isinstance(s, ast.Expr):
                pass
        self.parent_scope = scope
        return env
    def glob(self, mod, name):
        return self.st.envs[self.mods[mod]][name]
    # ---------------- names
    def lookup(self, name, scope):
        for e in reversed(scope):
            if name in self.st.envs[e]:
                v = self.st.envs[e][name]
                return v
        if name in BUILTINS:
            return Builtin(name, getattr(self, 'b_' + name, None))
        if name in EXC:
            return ClassV(name, {}, True)
        raise Unsupported('the name %s' % name)
    # ---------------- statements
    def block(self, body, scope):
        for s in body:
            self.stmt(s, scope)
    def stmt(self, s, scope):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.line = getattr(s, 'lineno', 0)
        m(s, scope)
    def s_Pass(self, s, scope):
        pass
    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, scope)
    def s_Import(self, s, scope):
        for a in s.names:
            self.st.envs[scope[-1]][a.asname or a.name.split('.')[0]] = ModV({'numpy': 'np'}.get(a.name, a.name))
    def s_ImportFrom(self, s, scope):
        for a in s.names:
            v = ModV('%s.%s' % (s.module, a.name))
            if a.name == 'wraps':
                v = Builtin('wraps', lambda a, k: Builtin('id', lambda a, k: a[0]))
            for m, e in self.mods.items():
                if s.module and s.module.split('.')[-1] == m.split('.')[-1] and a.name in self.st.envs[e]:
                    v = self.st.envs[e][a.name]
                elif a.name in self.st.envs[e] and isinstance(self.st.envs[e][a.name], ClassV):
                    v = self.st.envs[e][a.name]
            self.st.envs[scope[-1]][a.asname or a.name] = v
    def s_FunctionDef(self, s, scope):
        f = Func(s, scope, None, s.name)
        f.defaults = [self.ev(d, scope) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, scope) if d is not None else None for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                v = Prop(v)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                v = ClassM(v)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                v = StaticM(v)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = self.ev(d.value, scope)
                v = Prop(old.get, v)
            else:
                v = self.call(self.ev(d, scope), [v], {})
        self.st.envs[scope[-1]][s.name] = v
    def s_ClassDef(self, s, scope):
        env = next(self.ids)
        self.st.envs[env] = {}
        exc = any(isinstance(b, ast.Name) and (b.id in EXC) for b in s.bases)
        if s.bases and not exc:
            self.st.envs[scope[-1]][s.name] = ClassV(s.name, {}, False)
            return
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.Assign)):
                self.stmt(x, scope + (env,))
        attrs = self.st.envs.pop(env)
        # methods do not see the class scope
        for v in attrs.values():
            self.fixscope(v, env, set())
        self.st.envs[scope[-1]][s.name] = ClassV(s.name, attrs, exc)
    def fixscope(self, v, env, seen):
        if isinstance(v, Func):
            v.env = tuple(e for e in v.env if e != env)
            if id(v) in seen:
                return
            seen.add(id(v))
            for e in v.env:
                if e in self.st.envs and e not in self.mods.values():
                    for x in list(self.st.envs[e].values()):
                        self.fixscope(x, env, seen)
        elif isinstance(v, Prop):
            self.fixscope(v.get, env, seen)
            self.fixscope(v.set, env, seen)
        elif isinstance(v, (ClassM, StaticM)):
            self.fixscope(v.f, env, seen)
    def s_Return(self, s, scope):
        raise pyexec._Return(self.ev(s.value, scope) if s.value else None)
    def s_Break(self, s, scope):
        raise pyexec._Break()
    def s_Continue(self, s, scope):
        raise pyexec._Continue()
    def s_Raise(self, s, scope):
        n = s.exc
        while isinstance(n, ast.Call):
            n = n.func
        raise PyRaise(ast.unparse(n) if n is not None else 'reraise', s)
    def s_Assert(self, s, scope):
        self.oblige('assertion holds: %s' % ast.unparse(s.test), self.truth_term(self.ev(s.test, scope)))
    def s_If(self, s, scope):
        if self.branch(self.ev(s.test, scope)):
            self.block(s.body, scope)
        else:
            self.block(s.orelse, scope)
    def s_Try(self, s, scope):
        if s.handlers:
            raise Unsupported('except')
        try:
            self.block(s.body, scope)
        except (PyRaise, pyexec._Return, pyexec._Break, pyexec._Continue):
            self.block(s.finalbody, scope)
            raise
        self.block(s.finalbody, scope)
    def s_With(self, s, scope):
        for i in s.items:
            v = self.ev(i.context_expr, scope)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, scope)
        self.block(s.body, scope)
    def s_Assign(self, s, scope):
        v = self.ev(s.value, scope)
        for t in s.targets:
            self.assign(t, v, scope)
    def s_AnnAssign(self, s, scope):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, scope), scope)
    def s_AugAssign(self, s, scope):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, scope)
            v = self.ev(s.value, scope)
            if isinstance(cur, Ref) and is_arr(self.snap(cur)):
                self.aug_array(cur, op, v)
                return
            if isinstance(cur, Ref) and isinstance(self.raw(cur), ListC) and op == 'Add':
                raise Unsupported('list +=')
            self.assign(t, self.binop(op, cur, v), scope)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, scope)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, scope)
            if isinstance(cur, Ref) and is_arr(self.snap(cur)):
                self.aug_array(cur, op, v)
                return
            self.setattr(o, t.attr, self.binop(op, cur, v))
        else:
            o = self.ev(t.value, scope)
            key = self.index(t.slice, scope)
            v = self.ev(s.value, scope)
            self.np.aug_item(o, key, op, v)
    def aug_array(self, ref, op, v):
        c = self.snap(ref)
        r = self.binop(op, ref, v)
        rc = self.snap(r) if isinstance(r, Ref) else r
        raw = self.raw(ref)
        if isinstance(raw, View):
            self.np.set_item(ref, SliceV(None, None, None), r)
            return
        if isinstance(c, D) and isinstance(rc, D) and c.dtype.kind() == 'int' and rc.dtype.kind() == 'real':
            raise PyRaise('UFuncTypeError')
        if isinstance(rc, (Bag, D)):
            rc = rc.with_(dtype=c.dtype) if isinstance(rc, Bag) else D(rc.shape, rc.read, c.dtype)
        self.st.heap[ref.id] = rc
    def s_Delete(self, s, scope):
        pass
    def s_For(self, s, scope):
        if s.orelse:
            raise Unsupported('for-else')
        it = self.ev(s.iter, scope)
        hook = getattr(self, 'for_hook', None)
        if hook is not None:
            r = hook(self, s, it, scope)
            if r:
                return
        def body(x):
            self.assign(s.target, x, scope)
            self.block(s.body, scope)
        # the loop variable is set in every iteration
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                self.st.envs[scope[-1]].pop(n.id, None)
        self.run_loop(it, body)
        for x in getattr(self, 'dead', ()):
            self.st.envs.get(x[0], {}).pop(x[1], None)
    def s_While(self, s, scope):
        hook = getattr(self, 'while_hook', None)
        if hook is not None and hook(self, s, scope):
            return
        for _ in range(50):
            c = self.ev(s.test, scope)
            t = self.truth(c)
            t = t if isinstance(t, bool) else const_of(t)
            if not isinstance(t, bool):
                raise Unsupported('while with a symbolic condition')
            if not t:
                return
            try:
                self.block(s.body, scope)
            except pyexec._Break:
                return
            except pyexec._Continue:
                pass
        raise Unsupported('while')
    # ---------------- assignment
    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.st.envs[scope[-1]][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterable(v)
            if not isinstance(vs, list):
                raise Unsupported('unpacking a symbolic sequence')
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred target')
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, scope), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.np.set_item(self.ev(t.value, scope), self.index(t.slice, scope), v)
        else:
            raise Unsupported('target')
    # ---------------- attributes
    def getattr(self, o, name):
        if isinstance(o, ModV):
            if o.name == 'np':
                return self.np.attr(name)
            if o.name == 'np.random' or o.name == 'np.linalg':
                raise Unsupported('%s.%s' % (o.name, name))
            if o.name == 'copy':
                return Builtin('copy.' + name, lambda a, k: self.np.deepcopy(a[0]))
            if o.name == 'inspect' and name == 'getfullargspec':
                return Builtin(name, lambda a, k: (tuple(x.arg for x in a[0].node.args.args),))
            if o.name == 'h5py':
                return Builtin('h5py.' + name, lambda a, k: self.h5(name, a, k))
            return ModV(o.name + '.' + name)
        if isinstance(o, Func) and name == '__name__':
            return o.name
        if isinstance(o, ClassV):
            if name in o.attrs:
                return self.bind(o.attrs[name], None, o)
            if name == '__name__':
                return o.name
            raise PyRaise('AttributeError')
        if isinstance(o, Ref):
            c = self.raw(o)
            if isinstance(c, Obj):
                if name in c.attrs:
                    return c.attrs[name]
                a = c.cls.attrs.get(name)
                if a is None:
                    if name == '__class__':
                        return c.cls
                    raise PyRaise('AttributeError: %s' % name)
                if isinstance(a, Prop):
                    return self.call(a.get, [o], {})
                return self.bind(a, o, c.cls)
            return self.np.method(o, name)
        if hasattr(o, 'pyattr'):
            return o.pyattr(self, name)
        if isinstance(o, DT):
            if name == 'type':
                return o
            if name == 'itemsize':
                return fresh('itemsize')
        if isinstance(o, str) and name == 'format':
            return Builtin('format', lambda a, k: '<str>')
        if is_num(o):
            return self.np.scalar_attr(o, name)
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                raise Unsupported('tuple.%s' % name)
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
    def bind(self, a, o, cls):
        if isinstance(a, ClassM):
            return Bound(a.f, cls)
        if isinstance(a, StaticM):
            return a.f
        if isinstance(a, (Func, Builtin)) and o is not None:
            return Bound(a, o)
        return a
    def setattr(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.raw(o), Obj):
            c = self.raw(o)
            p = c.cls.attrs.get(name)
            if isinstance(p, Prop):
                if p.set is None:
                    raise PyRaise('AttributeError')
                self.call(p.set, [o, v], {})
                return
            a = dict(c.attrs)
            a[name] = v
            self.st.heap[o.id] = Obj(c.cls, a)
            return
        if hasattr(o, 'pysetattr'):
            return o.pysetattr(self, name, v)
        if isinstance(o, Ref) and name == 'shape':
            raise Unsupported('assignment to shape')
        raise Unsupported('attribute assignment')
    # ---------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            if f.fn is None:
                raise Unsupported(f.name)
            return f.fn(list(args), dict(kw))
        if isinstance(f, DT):
            return self.np.cast_scalar(args[0], f)
        if isinstance(f, ClassV):
            if f.exc:
                return ('exc', f.name)
            o = self.new(Obj(f, {}))
            init = f.attrs.get('__init__')
            if init is None:
                raise Unsupported('class %s' % f.name)
            self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if hasattr(f, 'pycall'):
            return f.pycall(self, args, kw)
        raise Unsupported('call of %s' % (f.name if isinstance(f, ModV) else type(f).__name__))
    def call_func(self, f, args, kw):
        a = f.node.args
        hook = getattr(self, 'call_hook', None)
        if hook is not None:
            r = hook(self, f, args, kw)
            if r is not None:
                return r[0]
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        env = next(self.ids)
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        kw = dict(kw)
        for nm, v in zip(names, args):
            loc[nm] = v
        extra = list(args[len(names):])
        if extra and a.vararg is None:
            raise PyRaise('TypeError')
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(extra)
        for nm in names:
            if nm in kw:
                if nm in loc:
                    raise PyRaise('TypeError')
                loc[nm] = kw.pop(nm)
        ds = f.defaults
        for nm, v in zip(names[len(names) - len(ds):], ds):
            loc.setdefault(nm, v)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            loc[x.arg] = kw.pop(x.arg) if x.arg in kw else d
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new(DictC(kw))
        elif kw:
            raise PyRaise('TypeError')
        for nm in names:
            if nm not in loc:
                raise PyRaise('TypeError')
        self.st.envs[env] = loc
        self.used.add(f.name)
        self.stack.append(f.name)
        try:
            self.block(f.node.body, f.env + (env,))
            r = None
        except pyexec._Return as e:
            r = e.v
        self.stack.pop()
        return r
    # ---------------- truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, F):
            raise Unsupported('truth of a float')
        if is_term(v):
            return v if v.sort() == BOOL else v != 0
        if isinstance(v, Ref):
            c = self.raw(v)
            if isinstance(c, DictC):
                return len(c.d) > 0
            if isinstance(c, ListC):
                if c.base is None and all(not s.dims and z3.is_true(Z(s.guard)) for s in c.segs):
                    return len(c.segs) > 0
                return self.np.length(v) > 0
            if isinstance(c, Obj):
                return True
        if isinstance(v, (Func, Builtin, ClassV, SliceV, DT, SelV)):
            return True
        raise Unsupported('truth of %s' % type(v).__name__)
    def truth_term(self, v):
        t = self.truth(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t
    # ---------------- expressions
    def ev(self, e, scope):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, scope)
    def e_Constant(self, e, scope):
        if e.value is Ellipsis:
            return Ellipsis
        return e.value
    def e_Name(self, e, scope):
        return self.lookup(e.id, scope)
    def e_Tuple(self, e, scope):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterable(self.ev(x.value, scope))
                if not isinstance(it, list):
                    raise Unsupported('star of a symbolic sequence')
                out += it
            else:
                out.append(self.ev(x, scope))
        return tuple(out)
    def e_List(self, e, scope):
        return self.new(ListC([Seg([], [], TRUE, x) for x in self.e_Tuple(e, scope)]))
    def e_Dict(self, e, scope):
        return self.new(DictC({self.ev(k, scope): self.ev(v, scope) for k, v in zip(e.keys, e.values)}))
    def e_JoinedStr(self, e, scope):
        return '<str>'
    def e_Attribute(self, e, scope):
        return self.getattr(self.ev(e.value, scope), e.attr)
    def e_Lambda(self, e, scope):
        n = ast.FunctionDef(name='lambda', args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        f = Func(n, scope, None, 'lambda')
        f.defaults = [self.ev(d, scope) for d in e.args.defaults]
        f.kwdefaults = []
        return f
    def e_IfExp(self, e, scope):
        c = self.ev(e.test, scope)
        return self.ev(e.body if self.branch(c) else e.orelse, scope)
    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, scope)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            k = t if isinstance(t, bool) else const_of(t)
            if not isinstance(k, bool):
                rest = e.values[i + 1:]
                if is_term(v) and v.sort() == BOOL:
                    # pure comparisons are combined without a branch
                    mark = len(self.obls)
                    made = len(self.made)
                    st = self.st.copy()
                    st.pc = st.pc + [v if isand else Not(v)]
                    sub = ast.BoolOp(op=e.op, values=rest) if len(rest) > 1 else rest[0]
                    ps = self.explore(st, lambda: self.ev(sub, scope))
                    if len(ps) == 1 and ps[0][1] == 'ok' and isinst_bool(ps[0][2]):
                        w = Z(ps[0][2])
                        return And(v, w) if isand else Or(v, w)
                    del self.obls[mark:]
                k = self.branch(t)
            if k != isand:
                return v
        return v
    def e_UnaryOp(self, e, scope):
        v = self.ev(e.operand, scope)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.binop('Sub', 0, v)
        if isinstance(e.op, ast.Invert):
            return self.np.invert(v)
        if isinstance(e.op, ast.UAdd):
            return v
    def e_BinOp(self, e, scope):
        return self.binop(type(e.op).__name__, self.ev(e.left, scope), self.ev(e.right, scope))
    def e_Compare(self, e, scope):
        l = self.ev(e.left, scope)
        out = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, scope)
            c = self.compare(type(op).__name__, l, r)
            if out is None:
                out = c
            else:
                out = (out and c) if isinstance(out, bool) and isinstance(c, bool) else And(Z(out), Z(c))
            l = r
        return out
    def e_Call(self, e, scope):
        f = self.ev(e.func, scope)
        args = []
        if isinstance(f, Builtin) and f.name in ('all', 'any', 'sum', 'tuple', 'list', 'set', 'max', 'min', 'sorted') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.comp_call(f.name, e.args[0], scope)
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iterable(self.ev(x.value, scope))
                if not isinstance(it, list):
                    raise Unsupported('star of a symbolic sequence')
                args += it
            else:
                args.append(self.ev(x, scope))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, scope)
            if k.arg is None:
                kw.update(self.raw(v).d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)
    def comp_items(self, gen, elt, scope):
        """a concrete list of the items, or a ListC of segments"""
        if len(gen) != 1:
            raise Unsupported('nested comprehension')
        g = gen[0]
        it = self.iterable(self.ev(g.iter, scope))
        env = next(self.ids)
        self.st.envs[env] = {}
        sc = scope + (env,)
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, sc)
                if all(self.branch(self.ev(c, sc)) for c in g.ifs):
                    out.append(self.ev(elt, sc))
            return out
        # symbolic: a list filled by a loop
        r = self.new(ListC([]))
        def body(x):
            self.assign(g.target, x, sc)
            if all(self.branch(self.ev(c, sc)) for c in g.ifs):
                self.np.append(r, self.ev(elt, sc))
        self.run_loop(it, body)
        return self.raw(r)
    def comp_call(self, name, g, scope):
        r = self.comp_items(g.generators, g.elt, scope)
        if isinstance(r, list):
            if name == 'all':
                return self.fold_bool(r, True)
            if name == 'any':
                return self.fold_bool(r, False)
            if name == 'tuple':
                return tuple(r)
            ref = self.new(ListC([Seg([], [], TRUE, x) for x in r]))
            return ref if name == 'list' else getattr(self, 'b_' + name)([ref], {})
        if name in ('tuple', 'list'):
            return self.new(r)
        if name in ('any', 'all'):
            tot = None
            for s in r.segs:
                c = self.truth_term(s.value)
                c = c if name == 'any' else Not(c)
                t = self.np.nest(s.vs, s.dims, And(Z(s.guard), c), z3.IntVal(1))
                tot = t if tot is None else tot + t
            return tot > 0 if name == 'any' else tot == 0
        if name == 'sum':
            return self.b_sum([self.new(r)], {})
        if name == 'set':
            return self.new(SetC(r.segs))
        raise Unsupported('%s of a symbolic generator' % name)
    def fold_bool(self, xs, isand):
        cs = []
        for x in xs:
            t = self.truth(x)
            if isinstance(t, bool) or isinstance(const_of(t), bool):
                t = t if isinstance(t, bool) else const_of(t)
                if t != isand:
                    return t
                continue
            cs.append(t)
        if not cs:
            return isand
        return And(*cs) if isand else Or(*cs)
    def e_ListComp(self, e, scope):
        r = self.comp_items(e.generators, e.elt, scope)
        return self.new(ListC([Seg([], [], TRUE, x) for x in r])) if isinstance(r, list) else self.new(r)
    e_GeneratorExp = e_ListComp
    def e_SetComp(self, e, scope):
        r = self.comp_items(e.generators, e.elt, scope)
        return self.new(SetC([Seg([], [], TRUE, x) for x in r] if isinstance(r, list) else r.segs))
    def e_DictComp(self, e, scope):
        raise Unsupported('dict comprehension')
    def index(self, n, scope):
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x, scope) for x in n.elts)
        return self.ev(n, scope)
    def e_Slice(self, e, scope):
        return SliceV(*[self.ev(x, scope) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def e_Subscript(self, e, scope):
        return self.getitem(self.ev(e.value, scope), self.index(e.slice, scope))
    def getitem(self, o, key, check=True):
        if isinstance(o, tuple):
            if isinstance(key, SliceV):
                xs = [const_of(x) if x is not None else None for x in (key.a, key.b, key.c)]
                return o[slice(*xs)]
            k = const_of(key)
            if k is None:
                raise Unsupported('tuple index')
            if not -len(o) <= k < len(o):
                raise PyRaise('IndexError')
            return o[k]
        if isinstance(o, Ref):
            c = self.raw(o)
            if isinstance(c, DictC):
                if key not in c.d:
                    raise PyRaise('KeyError')
                return c.d[key]
            if isinstance(c, Obj):
                return self.call(self.bind(c.cls.attrs['__getitem__'], o, c.cls), [key], {})
        if isinstance(o, Kw) or hasattr(o, 'pyitem'):
            return o.pyitem(self, key)
        return self.np.get_item(o, key, check)
    # ---------------- operators
    def binop(self, op, a, b):
        return self.np.binop(op, a, b)
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if op == 'Is' else (not r if isinstance(r, bool) else Not(r))
        if op in ('In', 'NotIn'):
            r = self.np.contains(b, a)
            return r if op == 'In' else (not r if isinstance(r, bool) else Not(r))
        return self.np.compare(op, a, b)
    def same(self, a, b):
        if a is None or b is None:
            for x in (a, b):
                if hasattr(x, 'isnone'):
                    return x.isnone(self)
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, F) and isinstance(b, F):
            raise Unsupported('is on floats')
        return a is b
    # ---------------- builtins
    def b_len(self, a, k):
        if isinstance(a[0], Ref) and isinstance(self.raw(a[0]), Obj):
            raise Unsupported('len of an object')
        return self.np.length(a[0])
    def b_range(self, a, k):
        a = [self.np.intval(x) for x in a]
        return RangeV(0, a[0]) if len(a) == 1 else RangeV(*a) if len(a) == 2 else RangeV(a[0], a[1], const_of(a[2]))
    def b_enumerate(self, a, k):
        return self.enumerate(a[0], const_of(a[1]) if len(a) > 1 else 0)
    def b_zip(self, a, k):
        return self.zip(*a)
    def b_tuple(self, a, k):
        if not a:
            return ()
        it = self.iterable(a[0])
        if not isinstance(it, list):
            raise Unsupported('tuple of a symbolic sequence')
        return tuple(it)
    def b_list(self, a, k):
        if not a:
            return self.new(ListC([]))
        it = self.iterable(a[0])
        if not isinstance(it, list):
            raise Unsupported('list of a symbolic sequence')
        return self.new(ListC([Seg([], [], TRUE, x) for x in it]))
    def b_set(self, a, k):
        raise Unsupported('set')
    def b_sorted(self, a, k):
        it = self.iterable(a[0])
        if isinstance(it, list) and all(const_of(x) is not None for x in it):
            return self.new(ListC([Seg([], [], TRUE, x) for x in sorted(const_of(x) for x in it)]))
        raise Unsupported('sorted')
    def b_reversed(self, a, k):
        it = self.iterable(a[0])
        if isinstance(it, list):
            return tuple(reversed(it))
        raise Unsupported('reversed')
    def b_int(self, a, k):
        return self.np.to_int(a[0])
    def b_float(self, a, k):
        return a[0] if isinstance(a[0], F) else real(a[0])
    def b_bool(self, a, k):
        return self.truth(a[0])
    def b_abs(self, a, k):
        x = Z(a[0])
        return z3.If(x >= 0, x, -x)
    def b_max(self, a, k):
        return self.minmax(a, True)
    def b_min(self, a, k):
        return self.minmax(a, False)
    def minmax(self, a, mx):
        xs = self.iterable(a[0]) if len(a) == 1 else list(a)
        if not isinstance(xs, list):
            raise Unsupported('max of a symbolic sequence')
        r = xs[0]
        for x in xs[1:]:
            kx, kr = const_of(x), const_of(r)
            if isinstance(kx, int) and isinstance(kr, int):
                r = max(kx, kr) if mx else min(kx, kr)
            else:
                x, r = Z(x), Z(r)
                if x.sort() != r.sort():
                    x, r = real(x), real(r)
                r = z3.If(x > r, x, r) if mx else z3.If(x < r, x, r)
        return r
    def b_sum(self, a, k):
        c = self.raw(a[0]) if isinstance(a[0], Ref) else None
        if isinstance(c, ListC) and c.base is None:
            t = None
            for s in c.segs:
                x = self.np.nest(s.vs, s.dims, Z(s.guard), num(s.value))
                t = x if t is None else t + x
            return t if t is not None else 0
        it = self.iterable(a[0])
        if isinstance(it, list):
            r = 0
            for x in it:
                r = self.binop('Add', r, x)
            return r
        raise Unsupported('sum')
    def b_all(self, a, k):
        return self.fold_bool(self.iterable(a[0]), True)
    def b_any(self, a, k):
        return self.fold_bool(self.iterable(a[0]), False)
    def b_print(self, a, k):
        return None
    def b_isinstance(self, a, k):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(self.isinst(a[0], t) for t in ts)
    def b_getattr(self, a, k):
        return self.getattr(a[0], a[1])
    def b_dict(self, a, k):
        return self.new(DictC(dict(k)))
    def b_hasattr(self, a, k):
        raise Unsupported('hasattr')
    def b_super(self, a, k):
        raise Unsupported('super')
    def b_type(self, a, k):
        raise Unsupported('type')
    def b_slice(self, a, k):
        a = list(a)
        return SliceV(None, a[0], None) if len(a) == 1 else SliceV(*(a + [None] * (3 - len(a))))
    def isinst(self, v, t):
        n = t.name
        c = self.raw(v) if isinstance(v, Ref) else None
        if hasattr(v, 'isinst'):
            return v.isinst(n)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'list':
            return isinstance(c, ListC)
        if n == 'dict':
            return isinstance(c, DictC)
        if n == 'str':
            return isinstance(v, str)
        if n == 'slice':
            return isinstance(v, SliceV) or (isinstance(v, SelV) and v.kind == 'slice')
        if n == 'ndarray':
            return (c is not None and (is_arr(c) or isinstance(c, View))) or (isinstance(v, SelV) and v.kind in ('mask', 'list'))
        if n.endswith('Sequence'):
            return isinstance(v, (tuple, str, RangeV)) or isinstance(c, ListC)
        isint = isinstance(v, int) or (is_term(v) and v.sort() == INT)
        if n == 'int':
            return isint
        if n == 'float':
            return isinstance(v, (float, F)) or (is_term(v) and v.sort() == REAL)
        if n == 'bool':
            return isinst_bool(v)
        if n in ('integer', 'number'):
            return isint
        if c is not None and isinstance(c, Obj):
            return c.cls.name == n
        if isinstance(t, ClassV):
            return False
        raise Unsupported('isinstance of %s' % n)

BUILTINS = [m[2:] for m in dir(Interp) if m.startswith('b_')] + ['slice', 'str', 'object']
EXC = ['Exception', 'ValueError', 'IndexError', 'NotImplementedError', 'KeyError', 'TypeError', 'RuntimeError', 'AssertionError']

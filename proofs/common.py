"""Shared parts of the contracts."""
from spec import *

def unit(source, tag, extra=(), keep=None):
    return Unit(source, tag, extra, keep)

def local_max(ctx, read, W, H, name='isMax'):
    """an uninterpreted predicate isMax(k) with its definition, instantiated on demand: pixel k of a
    W x H frame is strictly greater than all of its existing neighbours"""
    f = z3.Function('%s!%d' % (name, next(core._fresh)), z3.IntSort(), z3.BoolSort())
    done = set()
    def pred(k):
        return f(P(k).z())
    def define(k):
        k = P(k)
        if k.key() in done:
            return
        done.add(k.key())
        row, col = ctx.divmod(k, W)
        v = read(k)
        conds = []
        for dr in (-1, 0, 1):
            for dc in (-1, 0, 1):
                if dr == 0 and dc == 0:
                    continue
                ex = []
                if dr == -1:
                    ex.append(row >= 1)
                if dr == 1:
                    ex.append(row < P(H) - 1)
                if dc == -1:
                    ex.append(col >= 1)
                if dc == 1:
                    ex.append(col < P(W) - 1)
                w = read((row + dr) * W + (col + dc))
                g = v > w if not isinstance(v, Poly) else v > w
                conds.append(Implies(And(*ex), g))
        ctx.add(pred(k) == And(*conds))
    return pred, define

def defined(ctx, fn, name='spec', arity=1, real=False):
    """a function symbol f with f(k..) = fn(k..), the definition instantiated on demand -> (f, define)"""
    f = z3.Function('%s!%d' % (name, next(core._fresh)), *([z3.IntSort()] * arity + [z3.RealSort() if real else z3.IntSort()]))
    done = set()
    def app(*k):
        v = f(*[P(x).z() for x in k])
        return v if real else P(v)
    def define(*k):
        k = tuple(P(x) for x in k)
        key = tuple(x.key() for x in k)
        if key not in done:
            done.add(key)
            v = fn(*k)
            ctx.add(app(*k) == v if real else app(*k).eq(v))
    return app, define

def view_arrays(view, prefix):
    return [k for k in view.st.mem if k[0] == 'a' and k[1].name.startswith(prefix)]

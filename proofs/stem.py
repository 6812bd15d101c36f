"""The STEM image drivers: createSTEMImages over blocks (C05) and over counted data (C06).

Shared: one image per radius pair, of one zero pixel per scan position; one mask per radius pair, made by
createAnnularMask (contract: masks.py) for the frame size, that pair of radii and the given centre.
Over blocks: every block of the sequence is given exactly once to _runCalculateSTEMValues (contract: c05.py)
with each mask and the image of the same pair; every task started is waited for before the images are
returned.  IM(m, p, n), the value of pixel p of image m after n blocks, is defined by that contract.
Over counted data: calculateSTEMValuesSparse (contract: c06.py) once per pair, with its own mask and image."""
from blocks import *

stdlib.STRUCTS['stempy::Image<unsigned long>'] = (24, {0: (('int', 32), False), 4: (('int', 32), False)}, {8: 'unsigned long'})
stdlib.OWNED['stempy::Image<unsigned long>'] = {8: 'unsigned long'}
stdlib.STRUCTS['std::future<void>'] = (16, {}, {})

class Pairs:
    """the radius pairs, the masks made for them and the images"""
    def __init__(self, T, W, H):
        self.T, ctx, ex = T, T.ctx, T.ex
        c = self.c = consts(T.task.unit.raw)
        if (c['vc_image_data'], c['vc_stem_data'], c['vc_stem_size']) != (8, 8, 24):
            raise Unsupported('layout of STEMImage')
        self.R = T.int('pairs', 64, 0, 1 << 40).p
        self.R2 = T.int('outerRadii', 64, 0, 1 << 40).p
        self.iv, I_ = T.vector('innerRadii', 'int', self.R, readonly=True)
        self.ov, O_ = T.vector('outerRadii', 'int', self.R2, readonly=True)
        self.inner, self.outer = ex.array(T.st, I_, 0, ('int', 32)), ex.array(T.st, O_, 0, ('int', 32))
        self.W, self.H, self.N = W, H, W.p * H.p
        self.cx, self.cy = T.int('cx', 32), T.int('cy', 32)
        self.MK = Base(ctx, 'mask', 'int', 3, 0, 65535)         # (inner, outer, k): contract of createAnnularMask
        ex.handlers = [(re.compile(r'^stempy::createAnnularMask\('), self.h_mask), (re.compile(r'^stempy::createSTEMImages|x^'), None)][:1] + ex.handlers
    def h_mask(self, ex, st, d, a, ins):
        dm, ri, ro, ce = a
        T = self.T
        ri, ro = ex.s(st, ri), ex.s(st, ro)
        ex.oblige(st, ex.u(st, dm).eq(T.pair32(self.W, self.H).p), 'createAnnularMask: the size of the frames', 'pre')
        ex.oblige(st, ex.u(st, ce).eq(T.pair32(self.cx, self.cy).p), 'createAnnularMask: the given centre', 'pre')
        reg = ex.region('annulus', stride=2, size=self.N)
        reg.fields = {0: ('int', 16)}
        reg.arr0 = {0: Sub(self.MK, (ri, ro))}
        return ptr(reg)
    def mask(self, m, k):
        return self.MK.read((self.inner.read((m,)), self.outer.read((m,)), k))
    def family(self, view, elem):
        """(pointer family, key) of the vectors whose elements own storage of the given type"""
        for key in list(view.st.mem):
            r = key[1]
            if key[0] in 'ac' and getattr(r, 'elem', None) == elem:
                yield r, key

def is_images(r):
    return getattr(r, 'elem', None) == 'stempy::Image<unsigned long>'
def is_masks(r):
    return getattr(r, 'elem', None) == 'unsigned short*'
def parent(ex, r, test):
    """r is the storage owned by the elements of a vector for which test holds"""
    return any(test(q) and r in getattr(q, 'vec', {}).values() for q in ex.regions)

def family_cands(view, pr, sw, sh, pixel):
    """candidate invariants about the vectors of images and masks; pixel(v, m, p): value of pixel p of image m"""
    ctx, ex = pr.T.ctx, pr.T.ex
    SP = sw.p * sh.p
    done = set()
    for key in list(view.st.mem):
        kind, r, f = key[0], key[1], key[2]
        if kind == 'c' and f == 'n' and (is_images(r) or is_masks(r)):
            yield Cand('as many as passes', scalar=lambda v, key=key: v.st.mem[key].p.eq(v.n))
            yield Cand('one per pair', scalar=lambda v, key=key: v.st.mem[key].p.eq(pr.R))
        if kind != 'a':
            continue
        def bound(v, vec, idx):
            n = dynsize(ex, v.st, vec, ())
            return And(idx[0] >= 0, idx[0] < n)
        vec = r if is_images(r) or is_masks(r) else next((q for q in ex.regions if (is_images(q) or is_masks(q)) and r in q.vec.values()), None)
        if vec is None:
            continue
        if vec is r and is_images(r) and f in (0, 4):
            yield Cand('image sizes', key=key, forall=lambda v, idx, val, vec=vec, f=f: Implies(bound(v, vec, idx), val.eq((sw, sh)[f // 4].p)))
        if vec is not r and f == 'n':
            n = SP if is_images(vec) else pr.N
            yield Cand('storage', key=key, forall=lambda v, idx, val, vec=vec, n=n: Implies(bound(v, vec, idx), val.eq(n)))
        if vec is not r and f == 0 and is_masks(vec):
            yield Cand('masks', key=key, forall=lambda v, idx, val, vec=vec: Implies(And(bound(v, vec, idx), idx[1] >= 0, idx[1] < pr.N), val.eq(pr.mask(idx[0], idx[1]))))
        if vec is not r and f == 0 and is_images(vec):
            yield Cand('images 0', key=key, forall=lambda v, idx, val, vec=vec: Implies(And(bound(v, vec, idx), idx[1] >= 0, idx[1] < SP), val.eq(0)))
            yield Cand('images', key=key, forall=lambda v, idx, val, vec=vec: Implies(And(bound(v, vec, idx), idx[1] >= 0, idx[1] < SP), val.eq(pixel(v, idx[0], idx[1]))))

def element(ex, st, p, test, what):
    """p points to an element of a vector for which test holds -> (region, index)"""
    g, reg, par, off = stdlib.one(p)
    if reg is None or not test(reg):
        raise Unsupported('%s is not an element of its vector' % what)
    i, f = ex.place(st, reg, par, off, reg.stride, what)
    ex.bounds(st, g, reg, par, i, what, 'access')
    ex.oblige(st, B(f == 0), '%s: an element' % what, 'pre')
    return reg, i

def owned_by(ex, p, test, what):
    """p points to the start of the storage owned by an element -> (region, index)"""
    g, reg, par, off = stdlib.one(p)
    if reg is None or not parent(ex, reg, test) or len(par) != 1 or not off.same(0):
        raise Unsupported('%s is not the storage of an element of its vector' % what)
    return reg, par[0]

def result(T, st, out, pr, sw, sh, pixel, text):
    ctx, ex = T.ctx, T.ex
    SP = sw.p * sh.p
    V, par = vec_of(ex, st, ptr(out))
    m, p = fresh_int('m'), fresh_int('p')
    inside = And(m >= 0, m < pr.R)
    T.ensure(st, dynsize(ex, st, V, ()).eq(pr.R), 'one image per radius pair')
    for f, want in ((0, sw), (4, sh)):
        T.ensure(st, Implies(inside, ex.array(st, V, f, ('int', 32)).read((m,)).eq(want.p)), 'the images have the %s of the scan' % ('width' if f == 0 else 'height'))
    D = V.vec[8]
    T.ensure(st, Implies(inside, dynsize(ex, st, D, (m,)).eq(SP)), 'one pixel per scan position')
    T.ensure(st, Implies(And(inside, p >= 0, p < SP), ex.array(st, D, 0, ('int', 64)).read((m, p)).eq(pixel(m, p))), text)

# ---------------------------------------------------------------- over counted data
def sparse(T):
    ctx, ex = T.ctx, T.ex
    W, H = T.int('width', 32), T.int('height', 32)
    sw, sh = T.int('scanWidth', 32), T.int('scanHeight', 32)
    T.assume(And(sw.p * sh.p < (1 << 32)))
    pr = Pairs(T, W, H)
    SP = sw.p * sh.p
    ev = T.record('events')
    EV = ptr(ev)
    SUM = z3.Function('eventSum', z3.IntSort(), z3.IntSort(), z3.IntSort())     # (m, p): contract of calculateSTEMValuesSparse with mask m
    def total(m, p):
        r = P(SUM(P(m).z(), P(p).z()))
        ctx.add(And(r >= 0, r < (1 << 63)))
        return r
    def h(ex, st, d, a, ins):
        e, mk, im = a
        ex.oblige(st, B(stdlib.one(e)[1] is ev), 'calculateSTEMValuesSparse: the given events', 'pre')
        V, i = element(ex, st, im, is_images, 'image')
        MV, m = owned_by(ex, mk, is_masks, 'mask')
        ex.oblige(st, i.eq(m), 'calculateSTEMValuesSparse: the mask and the image of the same pair', 'pre')
        k = fresh_int('k')
        ex.oblige(st, And(dynsize(ex, st, MV, (m,)).eq(pr.N), Implies(And(k >= 0, k < pr.N), ex.array(st, MV, 0, ('int', 16)).read((m, k)).eq(pr.mask(m, k)))), 'calculateSTEMValuesSparse: the mask of the pair', 'pre')
        D = V.vec[8]
        ex.oblige(st, dynsize(ex, st, D, (i,)).eq(SP), 'calculateSTEMValuesSparse: an image of one pixel per scan position', 'pre')
        old = ex.array(st, D, 0, ('int', 64))
        new = ex.newbase(D, 0, ('int', 64), 'image')
        def fact(idx, val):
            ctx.add(Implies(And(P(idx[0]).eq(i), old.read(idx).eq(0)), val.eq(total(m, idx[1]))))
            return And(Implies(P(idx[0]).eq(i), Implies(And(old.read(idx) + total(m, idx[1]) < (1 << 64)), val.eq(old.read(idx) + total(m, idx[1])))),
                       Implies(P(idx[0]).ne(i), val.eq(old.read(idx))))
        new.facts.append(fact)
        st.mem[('a', D, 0)] = new
    ex.handlers = [(re.compile(r'stempy::calculateSTEMValuesSparse<'), h)] + ex.handlers
    T.cands.append(lambda view: family_cands(view, pr, sw, sh, lambda v, m, p: iteP(m < v.n, total(m, p), P(0))))
    out = T.record('result')
    for st, v in T.run([ptr(out), EV, pr.iv, pr.ov, T.pair32(sw, sh), T.pair32(W, H), T.pair32(pr.cx, pr.cy)]):
        T.ensure(st, pr.R.eq(pr.R2), 'the radii come in pairs')
        result(T, st, out, pr, sw, sh, total, 'image m, pixel p is the sum of the events of p under the mask of pair m')

def sparse_tasks():
    return [Task('createSTEMImages(events)', UB, r'^std::vector<stempy::Image<unsigned long>, .*stempy::createSTEMImages<std::vector<unsigned int', sparse,
                 keep=lambda d: KEEP(d) or d.startswith('stempy::createAnnularMask(') or 'stempy::calculateSTEMValuesSparse<' in d.split('(')[0])]

# ---------------------------------------------------------------- over blocks
def blocks(from_header):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        b = Blocks(T)
        T.assume(b.B >= 1)
        if from_header:
            sw, sh = b.sw, b.sh
            ow, oh = T.int('scanWidth', 32), T.int('scanHeight', 32)
            T.assume(Or(ow.p.eq(0), oh.p.eq(0)))
        else:
            sw, sh = T.int('scanWidth', 32, 1), T.int('scanHeight', 32, 1)
            ow, oh = sw, sh
        SP = sw.p * sh.p
        T.assume(SP < (1 << 32))
        pr = Pairs(T, b.W, b.H)
        FO = z3.Function('frameOf', z3.IntSort(), z3.IntSort(), z3.IntSort())       # (block, position): its frame, or -1
        MS = z3.Function('maskedSum', *[z3.IntSort()] * 4)                            # (block, frame, pair)
        def after(n, m, p, before):
            """contract of _runCalculateSTEMValues for block n, pair m at pixel p"""
            f = P(FO(n.z(), p.z()))
            mine = And(f >= 0, f < b.frames(n), b.number.read((n, f)).eq(p))
            r = P(MS(n.z(), f.z(), P(m).z()))
            ctx.add(And(r >= 0, r < (1 << 63)))
            return iteP(mine, r, before)
        IMf = z3.Function('IM', *[z3.IntSort()] * 4)
        seen = set()
        def IM(m, p, n):
            m, p, n = P(m), P(p), P(n)
            t = P(IMf(m.z(), p.z(), n.z()))
            k = (m.key(), p.key(), n.key())
            if k not in seen:
                seen.add(k)
                ctx.add(And(t >= 0, t < (1 << 63), Implies(n.eq(0), t.eq(0))))
                ctx.add(Implies(n >= 1, t.eq(after(n - 1, m, p, P(IMf(m.z(), p.z(), (n - 1).z()))))))
            return t
        gh = ex.region('ghost')
        gh.init = lambda o_, ty: I(P(0), 64)
        cell = lambda st, o: st.mem.get(('c', gh, o), I(P(0), 64)).p
        def bump(o):
            def h(ex, st, d, a, ins):
                st.mem[('c', gh, o)] = I(cell(st, o) + 1, 64)
            return h
        def h(ex, st, d, a, ins):
            data, nums, npx, mk, im = a
            if not ex.outer:
                raise Unsupported('block summed outside the loop over blocks')
            n = ex.outer[0][1]
            DR = stdlib.one(data)[1]
            if not hasattr(DR, 'blk'):
                raise Unsupported('the summed pixels are not those of a block')
            ex.oblige(st, And(DR.blk.eq(n), stdlib.one(data)[3].eq(0)), '_runCalculateSTEMValues: the pixels of the block of this pass', 'pre')
            NV, npar = vec_of(ex, st, nums)
            k = fresh_int('k')
            ex.oblige(st, And(dynsize(ex, st, NV, npar).eq(b.frames(n)), Implies(And(k >= 0, k < b.frames(n)), P(ex.array(st, NV, 0, ('int', 32)).read(tuple(npar) + (k,))).eq(b.number.read((n, k))))),
                      '_runCalculateSTEMValues: the image numbers of the block', 'pre')
            ex.oblige(st, ex.u(st, npx).eq(b.N), '_runCalculateSTEMValues: the size of a frame', 'pre')
            V, i = element(ex, st, im, is_images, 'image')
            MV, m = owned_by(ex, mk, is_masks, 'mask')
            ex.oblige(st, i.eq(m), '_runCalculateSTEMValues: the mask and the image of the same pair', 'pre')
            ex.oblige(st, And(dynsize(ex, st, MV, (m,)).eq(pr.N), Implies(And(k >= 0, k < pr.N), P(ex.array(st, MV, 0, ('int', 16)).read((m, k))).eq(pr.mask(m, k)))), '_runCalculateSTEMValues: the mask of the pair', 'pre')
            D = V.vec[8]
            ex.oblige(st, dynsize(ex, st, D, (i,)).eq(SP), '_runCalculateSTEMValues: an image of one pixel per scan position', 'pre')
            old = ex.array(st, D, 0, ('int', 64))
            new = ex.newbase(D, 0, ('int', 64), 'image')
            new.facts.append(lambda idx, val: And(Implies(P(idx[0]).eq(i), val.eq(after(n, m, idx[1], P(old.read(idx))))), Implies(P(idx[0]).ne(i), val.eq(old.read(idx)))))
            st.mem[('a', D, 0)] = new
        ex.handlers = [(re.compile(r'stempy::.*_runCalculateSTEMValues\('), h), (re.compile(r'^verif_ready_future\('), bump(0)),
                       (re.compile(r'^std::future<void>::get\('), bump(8)), (re.compile(r'^std::future<void>::'), stdlib.h_noop)] + ex.handlers
        def pixel(v, m, p):
            if v.depth == 1:
                return IM(m, p, v.n)
            n = v.outer[0][1]
            return iteP(m < v.n, IM(m, p, n + 1), IM(m, p, n))
        def futures(st):
            for key in st.mem:
                if key[0] == 'c' and key[2] == 'n' and getattr(key[1], 'elem', None) == 'std::future<void>':
                    yield st.mem[key].p
        def cands(view):
            for x in family_cands(view, pr, sw, sh, pixel):
                yield x
            if view.depth == 1 and calls(view, 'VcIt::'):
                yield Cand('blocks', scalar=lambda v: v.n <= b.B)
            yield Cand('every task has a future', scalar=lambda v: And(*[x.eq(cell(v.st, 0)) for x in futures(v.st)]))
            if calls(view, 'std::future<void>::get'):
                yield Cand('futures waited for', scalar=lambda v: cell(v.st, 8).eq(v.n))
                yield Cand('final', key=None, scalar=lambda v: TRUE)
                for key in list(view.st.mem):
                    if key[0] == 'a' and key[2] == 0 and parent(ex, key[1], is_images):
                        yield Cand('images done', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < pr.R, idx[1] >= 0, idx[1] < SP), val.eq(IM(idx[0], idx[1], b.B))))
            else:
                yield Cand('none waited for yet', scalar=lambda v: cell(v.st, 8).eq(0))
        T.cands.append(cands)
        out = T.record('result')
        a = [I(P(0), 64), I(b.B, 64)]
        for st, v in T.run([ptr(out)] + a + [pr.iv, pr.ov, T.pair32(ow, oh), T.pair32(pr.cx, pr.cy)]):
            T.ensure(st, pr.R.eq(pr.R2), 'the radii come in pairs')
            T.ensure(st, cell(st, 0).eq(cell(st, 8)), 'every task is waited for before the images are returned')
            result(T, st, out, pr, sw, sh, lambda m, p: IM(m, p, b.B), 'image m, pixel p is the masked sum of the frame with image number p')
    return fn

def block_tasks():
    return [Task('createSTEMImages(blocks)' + (' scan size from header' if hd else ''), UB, r'^std::vector<stempy::Image<unsigned long>, .*stempy::createSTEMImages<VcIt>\([^\']*$', blocks(hd),
                 keep=lambda d: KEEP(d) or d.startswith('stempy::createAnnularMask(') or '_runCalculateSTEMValues(' in d or d.startswith('std::future<void>::') or d.startswith('verif_ready_future')) for hd in (False, True)]

"""Counting a sequence of blocks: electronCount(first, last, options) (C02, C04).

requires: at least one block, every block has the frame size of the first, image numbers lie inside the scan,
width*height < 2^31 and fewer than 2^32 pixels per block, a scan size in the options or else in the header.
ensures: for frame i of block b, the frame given to maximalPoints is the frame's own pixels preprocessed once
(or handed to applyRowDark once, when row-dark correction is requested); its events are filed at
data[number(b,i)][0]; data has one entry per scan position, every entry one frame, and its events are those
of the last frame read with that image number, and none if there is no such frame; the scan and frame sizes
are those of the options (or header) and of the blocks.  The last-one-wins folds SZ and EL define this: with
at most one frame per position they say that every frame contributes its events exactly once, whatever the
partition into blocks and the order."""
from blocks import *

UE = unit(os.path.join(frontend.HARNESS, 'vc/electron.cpp'), 'vc_electron', ['-I' + os.path.join(frontend.HARNESS, 'vc')])
ASSUMPTIONS = ['one frame size for all blocks, image numbers inside the scan, width*height < 2^31, fewer than 2^32 pixels per block',
               'integer frames: a pixel below its dark value converts to something outside the thresholds (the conversion is undefined)',
               'the iterator over the blocks behaves as its ghost contract says (the readers: C10-C13)']

def contract(real, dark, from_header):
    def fn(T):
        ctx, ex = T.ctx, T.ex
        b = Blocks(T)
        T.assume(And(b.N < (1 << 31), b.B >= 1))
        N = b.N
        if from_header:
            sw, sh = b.sw, b.sh
            ow, oh = T.int('scanWidth', 32), T.int('scanHeight', 32)
            T.assume(Or(ow.p.eq(0), oh.p.eq(0)))
        else:
            sw, sh = T.int('scanWidth', 32, 1), T.int('scanHeight', 32, 1)
            ow, oh = sw, sh
        SP = sw.p * sh.p
        T.assume(And(SP < (1 << 32)))
        D, G = T.array('dark', 'float', N, readonly=True), T.array('gain', 'float', N, readonly=True)
        bg, xr = R(fresh_real('background'), 64), R(fresh_real('xray'), 64)
        mean = R(fresh_real('optimizedMean'), 32)
        rowdark, usemean = fresh_bool('applyRowDark'), fresh_bool('useMean')
        c = b.c
        o = T.record('options', {c['vc_dark']: ptr(D), c['vc_background']: bg, c['vc_xray']: xr, c['vc_gain']: ptr(G),
                                 c['vc_opt_scan']: ow, c['vc_opt_scan'] + 4: oh, c['vc_row_dark']: I(iteP(rowdark, P(1), P(0)), 8, 0, 1),
                                 c['vc_mean']: mean, c['vc_use_mean']: I(iteP(usemean, P(1), P(0)), 8, 0, 1)})
        out = T.record('result')
        da, ga = ex.array(T.st, D, 0, ('real', 32)), ex.array(T.st, G, 0, ('real', 32))
        eq = lambda a, b_: a.eq(b_) if isinstance(a, Poly) else a == b_
        st0 = T.st
        sort = z3.RealSort() if real else z3.IntSort()
        wrap = (lambda v: v) if real else P
        def pixel(blk, i, k):
            """pixel k of frame i of block blk, as stored"""
            x = b.px.read((blk, i * N + k))
            return z3.ToReal(x.z()) if real else x
        def value(blk, i, k):
            x = b.px.read((blk, i * N + k))
            v = ex.rint(st0, x, 0, 65535, 32)
            if real:
                if dark:
                    v = ex.rop(st0, 'fsub', v, R(da.read((k,)), 32), 32)
                v = ex.rop(st0, 'fmul', v, R(ga.read((k,)), 32), 32).z
                return z3.If(And(v > bg.z, v < xr.z), v, z3.RealVal(0))
            w = x
            if dark:
                d = da.read((k,))
                f = ex.rop(st0, 'fsub', v, R(d, 32), 32)
                w = ex.fptoi(f, 16, False).p
                wz = z3.ToReal(w.z())
                ctx.add(Implies(f.z < 0, Not(And(wz > bg.z, wz < xr.z))))        # requires
            wz = z3.ToReal(w.z())
            return iteP(And(wz > bg.z, wz < xr.z), w, P(0))
        spec, define = defined3(ctx, 'preprocessed', value, sort, wrap)
        RD = z3.Function('rowDark', z3.IntSort(), z3.IntSort(), z3.IntSort(), sort)
        rd = lambda blk, e, k: wrap(RD(P(blk).z(), P(e).z(), P(k).z()))
        # the events of the frame that begins at pixel e of block blk (contract of maximalPoints: C01)
        ML = Base(ctx, 'events', 'int', 2, 0, (1 << 32) - 1)
        ME = Base(ctx, 'event', 'int', 3, 0, (1 << 32) - 1)
        def number(blk, i):
            v = b.number.read((blk, i))
            ctx.add(Implies(And(i >= 0, i < b.frames(blk)), v < SP))          # requires
            return v
        def mk(name, what, npar):
            """what(blk, i, *par): what frame i of block blk leaves at position par[0]"""
            s = z3.IntSort()
            f1 = z3.Function(name + '1', *([s] * (npar + 3)))
            f0 = z3.Function(name + '0', *([s] * (npar + 2)))
            seen = set()
            def F0(n, *par):
                t = P(f0(n.z(), *[p.z() for p in par]))
                k = ('0', n.key()) + tuple(p.key() for p in par)
                if k not in seen:
                    seen.add(k)
                    ctx.add(Implies(n.eq(0), t.eq(0)))
                    ctx.add(Implies(n >= 1, t.eq(F1(n - 1, b.frames(n - 1), *par))) )
                return t
            def F1(n, i, *par):
                t = P(f1(n.z(), i.z(), *[p.z() for p in par]))
                k = ('1', n.key(), i.key()) + tuple(p.key() for p in par)
                if k not in seen:
                    seen.add(k)
                    ctx.add(Implies(i.eq(0), t.eq(P(f0(n.z(), *[p.z() for p in par])))))
                    prev = P(f1(n.z(), (i - 1).z(), *[p.z() for p in par]))
                    ctx.add(Implies(i >= 1, t.eq(iteP(number(n, i - 1).eq(par[0]), what(n, i - 1, *par), prev))))
                return t
            return F0, F1
        SZ0, SZ1 = mk('SZ', lambda n, i, p: ML.read((n, i * N)), 1)
        EL0, EL1 = mk('EL', lambda n, i, p, q: ME.read((n, i * N, q)), 2)
        gh = ex.region('ghost')
        gh.init = lambda o_, ty: I(P(0), 32)
        dims = T.pair32(b.W, b.H)
        def frame_at(st, fv):
            Dv, par = vec_of(ex, st, fv)
            src = getattr(Dv, 'origin_reg', None)
            if src is None or not hasattr(src, 'blk'):
                raise Unsupported('the counted frame is not a copy of a frame of a block')
            e, n = Dv.origin
            ex.oblige(st, n.eq(N), 'the counted frame is one whole frame', 'pre')
            return Dv, src.blk, e
        def h_row(ex, st, d, a, ins):
            f, dm, mn, bb, x, dk, gn, um = a
            Dv, blk, e = frame_at(st, f)
            k = fresh_int('k')
            ty = Dv.fields[0]
            x0 = b.px.read((blk, e + k))
            x0 = z3.ToReal(x0.z()) if real else x0
            ex.oblige(st, Implies(And(k >= 0, k < N), eq(ex.array(st, Dv, 0, ty).read((k,)), x0)), 'row-dark correction of the uncorrected frame', 'pre')
            ex.oblige(st, rowdark, 'row-dark correction only when requested', 'pre')
            ex.oblige(st, And(ex.u(st, dm).eq(dims.p), mn.z == mean.z, bb.z == bg.z, x.z == xr.z, um.b == usemean), 'row-dark correction with the given mean, thresholds and statistic', 'pre')
            ex.oblige(st, B(all(p.opts[0][1] is q for p, q in ((dk, D), (gn, G)))), 'row-dark correction with the dark reference and gain', 'pre')
            new = ex.newbase(Dv, 0, ty, 'rowdark')
            new.facts.append(lambda idx, val: eq(val, rd(blk, e, idx[0])))
            st.mem[('a', Dv, 0)] = new
        def h_max(ex, st, d, a, ins):
            sr, f, dm = a
            Dv, blk, e = frame_at(st, f)
            k = fresh_int('k')
            val = ex.array(st, Dv, 0, Dv.fields[0]).read((k,))
            if len(ex.outer) < 2:
                raise Unsupported('frame counted outside the loop over frames')
            i = ex.outer[1][1]
            define(blk, i, k)
            ex.oblige(st, e.eq(i * N), 'the frame counted in iteration i is frame i of its block', 'pre')
            ex.oblige(st, Implies(And(Not(rowdark), k >= 0, k < N), eq(val, spec(blk, i, k))), 'the searched frame is the preprocessed frame', 'post')
            ex.oblige(st, Implies(And(rowdark, k >= 0, k < N), eq(val, rd(blk, e, k))), 'the searched frame is the row-dark corrected frame', 'post')
            ex.oblige(st, ex.u(st, dm).eq(dims.p), 'the frame is searched with its own dimensions', 'pre')
            E, epar = vec_of(ex, st, sr, 'unsigned int')
            stdlib.set_vsize(ex, st, E, epar, ML.read((blk, e)))
            ar = ex.array(st, E, 0, E.fields[0])
            st.mem[('a', E, 0)] = stdlib.Slice(ar, epar, None, None, lambda *q: ME.read((blk, e) + tuple(q)))
        ex.handlers = [(re.compile(r'stempy::maximalPoints<'), h_max), (re.compile(r'stempy::applyRowDark<'), h_row)] + ex.handlers
        def now(v):
            """(blocks done, frames done of the current block)"""
            return v.n if v.depth == 1 else v.outer[0][1], None if v.depth == 1 else v.n if v.depth == 2 else v.outer[1][1]
        def sz(v, p):
            n, i = now(v)
            return SZ0(n, p) if i is None else SZ1(n, i, p)
        def el(v, p, q):
            n, i = now(v)
            return EL0(n, p, q) if i is None else EL1(n, i, p, q)
        def lemma(v):
            n, i = now(v)
            if i is not None:
                step_lemma(ctx, i, b.frames(n), N)
                number(n, i)
                number(n, i - 1)
            if v.depth == 3:
                define(n, i, v.n)
                define(n, i, v.n - 1)
            return TRUE
        def cands(view):
            over = calls(view, 'VcIt::') or calls(view, 'maximalPoints<') or view.depth > 1
            if over:
                yield Cand('lemma', scalar=lemma)
                if view.depth == 1:
                    yield Cand('blocks', scalar=lambda v: v.n <= b.B)
            for key in list(view.st.mem):
                if key[0] != 'a':
                    continue
                reg = key[1]
                if view.depth == 3 and hasattr(reg, 'origin') and key[2] == 0:
                    def pix(v, idx, val):
                        n, i = now(v)
                        k = idx[0]
                        return And(Implies(And(k >= 0, k < v.n, k < N), eq(val, spec(n, i, k))), Implies(And(k >= v.n, k < N), eq(val, pixel(n, i, k))))
                    yield Cand('preprocessed pixels', key=key, forall=pix)
                if getattr(reg, 'elem', None) == 'unsigned int' and reg.lead == 2:
                    if key[2] == 'n':
                        if over:
                            yield Cand('events per position', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < SP, P(idx[1]).eq(0)), val.eq(sz(v, idx[0]))))
                        else:
                            yield Cand('no events yet', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < v.n, P(idx[1]).eq(0)), val.eq(0)))
                    elif key[2] == 0 and over:
                        yield Cand('events', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < SP, P(idx[1]).eq(0), idx[2] >= 0, idx[2] < sz(v, idx[0])), val.eq(el(v, idx[0], idx[2]))))
                if key[2] == 'n' and reg.lead == 1 and str(getattr(reg, 'elem', '')).startswith('std::vector<unsigned int'):
                    if over:
                        yield Cand('one frame per position', key=key, forall=lambda v, idx, val: Implies(And(idx[0] >= 0, idx[0] < SP), val.eq(1)))
                    else:
                        yield Cand('one frame per position so far', key=key, forall=lambda v, idx, val: And(Implies(And(idx[0] >= 0, idx[0] < v.n), val.eq(1)), Implies(idx[0] >= v.n, val.eq(0))))
        T.cands.append(cands)
        for st, v in T.run([ptr(out), I(P(0), 64), I(b.B, 64), ptr(o)]):
            E0, par = vec_of(ex, st, ptr(out, c['vc_data']))
            E1 = E0.vec[0]
            E2 = E1.vec[0]
            if os.environ.get('VCG_DEBUG'): print(dynsize(ex, st, E0, ()), SP)
            p, q = fresh_int('p'), fresh_int('q')
            inside = And(p >= 0, p < SP)
            T.ensure(st, dynsize(ex, st, E0, ()).eq(SP), 'one entry per scan position')
            T.ensure(st, Implies(inside, dynsize(ex, st, E1, (p,)).eq(1)), 'one frame per scan position')
            T.ensure(st, Implies(inside, dynsize(ex, st, E2, (p, P(0))).eq(SZ0(b.B, p))), 'the number of events at p is that of the last frame with image number p, else 0')
            T.ensure(st, Implies(And(inside, q >= 0, q < SZ0(b.B, p)), P(ex.array(st, E2, 0, ('int', 32)).read((p, P(0), q))).eq(EL0(b.B, p, q))), 'the events at p are those of the last frame with image number p')
            for off, want, nm in ((c['vc_out_scan'], (sw, sh), 'scan'), (c['vc_out_frame'], (b.W, b.H), 'frame')):
                for k in (0, 1):
                    x = ex.load(st, ('int', 32), ptr(out, off + 4 * k), 'result')
                    T.ensure(st, ex.u(st, x).eq(want[k].p), 'the result carries the %s %s' % (nm, ('width', 'height')[k]))
    return fn

def defined3(ctx, name, fn, sort, wrap):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort(), sort)
    done = set()
    app = lambda *k: wrap(f(*[P(x).z() for x in k]))
    def define(*k):
        k = tuple(P(x) for x in k)
        key = tuple(x.key() for x in k)
        if key not in done:
            done.add(key)
            v = fn(*k)
            ctx.add(app(*k).eq(v) if isinstance(v, Poly) else app(*k) == v)
    return app, define

def driver_tasks():
    out = []
    for ty, real in (('float', True), ('unsigned short', False)):
        for dark in (True, False):
            for hd in (False, True):
                r = r'^stempy::ElectronCountedData stempy::electronCount<VcIt, %s, %s>\(.*const&\)$' % (ty, 'true' if dark else 'false')
                out.append(Task('electronCount(blocks)<%s,%s>%s' % (ty, 'dark' if dark else 'no dark', ' scan size from header' if hd else ''), UE, r, contract(real, dark, hd),
                                keep=lambda d: KEEP(d) or bool(re.search(r'^(void |std::vector<unsigned int, std::allocator<unsigned int>> )stempy::(maximalPoints<|applyRowDark<(float|unsigned short)>)', d))))
    return out

def select(T):
    """electronCount(first, last, options): the instance that subtracts a dark reference iff one is given
    and works on floats and multiplies by the gain iff one is given"""
    ctx, ex = T.ctx, T.ex
    c = consts(T.task.unit.raw)
    D, G = T.array('dark', 'float', P(1)), T.array('gain', 'float', P(1))
    hd, hg = fresh_bool('darkGiven'), fresh_bool('gainGiven')
    def opt(g, r):
        return Ptr([(g, r, (), P(0)), (Not(g), None, (), P(0))])
    o = T.record('options', {c['vc_dark']: opt(hd, D), c['vc_gain']: opt(hg, G)})
    a, z = T.int('first', 64), T.int('last', 64)
    out, gh = T.record('result'), ex.region('ghost')
    gh.init = lambda o_, ty: I(P(0), 32)
    n = lambda st: st.mem.get(('c', gh, 0), I(P(0), 32)).p
    def h(ex, st, d, args, ins):
        m = re.search(r'electronCount<VcIt, ([a-z ]+), (true|false)>', d)
        ex.oblige(st, hd if m.group(2) == 'true' else Not(hd), 'a dark reference is subtracted iff it is given', 'pre')
        ex.oblige(st, hg if m.group(1) == 'float' else Not(hg), 'frames are multiplied by a gain iff it is given', 'pre')
        it = [ex.load(st, ('int', 64), x, 'iterator') if isinstance(x, Ptr) else x for x in args[1:3]]
        ex.oblige(st, And(ex.u(st, it[0]).eq(a.p), ex.u(st, it[1]).eq(z.p), B(stdlib.one(args[3])[1] is o), B(stdlib.one(args[0])[1] is out)), 'all blocks are counted with the given options', 'pre')
        st.mem[('c', gh, 0)] = I(n(st) + 1, 32)
    ex.handlers = [(re.compile(r'electronCount<VcIt, [a-z ]+, (true|false)>'), h)] + ex.handlers
    for st, v in T.run([ptr(out), a, z, ptr(o)]):
        T.ensure(st, n(st).eq(1), 'the blocks are counted once')

def select_task():
    return Task('electronCount(blocks)', UE, r'^stempy::ElectronCountedData stempy::electronCount<VcIt>\(', select,
                keep=lambda d: bool(re.search(r'^stempy::ElectronCountedData stempy::electronCount<VcIt, [a-z ]+, (true|false)>', d)))

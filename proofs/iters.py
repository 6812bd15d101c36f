"""The iterators over the blocks of a reader: they hold the next block and equal end() once there is none."""
from common import *

def consts(raw):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'@(vc_\w+) = .*constant i64 (\d+)', open(raw).read())}

def iterator(kind, cls, holder=False, prefix=''):
    """the iterator over the blocks of a reader (begin, end or ++): read() is called through its contract, with a ghost counter of the blocks read"""
    def fn(T):
        ctx, ex = T.ctx, T.ex
        c = consts(T.task.unit.raw)
        total, pos = T.int('blocks', 64, 0, 1 << 40).p, T.int('position', 64, 0, 1 << 40).p
        rec = T.record(cls)
        rd = ptr(rec)
        gh = ex.region('ghost')
        T.st.mem[('c', gh, 0)] = I(pos, 64)
        T.assume(pos <= total)
        blocks = T.array('pixels', 'unsigned short', 1 << 40, readonly=True)
        def h_read(ex, st, d, a, ins):
            """contract of read(): block number pos, or one without data after the last"""
            ex.oblige(st, B(stdlib.one(a[1])[1] is rec), 'the iterator reads from its reader', 'pre')
            p = st.mem[('c', gh, 0)].p
            g, reg, par, off = stdlib.one(a[0])
            arr = ex.region('array')
            arr.init = lambda o, ty: ptr(blocks, p * 2) if ty == ('ptr',) else None
            got = (arr, P(0)) if holder else (blocks, p * 2)
            st.mem[('c', reg, off.const_value() + c['vc_block_data'])] = Ptr([(p < total, got[0], (), got[1]), (p >= total, None, (), P(0))])
            st.mem[('c', gh, 0)] = I(iteP(p < total, p + 1, p), 64)
            D, par = vec_of(ex, st, ex.padd(a[0], P(c['vc_block_header'] + c['vc_numbers'])), 'unsigned int')
            stdlib.set_vsize(ex, st, D, par, 1)
            D, par = vec_of(ex, st, ex.padd(a[0], P(c['vc_block_header'] + c['vc_complete'])), 'bool')
            stdlib.set_vsize(ex, st, D, par, 0)
        ex.handlers = [(re.compile(r'^stempy::%s::read\(\)' % cls), h_read)] + ex.handlers
        it, end = T.record('iterator'), T.record('end')
        if kind == 'begin':
            args = [rd, ptr(it)]
        elif kind == 'end':
            args = [rd, ptr(end)]
        else:
            T.st.mem[('c', it, c['vc_' + prefix + 'it_reader'])] = rd
            args = [ptr(it)]
        for st, v in T.run(args):
            now = st.mem[('c', gh, 0)].p
            if kind == 'end':
                r = ex.load(st, ('ptr',), ptr(end, c['vc_' + prefix + 'it_reader']), 'reader')
                T.ensure(st, And(Or(*[g for g, q, p, o in r.opts if q is None]), now.eq(pos)), 'end() holds no reader and reads nothing')
                continue
            r = ex.load(st, ('ptr',), ptr(it, c['vc_' + prefix + 'it_reader']), 'reader')
            T.ensure(st, Or(*[g for g, q, p, o in r.opts if q is None]) == (pos >= total), 'the iterator equals end() exactly when there is no further block')
            T.ensure(st, And(*[Implies(g, B(q is rec)) for g, q, p, o in r.opts if q is not None]), 'it keeps its reader')
            T.ensure(st, now.eq(iteP(pos < total, pos + 1, pos)), 'exactly one block is read')
            s = st.copy()
            s.assume(pos < total)
            if not s.dead():
                data = ex.load(s, ('ptr',), ptr(it, c['vc_' + prefix + 'it_block'] + c['vc_block_data']), 'data')
                for g, q, p, o in data.opts:
                    if z3.is_false(g):
                        continue
                    T.ensure(s, Implies(g, B(q is not None)), 'it holds a block')
                    if q is not None:
                        arr = ex.load(s, ('ptr',), Ptr([(g, q, p, o + c['vc_a_data'])]), 'pixels') if holder else Ptr([(TRUE, q, p, o)])
                        T.ensure(s, Implies(g, And(*[Implies(g2, And(B(q2 is blocks), o2.eq(pos * 2))) for g2, q2, p2, o2 in arr.opts])), 'it holds the block that was read')
    return fn


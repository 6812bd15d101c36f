"""C21: shares of the ranks of a distributed run.

requires 1 <= worldSize, 0 <= rank < worldSize, item counts as their types hold them (the number of
threshold blocks is a non-negative int).
ensures for SectorStreamMultiPassThreadedReader::initMPI (input streams) and partitionScanMap (scan
positions), with off(r), size(r) the share of rank r, as a relation between two executions of the same
code: off(0) = 0, off(r) + size(r) = off(r+1), off(last) + size(last) = number of items, so the shares
are consecutive intervals that cover every item exactly once.
ensures for getSampleBlocksPerRank: the share is non-negative and equals start(r+1) - start(r), with
start(0) = 0 and start(worldSize) = number of blocks: the shares of all ranks add up to it.  start is
the ghost prefix sum: one of a few closed forms (even split with the remainder last, or spread)."""
from common import *

INC = ['-I' + os.path.join(frontend.HARNESS, 'mpi'), '-I' + os.path.join(frontend.HARNESS, 'vc'), '-DUSE_MPI']
U = unit(os.path.join(frontend.HARNESS, 'vc/mpi_shares.cpp'), 'mpi_shares', INC)
ASSUMPTIONS = ['MPI_Comm_rank and MPI_Comm_size give 0 <= rank < size, the same size on every rank (trusted contract)',
               'fewer than 2^31 streams and scan positions (the shares are 32-bit fields)']

def consts(raw):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'@(vc_\w+) = .*constant i64 (\d+)', open(raw).read())}

def world(T):
    ws = T.int('worldSize', 32, 1, (1 << 31) - 1)
    r = T.int('rank', 32, 0, (1 << 31) - 1)
    T.assume(r.p < ws.p)
    return ws, r

def mpi(rank, ws):
    def put(v):
        def h(ex, st, d, a, ins):
            ex.store(st, ('int', 32), v, a[1], 'MPI result')
            return I(P(0), 32)
        return h
    def init(ex, st, d, a, ins):
        ex.store(st, ('int', 32), I(fresh_int('initialized'), 32), a[0], 'MPI result')
        return I(P(0), 32)
    return [(re.compile('^MPI_Comm_rank'), put(rank)), (re.compile('^MPI_Comm_size'), put(ws)), (re.compile('^MPI_Initialized'), init),
            (re.compile('^MPI_Init'), lambda ex, st, d, a, ins: I(P(0), 32))]

def intervals(vec, size, what):
    def fn(T):
        c = consts(T.task.unit.raw)
        n = T.int('items', 64, 0, 1 << 31).p
        ws, r = world(T)
        T.assume(n < (1 << 31))
        def one(rank):
            obj = T.record('reader')
            D = T.ex.region('items', stride=c[size])
            D.dyn = True; D.elem = 'item'; D.fields = {}; D.vec = {}; D.size0 = I(n, 64); D.readonly = False
            obj.vec = {c[vec]: D}
            off, sz = T.record('offset'), T.record('size')
            T.ex.handlers = mpi(rank, ws) + T.ex.handlers
            if what == 'streams':
                res = T.run([ptr(obj), ptr(off), ptr(sz)])
            else:
                res = T.run([ptr(obj), rank, ws, ptr(off), ptr(sz)])
            return [(st, T.ex.u(st, T.ex.load(st, ('int', 64), ptr(off), 'r')), T.ex.u(st, T.ex.load(st, ('int', 64), ptr(sz), 'r'))) for st, v in res]
        base = T.st
        rn = I(r.p + 1, 32, 0, (1 << 31) - 1)
        for st, o, s in one(r):
            T.ensure(st, Implies(r.p.eq(0), o.eq(0)), 'the first share begins at the first item')
            T.ensure(st, And(o >= 0, s >= 0, o + s <= n), 'the share lies within the items')
            T.ensure(st, Implies(r.p.eq(ws.p - 1), (o + s).eq(n)), 'the last share ends at the last item')
            T.st = st.copy()
            T.st.assume(r.p + 1 < ws.p)
            for st2, o2, s2 in one(rn):
                T.ensure(st2, (o + s).eq(o2), 'the share ends where the next one begins')
            T.st = base
    return fn

def sample_blocks(T):
    n = T.int('blocks', 32, 0, (1 << 31) - 1)
    ws, r = world(T)
    ctx = T.ctx
    q, m = ctx.divmod(n.p, ws.p)
    fair = lambda i: i * q + iteP(i <= m, i, m)
    def scaled(i):
        return ctx.divmod(i * n.p, ws.p)[0]
    starts = [lambda i: iteP(i.eq(ws.p), n.p, i * q), fair, lambda i: iteP(i.eq(0), P(0), i * q + m), scaled]
    for st, v in T.run([ws, r, n]):
        v = T.ex.s(st, v)
        T.ensure(st, v >= 0, 'the share is not negative')
        best = starts[0]
        for s in starts:
            if T.ex.prove(st, v.eq(s(r.p + 1) - s(r.p)), 4000):
                best = s
                break
        T.ensure(st, v.eq(best(r.p + 1) - best(r.p)), 'the shares add up to the number of blocks')
        T.ensure(st, And(best(P(0)).eq(0), best(ws.p).eq(n.p)), 'the prefix sums run from 0 to the number of blocks')

def tasks():
    return [Task('getSampleBlocksPerRank', U, r'^stempy::getSampleBlocksPerRank\(', sample_blocks),
            Task('initMPI', U, r'^vc_streams$', intervals('vc_off_streams', 'vc_sizeof_stream', 'streams'), keep=lambda d: d.startswith('MPI_')),
            Task('partitionScanMap', U, r'^vc_positions$', intervals('vc_off_scanmap', 'vc_sizeof_pos', 'positions'))]

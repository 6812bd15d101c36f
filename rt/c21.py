"""Shares of the ranks, and a walk through small files in which every rank plays its part."""
import collections, os, subprocess, tempfile
from base import *
from c11 import write_sector, sector_of, W, H
import build as B

EXE = []


def exe():
    if not EXE:
        out = os.path.join(B.OUT, 'mpi_' + B.tree_hash())
        if not os.path.exists(out):
            os.makedirs(B.OUT, exist_ok=True)
            inc = ['-I' + os.path.join(B.VERIF, 'harness', 'mpi')] + B.incs()
            objs = []
            procs = []
            for s, o in ((os.path.join(B.VERIF, 'rt', 'mpi.cpp'), out + '.a.o'), (os.path.join(B.REPO, 'stempy/reader.cpp'), out + '.b.o')):
                procs.append((o, subprocess.Popen(['clang++-18', '-std=c++14', '-w', '-DNDEBUG', '-DUSE_MPI', '-O1', '-g1', '-fsanitize=address',
                      '-D_GLIBCXX_ASSERTIONS'] + inc + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
            for o, p in procs:
                err = p.communicate()[1]
                if p.returncode:
                    raise Skip('the MPI sources do not compile: ' + err[-3000:])
                objs.append(o)
            subprocess.run(['clang++-18', '-fsanitize=address'] + objs + ['-pthread', '-o', out], check=True)
        EXE.append(out)
    return EXE[0]


def call(args, inp=''):
    p = subprocess.run([exe()] + args, input=inp, capture_output=True, text=True, timeout=120,
                       env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', LD_PRELOAD=''))
    need(p.returncode == 0, 'the program died: %s', p.stderr[-2500:])
    return p.stdout


def gen(rng, tier):
    yield dict(rows=[[w, n, n, n] for w in range(1, 13) for n in range(1, 30)])
    while True:
        yield dict(rows=[[int(rng.integers(1, 70))] + [int(rng.choice([rng.integers(1, 100), rng.integers(1, 2000)])) for _ in range(3)] for _ in range(30)])


def cover(shares, n, what):
    nxt = 0
    for off, size in shares:
        need(size >= 0 and (off == nxt or size == 0), '%s: the shares %s do not cover 0..%d once', what, shares, n - 1)
        nxt += size
    need(nxt == n, '%s: the shares %s do not cover 0..%d once', what, shares, n - 1)


def check(c):
    with tempfile.TemporaryDirectory() as td:
        dummy = os.path.join(td, 'x_module0_0.data')
        open(dummy, 'wb').close()
        out = call(['shares', dummy], '\n'.join(' '.join(map(str, r)) for r in c['rows'])).strip('\n').split('\n')
    need(len(out) == len(c['rows']), 'output')
    for (w, b, s, p), l in zip(c['rows'], out):
        v = list(map(int, l.split()))
        v = [v[5 * i:5 * i + 5] for i in range(w)]
        blocks = [x[0] for x in v]
        need(min(blocks) >= 0 and sum(blocks) == b, '%d processes share %d sample blocks as %s', w, b, blocks)
        cover(sorted([(x[1], x[2]) for x in v]), s, '%d processes, %d streams' % (w, s))
        cover(sorted([(x[3], x[4]) for x in v]), p, '%d processes, %d scan positions' % (w, p))


def gen_walk(rng, tier):
    while True:
        yield dict(seed=int(rng.integers(1 << 30)), world=int(rng.integers(1, 7)), threads=int(rng.integers(1, 4)))


def walk(c):
    r = rng_of(c)
    sw, sh = int(r.integers(1, 4)), int(r.integers(1, 4))
    frames = {}
    fn = iter(r.permutation(100))
    for p in range(sw * sh):
        for _ in range(int(r.integers(0, 3))):
            frames[p, int(next(fn))] = [j for j in range(4) if r.random() < .8]
    if not any(frames.values()):
        frames[0, 999] = [0, 1]
    zero = np.zeros((H, W), np.uint16)
    with tempfile.TemporaryDirectory() as td:
        files = []
        for k in range(4):
            path = os.path.join(td, 'x_module%d_0.data' % k)
            with open(path, 'wb') as f:
                for (p, n), have in frames.items():
                    if k in have:
                        write_sector(f, 9, n, (sw, sh), p % sw, p // sw, sector_of(zero, k, 5))
            if os.path.getsize(path):
                files.append(path)
        out = call(['walk', str(c['world']), str(c['threads'])] + files).split('\n')
    sec = collections.Counter(l for l in out if l.startswith('sector'))
    exp = collections.Counter('sector %d %d %d' % (p, n, j) for (p, n), have in frames.items() for j in have)
    need(sec == exp, 'the headers found are %s, expected %s', dict(sec - exp), dict(exp - sec))
    fr = collections.Counter(l for l in out if l.startswith('frame'))
    exp = collections.Counter('frame %d %d' % k for k, have in frames.items() if have)
    need(fr == exp, 'frames counted too often %s, frames missed %s', dict(fr - exp), dict(exp - fr))


KINDS = {'shares': (gen, check), 'walk': (gen_walk, walk)}

"""Builds the real modules (ASan) from /repo's current working tree into .build/rt, in
parallel, object by object; an object is reused only when the exact text of every repository
source and header it can include is unchanged."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/stempy-venv/bin/python')
OUT = os.path.join(VERIF, '.build', 'rt')
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
STEM = ['stempy/image.cpp', 'stempy/electron.cpp', 'stempy/reader.cpp', 'python/pyreader.cpp',
        'stempy/mask.cpp', 'stempy/electronthresholds.cpp']
PYM = {'_io': ['python/io.cpp', 'python/pyreader.cpp'], '_image': ['python/image.cpp', 'python/pyreader.cpp']}
SLOW = {'python/image.cpp': '-O0', 'python/io.cpp': '-O0', 'python/pyreader.cpp': '-O1',
        'stempy/electronthresholds.cpp': '-O1'}
BASE = ['clang++-18', '-std=c++14', '-w', '-fPIC', '-DNDEBUG', '-g1', '-fsanitize=address',
        '-shared-libsan', '-D_GLIBCXX_ASSERTIONS']


class BuildError(Exception):
    pass


def incs():
    return ['-I' + os.path.join(VERIF, 'harness', 'cfg'), '-I' + REPO, '-I' + os.path.join(REPO, 'stempy'),
            '-I' + os.path.join(REPO, 'python'), '-I' + os.path.join(REPO, 'thirdparty/ThreadPool'),
            '-isystem', os.path.join(REPO, 'thirdparty/least-squares-cpp/include'),
            '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/python3.12']


def tree_hash():
    h = hashlib.sha256()
    for d in ('stempy', 'python', 'thirdparty/ThreadPool', 'thirdparty/least-squares-cpp'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.h', '.hpp')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read() + b'\0')
    for n in ('native.cpp', 'mpi.cpp'):
        with open(os.path.join(VERIF, 'rt', n), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stderr[-3000:])


def comp(src, obj, opt):
    if not os.path.exists(obj):
        sh(BASE + [opt] + incs() + ['-c', src, '-o', obj + '.tmp'])
        os.replace(obj + '.tmp', obj)


def asan_lib():
    return subprocess.run(['clang++-18', '-print-file-name=libclang_rt.asan-x86_64.so'],
                          capture_output=True, text=True).stdout.strip()


def env(libdir):
    stdcxx = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
    e = dict(os.environ)
    e.update(LD_PRELOAD=asan_lib() + ' ' + os.path.realpath(stdcxx),
             ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:handle_segv=1',
             PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=libdir, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def build(native=True):
    """-> (library directory, note)"""
    hsh = tree_hash()
    out = os.path.join(OUT, hsh)
    if os.path.isdir(OUT):
        for old in os.listdir(OUT):
            if old != hsh:
                sh(['rm', '-rf', os.path.join(OUT, old)])
    obj = os.path.join(out, 'obj')
    pkg = os.path.join(out, 'lib', 'stempy')
    os.makedirs(obj, exist_ok=True)
    os.makedirs(pkg, exist_ok=True)
    srcs = sorted(set(STEM + PYM['_io'] + PYM['_image']), key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
    o = {s: os.path.join(obj, s.replace('/', '_') + '.o') for s in srcs}
    note = ''
    with ThreadPoolExecutor(9) as ex:
        futs = [ex.submit(comp, os.path.join(REPO, s), o[s], SLOW.get(s, '-O1')) for s in srcs]
        nat = None
        nobj = os.path.join(obj, 'native.o')
        if native:
            nat = ex.submit(comp, os.path.join(VERIF, 'rt', 'native.cpp'), nobj, '-O0')
        for f in futs:
            f.result()
        if nat is not None:
            try:
                nat.result()
            except BuildError as e:
                note = 'native harness does not compile: ' + str(e)[-400:]
                nat = None
    link = BASE + ['-shared', '-Wl,-rpath,$ORIGIN', '-Wl,-z,now']
    lib = os.path.join(pkg, 'libstem.so')
    if not os.path.exists(lib):
        sh(BASE + ['-shared', '-o', lib] + [o[s] for s in STEM] + ['-pthread'])
    for m in PYM:
        t = os.path.join(pkg, m + SUFFIX)
        if not os.path.exists(t):
            sh(BASE + ['-shared', '-Wl,-rpath,$ORIGIN', '-o', t] + [o[s] for s in PYM[m]] + [lib, '-pthread'])
    if nat is not None:
        t = os.path.join(out, 'lib', '_verif' + SUFFIX)
        if not os.path.exists(t):
            sh(BASE + ['-shared', '-Wl,-rpath,$ORIGIN/stempy', '-o', t, nobj, lib, '-pthread'])
    link_python(pkg)
    return os.path.join(out, 'lib'), note


def link_python(pkg):
    root = os.path.join(REPO, 'python', 'stempy')
    for p in os.listdir(root):
        full = os.path.join(root, p)
        if p == '__pycache__' or not (os.path.isdir(full) or p.endswith('.py')):
            continue
        t = os.path.join(pkg, p)
        if os.path.islink(t):
            os.unlink(t)
        os.symlink(full, t)


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(), time.time() - t)

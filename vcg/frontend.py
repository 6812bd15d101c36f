"""C++ front end: compiles /repo's current sources with clang to LLVM IR, marks the
functions that have contracts so they stay calls, inlines everything else, and
normalises the result with semantics-preserving LLVM passes.

Nothing of the code's meaning is dropped: the text the verifier reads is the
compiler's own translation of the real source file."""
import os, re, subprocess, hashlib

LLVM = "/usr/lib/llvm-18/bin/"
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")

def flags():
    return ["-std=c++14", "-DNDEBUG", "-Wno-everything",
            "-I" + os.path.join(HARNESS, "stubs"), "-I" + HARNESS,
            "-I" + REPO, "-I" + os.path.join(REPO, "stempy"),
            "-I" + os.path.join(REPO, "python"),
            "-isystem", os.path.join(REPO, "thirdparty/least-squares-cpp/include"),
            "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/python3.12",
            "-isystem", "/usr/include/hdf5/serial"]

class FrontendError(Exception):
    pass

def run(cmd, inp=None, timeout=300):
    p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise FrontendError("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout

def demangle(names):
    names = [n.strip('"') for n in names]
    out = run([LLVM + "llvm-cxxfilt"], inp="\n".join(names) + "\n").split("\n")
    return dict(zip(names, out))

DEF_RX = re.compile(r'^define [^@]*@("[^"]+"|[^("]+)\(', re.M)

def compile_unit(source, tag, extra=()):
    """source: path of a TU (a /repo file, or a harness that #includes one)."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, tag + ".raw.ll")
    run(["clang++-18"] + flags() + list(extra) +
        ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-g0",
         "-fno-strict-aliasing", "-S", "-emit-llvm", source, "-o", out])
    return out

def normalise(raw, tag, roots, keep):
    """roots: predicate on demangled names; keep: predicate -> stays a call (contract)."""
    text = open(raw).read()
    # constructors that are aliases of another one
    for n, t in re.findall(r'^@([\w.$]+) = [^\n]*\balias [^\n]*, ptr @([\w.$]+)$', text, re.M):
        text = re.sub(r'@%s(?=\()' % re.escape(n), lambda m: '@' + t, text)
    names = [n.strip('"') for n in DEF_RX.findall(text)]
    dem = demangle(names)
    rootset = [n for n in names if roots(dem[n])]
    if not rootset:
        raise FrontendError("no function under contract matches in " + tag)
    kept = set(n for n in names if n not in rootset and keep(dem[n]))
    lines = text.split("\n")
    out = []
    infn = False
    for l in lines:
        if l.startswith("define "):
            m = DEF_RX.match(l)
            n = m.group(1).strip('"')
            l = re.sub(r"\b(noinline|alwaysinline|optnone)\b ?", "", l)
            attr = "alwaysinline"
            if n in kept or n in rootset:
                attr = "noinline"
            # insert before the attribute group / comdat / personality / {
            d = 0
            i = l.index("@" + m.group(1)) + len(m.group(1)) + 1
            j = i
            while True:
                ch = l[j]
                if ch == "(":
                    d += 1
                elif ch == ")":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            m2 = re.match(r"( (?:local_unnamed_addr|unnamed_addr))?", l[j + 1:])
            k = j + 1 + m2.end()
            l = l[:k] + " " + attr + l[k:]
            if n in rootset:
                l = re.sub(r"^define (linkonce_odr|weak_odr|internal|linkonce|weak) ", "define ", l)
                l = re.sub(r" comdat(\([^)]*\))?", "", l)
        elif l.startswith("attributes #"):
            l = re.sub(r"\b(noinline|alwaysinline|optnone)\b ?", "", l)
        out.append(l)
    pre = os.path.join(BUILD, tag + ".pre.ll")
    open(pre, "w").write("\n".join(out))
    fin = os.path.join(BUILD, tag + ".ll")
    rootarg = ",".join(rootset)
    run([LLVM + "opt", "-S", pre, "-o", fin,
         "-internalize-public-api-list=" + rootarg,
         "-passes=internalize,globaldce,always-inline,"
         "function(sroa<modify-cfg>,early-cse,instsimplify,simplifycfg<no-sink-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>,"
         "loop-simplify,lcssa),globaldce"])
    t = open(fin).read()
    allnames = set(n.strip('"') for n in re.findall(r'@("[^"]+"|[\w.$]+)\(', t))
    dem = demangle(sorted(allnames))
    return t, dem, rootset

"""Support for the contracts in proofs/: sets up the verifier for one function under contract, runs
it, and collects the proof obligations."""
import os, re, sys, time, traceback
import z3
import frontend, irparse, llexec, stdlib, core
from core import *
from llexec import *
from stdlib import vec_of, data_region, dynsize, SCALAR, STRUCTS

REPO = frontend.REPO

class Unit:
    """a translation unit: a source file of /repo, or a harness that includes one"""
    def __init__(self, source, tag, extra=(), keep=None):
        self.source, self.tag, self.extra, self.keep = source, tag, list(extra), keep or (lambda d: False)
        self.raw = None
    def compile(self):
        if self.raw is None:
            src = self.source if os.path.isabs(self.source) else os.path.join(REPO, self.source)
            self.raw = frontend.compile_unit(src, self.tag, self.extra)
        return self.raw
    def module(self, root, tag, keep=None):
        raw = self.compile()
        rx = re.compile(root)
        k = keep or (lambda d: False)
        text, dem, roots = frontend.normalise(raw, tag, lambda d: bool(rx.search(d)), lambda d: stdlib.keep(d) or self.keep(d) or k(d))
        return irparse.Module(text), dem, roots

class Task:
    """one function under contract.  fn(T) sets up the precondition, calls T.run and states the
    postcondition with T.ensure."""
    def __init__(self, name, unit, root, fn, keep=None, handlers=(), limit=300, count=1):
        self.name, self.unit, self.root, self.fn, self.keep, self.handlers, self.limit, self.count = name, unit, root, fn, keep, list(handlers), limit, count

class Run:
    def __init__(self, task, dem, module, fname):
        self.task, self.ctx = task, Ctx()
        self.module, self.fname, self.dem = module, fname, dem
        self.ex = Exec(module, dem, self.ctx, [(re.compile(rx) if isinstance(rx, str) else rx, h) for rx, h in task.handlers] + stdlib.ALL)
        self.ex.deadline = time.time() + task.limit
        self.cands = []
        self.ex.candidates = lambda view: [c for f in self.cands for c in f(view) or []]
        self.st = State({}, [])
        self.assumptions = []
        self.vac = []
    # -- inputs
    def int(self, name, n, lo=0, hi=None):
        p = fresh_int(name)
        hi = (1 << n) - 1 if hi is None else hi
        self.ctx.setrange(p, lo, hi)
        return I(p, n, lo, hi)
    def pair32(self, a, b):
        """a std::pair<uint32_t,uint32_t> passed by value (one i64)"""
        return I(a.p + b.p * (1 << 32), 64, 0, (1 << 64) - 1)
    def record(self, name, cells=None, init=None):
        r = self.ex.region(name)
        c = cells or {}
        r.init = lambda o, ty: c.get(o) if o in c else (init(o, ty) if init else None)
        return r
    def vector(self, name, elem, size, readonly=False):
        """a vector object with `size` elements; -> (pointer to it, data region)"""
        r = self.ex.region(name)
        r.init = lambda o, ty: None
        D = data_region(self.ex, elem, name + '.data', 0)
        r.vec = {0: D}
        D.size0 = I(P(size), 64, 0, 1 << 61)
        D.readonly = readonly
        return ptr(r), D
    def array(self, name, elem, size, readonly=False):
        """storage of `size` elements of a scalar type; -> region"""
        s, ty, sg = SCALAR[elem]
        r = self.ex.region(name, stride=s, size=size)
        r.fields = {0: ty}
        if sg:
            r.sorts[0] = ('int', ty[1], True)
        r.readonly = readonly
        return r
    def assume(self, c, why=None):
        self.st.assume(c)
        if why:
            self.assumptions.append(why)
    def run(self, args):
        f = self.module.fns[self.fname]
        if len(f.params) != len(args):
            raise Unsupported('parameters of %s: %s' % (self.fname, f.params))
        for k, v in self.ex.initial.items():
            self.st.mem.setdefault(k, v)
        rets = self.ex.run(self.fname, args, self.st)
        out = [r for r in rets if not r[0].dead()]
        for i, (s, v) in enumerate(out):
            self.vac.append((s, i))
        return out
    def ensure(self, st, goal, name):
        self.ex.oblige(st, goal, name, 'post')

def run_task(task, quick=True):
    """-> dict(name, obligations, functions, assumptions, trusted, ...)"""
    t0 = time.time()
    core.reset()
    out = dict(name=task.name, obligations=[], functions=[], assumptions=[], trusted=[], loops=[], queries=0, solver=0.0)
    def fail(name, why, status='unknown'):
        out['obligations'].append(dict(name=name, status=status, function=task.name, backend='', seconds=0, detail=why))
    try:
        mod, dem, roots = task.unit.module(task.root, task.unit.tag + '_' + re.sub(r'\W+', '_', task.name), task.keep)
    except (frontend.FrontendError, irparse.Unsupported) as e:
        fail('the function is found and translated', str(e)[-1500:])
        return out
    if task.count is not None and len(roots) != task.count:
        fail('the function under contract is in the source', 'found %d: %s' % (len(roots), [dem[r] for r in roots][:5]))
        return out
    for root in roots:
        R_ = Run(task, dem, mod, root)
        fname = dem[root]
        try:
            task.fn(R_)
        except (Unsupported, irparse.Unsupported) as e:
            fail('translation', 'outside the verifier\'s reach: %s' % e)
            if os.environ.get('VCG_DEBUG'):
                traceback.print_exc()
            continue
        except Exception as e:
            fail('translation', traceback.format_exc()[-2500:])
            continue
        ctx = R_.ctx
        n0 = len(out['obligations'])
        discharge(R_, out, task, quick)
        out['functions'].append(fname[:300])
        out['assumptions'] += R_.assumptions
        out['trusted'] += sorted(R_.ex.trusted)
        out['loops'] += [list(map(str, l[1:])) for l in R_.ex.loopstats]
        out['queries'] += ctx.queries
        out['solver'] += ctx.solver_time
        out['lines'] = mod.nlines if hasattr(mod, 'nlines') else None
    out['seconds'] = time.time() - t0
    return out

def discharge(R_, out, task, quick):
    ctx = R_.ctx
    timeout = 20000 if quick else 60000
    nfail = 0
    groups = {}
    for o in R_.ex.obls:
        t = time.time()
        if o.hyps is None:
            status = 'discharged'
            backend = 'simplifier' if o.kind != 'invariant' else 'z3 (inductive)'
        else:
            key = (tuple(ids(o.hyps)), o.goal.get_id())
            if key in groups:
                status, backend = groups[key], 'z3'
            else:
                r = ctx.check(o.hyps, o.goal, timeout if nfail < 4 else 3000)
                backend = 'z3'
                if r == 'unknown':
                    r2 = cvc5_check(ctx, o.hyps, o.goal, timeout * ctx.scale)
                    if r2 == 'proved':
                        r, backend = r2, 'cvc5'
                status = {'proved': 'discharged', 'refuted': 'failed', 'unknown': 'unknown'}[r]
                groups[key] = status
        d = dict(name=o.name, kind=o.kind, status=status, function=task.name, backend=backend, seconds=round(time.time() - t, 3))
        if status != 'discharged':
            nfail += 1
            if status == 'failed' and hasattr(ctx, 'model'):
                d['detail'] = model_text(ctx.model)
        out['obligations'].append(d)
    # vacuity: every exit the contract speaks about can be reached under the assumptions
    for s, i in R_.vac:
        r = ctx.check(list(R_.ex.active) + list(s.pc), FALSE, 5000)
        if r == 'proved':
            out.setdefault('vacuous', []).append(i)
    if R_.vac and len(out.get('vacuous', [])) == len(R_.vac):
        out['obligations'].append(dict(name='the contract is not vacuous', status='failed', function=task.name, backend='z3', seconds=0,
                                       detail='no exit of the function is consistent with the assumptions'))
    if not R_.vac and not R_.ex.throws:
        out['obligations'].append(dict(name='the function has an exit', status='failed', function=task.name, backend='z3', seconds=0, detail='no exit'))

def model_text(m):
    try:
        l = []
        for d in m.decls():
            if d.arity() == 0:
                l.append('%s = %s' % (d.name(), m[d]))
        return '; '.join(sorted(l))[:1500]
    except Exception:
        return ''

def cvc5_check(ctx, hyps, goal, timeout):
    s = z3.Solver()
    fs = list(hyps) + [Not(goal)]
    sel = ctx.relevant(fs)
    for f in fs + sel + (fp_lemmas(fs + sel) if ctx.fp_monotone else []) + list(ctx.lemmas_used):
        s.add(f)
    text = s.to_smt2()
    import subprocess
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % int(timeout), '-q'], input='(set-logic ALL)\n' + text, capture_output=True, text=True, timeout=timeout / 1000 + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        ctx.solver_time += time.time() - t
    l = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
    return 'proved' if l == 'unsat' else 'unknown'

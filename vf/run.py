"""Unit runner: build, symbolically execute, discharge, replay, report."""
import os, sys, json, time, math, random, ctypes, struct, signal, traceback, hashlib, shutil, re
from fractions import Fraction
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from . import terms as T
from . import ir, symex, smt, build
from .symex import Extraction, Exec, State, Ptr, Outcome

ROOT = build.HERE
EVID = os.environ.get('VF_EVID') or os.path.join(ROOT, 'evidence')


def mangled(name):
    try:
        import subprocess
        return subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip()
    except Exception:
        return name


# ------------------------------------------------------------------ numeric satisfaction with slack
class Holds:
    """polarity-aware numeric evaluation: a goal counts as violated only beyond the numeric tolerance"""

    def __init__(self, env, tol=1e-7, atol=1e-9):
        self.ev = Ev(env, tol, atol)
        self.tol, self.atol = tol, atol

    def slack(self, x, y):
        return self.atol + self.tol * max(abs(x), abs(y), 0)

    def may(self, t):   # could be true, allowing rounding
        op, a = t.op, t.args
        if op == 'not': return not self.must(a[0])
        if op == 'and': return all(self.may(x) for x in a)
        if op == 'or': return any(self.may(x) for x in a)
        if op == 'ite': return self.may(a[1]) if self.ev(a[0]) else self.may(a[2])
        if op == '<':
            x, y = self.ev(a[0]), self.ev(a[1])
            if math.isnan(x) or math.isnan(y): return False
            return x < y or (not math.isinf(x) and not math.isinf(y) and x - y <= self.slack(x, y) + (32 * (self.ev.err(a[0]) + self.ev.err(a[1])) if self.atol else 0))
        return self.ev(t)

    def must(self, t):  # true even allowing rounding
        op, a = t.op, t.args
        if op == 'not': return not self.may(a[0])
        if op == 'and': return all(self.must(x) for x in a)
        if op == 'or': return any(self.must(x) for x in a)
        if op == 'ite': return self.must(a[1]) if self.ev(a[0]) else self.must(a[2])
        if op == '<':
            x, y = self.ev(a[0]), self.ev(a[1])
            if math.isnan(x) or math.isnan(y): return True  # NaN: the comparison cannot be relied on
            return x < y - self.slack(x, y) - (32 * (self.ev.err(a[0]) + self.ev.err(a[1])) if self.atol else 0)
        if op == '=' and a[0].sort == 'R':
            return self.ev(a[0]) == self.ev(a[1])
        return self.ev(t)


# ------------------------------------------------------------------ native execution (in a forked child)
def native_batch(so, fn, pts, nout, timeout=60):
    """run fn on each point; returns list of outputs or None (crash/hang on that point)"""
    res = []
    i = 0
    while i < len(pts):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1); os.dup2(dn, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.alarm(timeout)
                lib = ctypes.CDLL(so)
                f = getattr(lib, fn)
                f.restype = None
                out = (ctypes.c_double * (nout + 1))()
                with os.fdopen(w, 'wb') as h:
                    for p in pts[i:]:
                        a = (ctypes.c_double * max(1, len(p)))(*p)
                        for k in range(nout): out[k] = -7.77e77
                        f(a, out)
                        h.write(struct.pack('%dd' % nout, *out[:nout]))
                        h.flush()
            except BaseException:
                pass
            os._exit(0)
        os.close(w)
        data = b''
        with os.fdopen(r, 'rb') as h:
            while True:
                b = h.read(65536)
                if not b: break
                data += b
        os.waitpid(pid, 0)
        n = len(data) // (8 * nout)
        for k in range(n): res.append(list(struct.unpack_from('%dd' % nout, data, 8 * nout * k)))
        i += n
        if i < len(pts):
            res.append(None)
            i += 1
            if len([x for x in res if x is None]) > 5: break
    while len(res) < len(pts): res.append(None)
    return res


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1e-3, -1e-3, 10.0, -10.0, 100.0, 1e-8, 0.25, 1e4]


def default_sampler(n):
    def f(rng):
        mode = rng.random()
        p = []
        for k in range(n):
            u = rng.random()
            if u < 0.35: p.append(rng.choice(SPECIAL))
            elif u < 0.8: p.append(rng.uniform(-3, 3))
            elif u < 0.9: p.append(math.exp(rng.uniform(-8, 8)) * rng.choice((1, -1)))
            elif p: p.append(rng.choice(p))
            else: p.append(rng.gauss(0, 1))
        return p
    return f


class Ob:
    """one discharged / failed obligation (picklable)"""

    def __init__(self, name, status, backend='', t=0.0, detail='', model=None):
        self.name, self.status, self.backend, self.t, self.detail, self.model = name, status, backend, t, detail, model


class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.obs = []
        self.errors = []
        self.violations = []   # (obligation, replay dict or None)
        self.funcs, self.externs, self.steps = [], {}, 0
        self.samples = 0
        self.known = []
        self.fidelity = None
        self.wall = 0


class FnUnit:
    """contract of one wrapper  void fn(const double* in, double* out)  over real arithmetic (or fp)"""

    def __init__(self, harness, fn, nin, nout, pre, goals, sampler=None, defs=(), keep=(), externs=None, mode='real',
                 tol=1e-6, atol=1e-8, timeout=12, name=None, nsamples=4000, axioms=None, allow=(), bounded=None, merge=True,
                 about='', ints=(), extra=(), rnd=False):
        self.harness, self.fn, self.nin, self.nout = harness, fn, nin, nout
        self.pre, self.goals, self.sampler = pre, goals, sampler or default_sampler(nin)
        self.defs, self.keep, self.externs, self.mode = tuple(defs), tuple(keep), externs or {}, mode
        self.tol, self.atol, self.timeout = tol, atol, timeout
        self.name = name or fn
        self.nsamples, self.axioms, self.allow = nsamples, axioms, allow
        self.bounded, self.merge, self.about = bounded, merge, about
        self.ints, self.rnd = set(ints), rnd
        self.proof_only = set()
        self.extra = tuple(extra)

    def key(self): return (self.harness, self.defs, self.keep, self.extra)

    def sorts(self):
        return ['R'] * self.nin if self.mode == 'real' else [('F', 64)] * self.nin

    def spec(self):
        ins = [var('in%d' % i, s) for i, s in enumerate(self.sorts())]
        outs = [var('out%d' % i, 'R' if self.mode == 'real' else ('F', 64)) for i in range(self.nout)]
        pre = list(self.pre(ins)) if self.pre else []
        goals = []
        for g in self.goals(ins, outs):
            if len(g) == 2: goals.append((g[0], TRUE, lift(g[1])))
            else: goals.append((g[0], lift(g[1]), lift(g[2])))
            if len(g) == 4: self.proof_only.add(g[0])     # no native check: the guard is not decidable in floating point
        return ins, outs, pre, goals

    def points(self, seed, n, pre):
        rng = random.Random(seed)
        pts = []
        tries = 0
        while len(pts) < n and tries < 30 * n:
            tries += 1
            p = self.sampler(rng)
            env = {'in%d' % i: v for i, v in enumerate(p)}
            try:
                if all(Holds(env, 0, 0).ev(c) for c in pre): pts.append(p)
            except T.EvalError:
                return None
        return pts

    def run(self, ctx):
        t0 = time.time()
        res = UnitResult(self.name)
        ins, outs, pre, goals = self.spec()
        # --- non-vacuity: the precondition (and each guard) is met by concrete inputs
        pts = self.points(ctx.seed, 300 if ctx.tier == 'quick' else 2000, pre)
        if pts is not None and not pts:
            res.errors.append('vacuous: no sample satisfies the precondition of ' + self.name); return res
        if pts:
            for nm, g, _ in goals:
                if g is TRUE or any(t.op == 'var' and t.val.startswith('out') for t in subterms([g])): continue
                ok = False
                for p in pts:
                    env = {'in%d' % i: v for i, v in enumerate(p)}
                    for i in range(self.nout): env['out%d' % i] = 0.0
                    if Ev(env)(g): ok = True; break
                if not ok:
                    rng = random.Random(7)
                    more = self.points(99, 3000, pre)
                    if not any(Ev({**{'in%d' % i: v for i, v in enumerate(p)}, **{'out%d' % i: 0.0 for i in range(self.nout)}})(g) for p in more):
                        res.errors.append('vacuous guard of %s/%s' % (self.name, nm)); return res
        res.samples = len(pts or [])
        # a concrete failing input of the compiled code decides at once; the solvers then only name the obligations
        early = self.search(ctx, res, pre, goals, 'native falsification', n=1500)
        tmo = 3 if early else self.timeout * ctx.scale
        try:
            outcomes, ex, octx = self.execute(ctx)
        except (Extraction, build.BuildError, ir.IRError) as e:
            res.errors.append('%s: %s: %s' % (self.name, type(e).__name__, str(e)[:600]))
            if not early: self.search(ctx, res, pre, goals, 'extraction failed')
            res.wall = time.time() - t0
            return res
        res.funcs, res.externs, res.steps = sorted(ex.funcs_seen), dict(ex.extern_used), ex.steps
        unknown, refuted = [], []
        jobs = []
        if self.ints: ex.axioms += self.int_axioms(outcomes, octx)
        if len(outcomes) > 6 and self.mode == 'real':
            # paths whose condition is contradictory need no further obligation
            live = []
            ax0 = (list(self.axioms(ins)) if self.axioms else []) + ex.axioms

            def feas(o): return smt.smt_prove(pre + list(o.st.pc) + ax0, FALSE, solvers=[('z3', 1)])
            with ThreadPoolExecutor(max(1, ctx.threads)) as tp:
                for o, r in zip(outcomes, tp.map(feas, outcomes)):
                    if r.status == 'proved': res.obs.append(Ob(self.name + '/impossible path', 'proved', 'z3', r.time))
                    else: live.append(o)
            outcomes = live
        for oi, o in enumerate(outcomes):
            tag = '' if len(outcomes) == 1 else '[path %d]' % oi
            ax = list(self.axioms(ins)) if self.axioms else []
            assm = pre + list(o.st.pc) + ax + ex.axioms
            if o.kind != 'ret':
                if o.kind == 'unreachable': continue
                if o.kind in self.allow: continue
                jobs.append(('no %s (%s)%s' % (o.kind, o.val if isinstance(o.val, str) else (o.val or ('',))[0], tag), assm, FALSE))
                continue
            sub = {}
            for i, v in enumerate(outs):
                c = octx['read'](o.st, i)
                sub[v.id] = c
            memo = {}
            for nm, g, c in goals:
                jobs.append((nm + tag, assm + [subst(g, sub, memo)], subst(c, sub, memo)))
        for nm, pc, g in ex.obligs: jobs.append((nm, pre + list(pc), g))
        get = ins
        nthreads = max(1, ctx.threads)
        gaps = self.int_gaps()
        def disc(j):
            nm, assm, goal = j
            if early and time.time() - t0 > 40: return nm, smt.Result('unknown', out='not attempted: a failing input is known')
            r = smt.prove(assm, goal, get=get, timeout=tmo, quick=min(2, tmo), real=self.mode == 'real')
            if r.status != 'proved' and gaps and not early:
                r2 = smt.prove(assm + gaps, goal, get=get, timeout=tmo, quick=min(2, tmo), real=self.mode == 'real')
                if r2.status == 'proved': return nm, r2
            return nm, r
        with ThreadPoolExecutor(nthreads) as tp:
            for nm, r in tp.map(disc, jobs):
                res.obs.append(Ob(self.name + '/' + nm, r.status, r.backend, r.time, r.out[:1500] if r.status != 'proved' else '', r.model))
                if r.status == 'refuted': refuted.append((nm, r))
                elif r.status == 'unknown': unknown.append((nm, r))
        if early: pass
        elif refuted or unknown:
            hints = [[(r.model or {}).get('in%d' % i, 0.0) for i in range(self.nin)] for _, r in refuted if r.model]
            found = self.search(ctx, res, pre, goals, '; '.join(n for n, _ in refuted + unknown), hints)
            if not found:
                if refuted and not self.incomplete(jobs, refuted):
                    for nm, r in refuted:
                        res.violations.append((self.name + '/' + nm, None, (r.out or '')[:3000]))
                else:
                    res.errors.append('undecided: ' + ', '.join(self.name + '/' + n for n, _ in refuted + unknown))
        elif ctx.fidelity and self.mode == 'real' and pts:
            self.fid(ctx, res, outcomes, octx, pts)
        res.wall = time.time() - t0
        return res

    def int_gaps(self):
        """different integers are at least one apart"""
        import itertools
        iv = [var('in%d' % i, 'R') for i in sorted(self.ints)]
        return [Or(rle(a, b), rle(b + 1, a)) for k in (1, 2, 3) for a, b in itertools.permutations([sum(c[1:], c[0]) for c in itertools.combinations(iv, k)], 2)]

    def int_axioms(self, outcomes, octx):
        """rounding functions at (sums of) the integer inputs"""
        import itertools
        iv = [var('in%d' % i, 'R') for i in sorted(self.ints)]
        cands = [R(0)] + [sum(c[1:], c[0]) for k in (1, 2, 3) for c in itertools.combinations(iv, k)]
        ts = [c for o in outcomes for c in o.st.pc] + [octx['read'](o.st, i) for o in outcomes if o.kind == 'ret' for i in range(self.nout)]
        ax = []
        for t in subterms(ts):
            if t.op != 'app' or t.val not in ('round', 'trunc', 'floor', 'ceil'): continue
            x = t.args[0]
            for v in cands:
                d = rsub(x, v)
                ax.append({'round': Implies(rlt(rabs(d), R(Fraction(1, 2))), req(t, v)),
                           'floor': Eq(And(rle(v, x), rlt(x, v + 1)), req(t, v)),
                           'trunc': Implies(rge(x, 0), Eq(And(rle(v, x), rlt(x, v + 1)), req(t, v))),
                           'ceil': Eq(And(rlt(v - 1, x), rle(x, v)), req(t, v))}[t.val])
        return ax

    def incomplete(self, jobs, refuted):
        """was a refuted goal using functions the solvers only know axioms of?"""
        names = {n for n, _ in refuted}
        for nm, assm, goal in jobs:
            if nm in names:
                for t in subterms(list(assm) + [goal]):
                    if t.op == 'app' and t.val not in ('sqrt',): return True
        return False

    def execute(self, ctx):
        m = ctx.module(self)
        ex = Exec(m, mode=self.mode, externs=dict(self.externs), merge=self.merge)
        ex.ints, ex.rnd = {'in%d' % i for i in self.ints}, self.rnd
        ex.pre = self.spec()[2]
        st = State()
        a = ex.new_obj(st, 'in', 8 * max(1, self.nin))
        o = ex.new_obj(st, 'out', 8 * max(1, self.nout))
        for i, s in enumerate(self.sorts()): st.mem[a.obj].cells[8 * i] = (8, var('in%d' % i, s))
        outs = ex.call_function(st, '@' + self.fn, [a, o])
        outs = [z for z in outs if z.kind != 'unreachable']

        def read(s, i):
            if not ex.overlap(s.mem[o.obj], 8 * i, 8): return var('unset_out%d' % i, 'R' if self.mode == 'real' else ('F', 64))
            return ex.load(s, Ptr(o.obj, 8 * i), ('f', 64))
        return outs, ex, {'read': read}

    def check_point(self, pre, goals, p, o):
        env = {'in%d' % i: v for i, v in enumerate(p)}
        for i, v in enumerate(o): env['out%d' % i] = v
        h = Holds(env, self.tol, self.atol)
        for nm, g, c in goals:
            if nm in self.proof_only: continue
            try:
                if h.must(g) and not h.may(c): return nm
            except (T.EvalError, OverflowError, ValueError):
                return None
        return None

    def search(self, ctx, res, pre, goals, why, hints=(), n=None):
        """look for a concrete failing input of the real (native) code"""
        try:
            so = ctx.native(self)
        except build.BuildError as e:
            if not any('build' in x for x in res.errors): res.errors.append('native build failed: ' + str(e)[:400])
            return False
        pts = []
        for h in hints:
            h = [float(round(x)) if i in self.ints else x for i, x in enumerate(h)]
            pts.append(h)
            for k in range(20):
                r = random.Random(k)
                pts.append([x + (r.choice((0, 0, r.uniform(-1, 1))) if i not in self.ints else r.choice((0, 0, 1, -1))) for i, x in enumerate(h)])
        p2 = self.points(ctx.seed + 17, n or self.nsamples, pre)
        ok = []
        for p in pts:
            try:
                if all(Holds({'in%d' % i: v for i, v in enumerate(p)}, 0, 0).ev(c) for c in pre): ok.append(p)
            except Exception: pass
        pts = ok + (p2 or [])
        outs = native_batch(so, self.fn, pts, self.nout)
        for p, o in zip(pts, outs):
            if o is None:
                if 'abort' in self.allow or 'throw' in self.allow: continue
                res.violations.append((self.name + '/terminates normally', {'harness': self.harness, 'fn': self.fn, 'input': p,
                                       'output': 'crash, abort or hang', 'why': why}, ''))
                return True
            b = self.check_point(pre, goals, p, o)
            if b:
                res.violations.append((self.name + '/' + b, {'harness': self.harness, 'defs': self.defs, 'fn': self.fn,
                                       'input': p, 'output': o, 'failed_obligation': b, 'why': why}, ''))
                return True
        return False

    def fid(self, ctx, res, outcomes, octx, pts):
        """extraction fidelity: the extracted terms evaluated on samples agree with the compiled code"""
        try:
            so = ctx.native(self)
        except build.BuildError: return
        pts = pts[:200]
        outs = native_batch(so, self.fn, pts, self.nout)
        good = tot = 0
        for p, o in zip(pts, outs):
            if o is None: continue
            env = {'in%d' % i: v for i, v in enumerate(p)}
            ev = Ev(env, 1e-6, 1e-8)
            for oc in outcomes:
                if oc.kind != 'ret': continue
                try:
                    if not all(ev(c) for c in oc.st.pc): continue
                    for i in range(self.nout):
                        v = ev(octx['read'](oc.st, i))
                        tot += 1
                        if ev.close(v, o[i]) or (math.isnan(v) and not math.isfinite(o[i])): good += 1
                except Exception: pass
                break
        res.fidelity = (good, tot)

    def replay(self, ctx, rp):
        ins, outs, pre, goals = self.spec()
        so = ctx.native(self)
        o = native_batch(so, self.fn, [rp['input']], self.nout)[0]
        print('input :', rp['input']); print('output:', o)
        if o is None: return 'terminates normally'
        return self.check_point(pre, goals, rp['input'], o)


class LemmaUnit:
    """obligations about the specification itself (no code): list of (name, assumptions, goal)"""
    mode, harness, bounded, want_native, about = 'real', None, None, False, 'specification lemmas'

    def __init__(self, name, lemmas, timeout=20): self.name, self.lemmas, self.timeout = name, lemmas, timeout
    def key(self): return None

    def run(self, ctx):
        t0 = time.time()
        res = UnitResult(self.name)
        for nm, a, g in self.lemmas():
            r = smt.prove(list(a), g, timeout=self.timeout * ctx.scale)
            res.obs.append(Ob(self.name + '/' + nm, r.status, r.backend, r.time))
            if r.status != 'proved': res.errors.append('specification lemma not proved: ' + nm)
        res.wall = time.time() - t0
        return res


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scale = 1 if tier == 'quick' else 4
        self.threads = 1
        self.fidelity = True
        self.wd = build.workdir()
        self.mods = {}
        self.sos = {}

    def src(self, u): return os.path.join(build.HARN, u.harness)

    def prebuild(self, units):
        keys = {}
        for u in units:
            if u.key() is not None: keys.setdefault(u.key(), u)
        with ThreadPoolExecutor(8) as tp:
            futs = {}
            for k, u in keys.items():
                futs[k] = tp.submit(build.build_ir, self.src(u), self.wd, u.defs, u.keep, getattr(u, 'pipe', None), None, u.extra)
            nf = {}
            for k, u in keys.items():
                kk = (u.harness, u.defs, u.extra)
                if kk not in nf and getattr(u, 'want_native', True):
                    nf[kk] = tp.submit(build.build_native, self.src(u), self.wd, u.defs, '-O1', u.extra)
            for k, f in futs.items():
                try: self.mods[k] = f.result()[0]
                except Exception as e: self.mods[k] = build.BuildError(str(e))
            for k, f in nf.items():
                try: self.sos[k] = f.result()
                except Exception as e: self.sos[k] = build.BuildError(str(e))

    def module(self, u):
        m = self.mods[u.key()]
        if isinstance(m, Exception): raise m
        return m

    def native(self, u):
        k = (u.harness, u.defs, u.extra)
        if k not in self.sos:
            self.sos[k] = build.build_native(self.src(u), self.wd, u.defs, '-O1', u.extra)
        if isinstance(self.sos[k], Exception): raise self.sos[k]
        return self.sos[k]

    def close(self):
        if not os.environ.get('VF_TMP'): shutil.rmtree(self.wd, ignore_errors=True)


_G = {}


def _work(i):
    u = _G['units'][i]
    try:
        r = u.run(_G['ctx'])
    except Exception as e:
        r = UnitResult(u.name)
        r.errors.append('%s: internal error %s' % (u.name, traceback.format_exc()[-600:]))
    r.stime = dict(smt.solver_time); r.scalls = dict(smt.solver_calls)
    smt.solver_time.clear(); smt.solver_calls.clear()
    return i, r


def run_property(pid, spec, tier, seed, only=None, verbose=False):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    units = spec.units(tier)
    if only: units = [u for u in units if re.search(only, u.name)]
    ctx.threads = 1 if len(units) >= 8 else max(1, 8 // max(1, len(units)))
    try:
        ctx.prebuild(units)
        _G['units'], _G['ctx'] = units, ctx
        results = [None] * len(units)
        mpc = mp.get_context('fork')
        with mpc.Pool(min(8, max(1, len(units))), maxtasksperchild=8) as pool:
            order = sorted(range(len(units)), key=lambda i: -getattr(units[i], 'weight', 1))
            for i, r in pool.imap_unordered(_work, order):
                results[i] = r
                if verbose:
                    bad = [o for o in r.obs if o.status != 'proved']
                    print('%-40s obs %4d bad %d err %d viol %d  %.1fs %s' % (r.unit, len(r.obs), len(bad), len(r.errors), len(r.violations), r.wall, r.fidelity or ''))
                    for o in bad[:12]: print('    ', o.status, o.name, o.model)
                    for e in r.errors: print('     ERR', e[:400])
                    for v in r.violations[:3]: print('     VIOL', v[0], v[1])
    finally:
        ctx.close()
    return finish(pid, spec, tier, seed, units, results, time.time() - t0, verbose)


BASE_ASSUMPTIONS = [
    'the LLVM 18 front end and the listed opt passes preserve the semantics of the headers (trusted extraction)',
    'the VC generator /verif/vf, and the back ends z3, cvc5 and the built-in ring normaliser, are correct',
    'header templates are verified for the listed instantiations; Eigen is executed symbolically as compiled, without explicit vectorisation',
]


def known_findings(pid):
    p = os.path.join(ROOT, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            d = json.loads(l)
            if d.get('status') == 'known' and d['property'] == pid: out.append(d)
    return out


def finish(pid, spec, tier, seed, units, results, wall, verbose):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    rpd = os.path.join(EVID, 'replay')
    for f in os.listdir(rpd):
        if f.startswith(pid + '-'): os.remove(os.path.join(rpd, f))
    obs = [o for r in results for o in r.obs]
    errors = [e for r in results for e in r.errors]
    viol = [(r, v) for r in results for v in r.violations]
    back, stime, scalls = {}, {}, {}
    for o in obs:
        if o.status == 'proved': back[o.backend] = back.get(o.backend, 0) + 1
    for r in results:
        for k, v in getattr(r, 'stime', {}).items(): stime[k] = round(stime.get(k, 0) + v, 2)
        for k, v in getattr(r, 'scalls', {}).items(): scalls[k] = scalls.get(k, 0) + v
    bounded = [u.name + ': ' + u.bounded for u in units if getattr(u, 'bounded', None)]
    bnames = {u.name for u in units if getattr(u, 'bounded', None)}
    externs = sorted({k for r in results for k in r.externs})
    real = any(getattr(u, 'mode', '') == 'real' for u in units)
    assumptions = list(BASE_ASSUMPTIONS)
    if real: assumptions.append('machine floating-point arithmetic is treated as exact real arithmetic in the units marked mode=real (rounding, overflow and underflow not modelled)')
    for x in externs: assumptions.append('assumed contract for external function ' + mangled(x.lstrip('@').strip('"')))
    assumptions += list(getattr(spec, 'ASSUMPTIONS', []))
    nob = sum(1 for r in results for o in r.obs if r.unit not in bnames)
    ndis = sum(1 for r in results for o in r.obs if r.unit not in bnames and o.status == 'proved')
    fid = [r.fidelity for r in results if r.fidelity]
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3 /verif/check.py %s' % pid,
        'trusted_base': ['clang++-18/opt front end', '/verif/vf VC generator', 'z3 5.x (z3-new)', 'z3 4.8', 'cvc5 1.1', '/verif/vf/ratfun.py ring normaliser'],
        'units': [{'unit': r.unit, 'about': getattr(u, 'about', ''), 'mode': getattr(u, 'mode', ''), 'obligations': len(r.obs),
                   'discharged': sum(1 for o in r.obs if o.status == 'proved'), 'ir_steps': r.steps, 'wall_s': round(r.wall, 2),
                   'non_vacuity_samples': r.samples} for u, r in zip(units, results)],
        'functions_under_contract': sorted({mangled(f.lstrip('@').strip('"')) for r in results for f in r.funcs}),
        'library_functions': list(getattr(spec, 'FUNCTIONS', [])),
        'by_backend': back, 'solver_time_s': stime, 'solver_calls': scalls,
        'slowest': [[o.name, round(o.t, 2)] for o in sorted(obs, key=lambda o: -o.t)[:5]],
        'bounded_stand_ins': bounded,
        'bounded_obligations': sum(len(r.obs) for r in results if r.unit in bnames),
        'extraction_fidelity_samples': [sum(a for a, _ in fid), sum(b for _, b in fid)],
        'errors': errors,
    }
    if nob == 0 and not bounded: errors.append('no obligations generated')
    kf = known_findings(pid)
    nv = []
    lines = []
    for n, (r, (ob, rp, out)) in enumerate(viol):
        k = next((k for k in kf if k['obligation'] == ob and k.get('unit') == r.unit), None)
        if k is not None: continue
        path = os.path.join(rpd, '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'unit': r.unit, 'failed_obligation': ob, 'replay': rp, 'verifier_output': out,
                       'command': 'python3 /verif/check.py %s --replay %s' % (pid, path)}, f, indent=1, default=str)
        nv.append(ob)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if rp else ' no-failing-input-found'))
    if errors and not nv:
        # an obligation that could not be generated or decided is a failed obligation
        for n, e in enumerate(errors[:5]):
            path = os.path.join(rpd, '%s-e%d.json' % (pid, n))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'unit': e.split(':')[0], 'failed_obligation': e[:300], 'replay': None, 'verifier_output': e,
                           'command': 'python3 /verif/check.py %s' % pid}, f, indent=1)
            nv.append(e[:200])
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    for k in getattr(spec, 'KNOWN', lambda c: [])(None): lines.append(k)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(spec, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': nv}
    ev['violations'] = len(nv)
    ev['coverage']['violated_obligations'] = nv
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%s) in %.1fs; %d violation(s), %d error(s)' % (
        pid, len(obs), sum(1 for o in obs if o.status == 'proved'), ', '.join('%s %d' % kv for kv in sorted(back.items())), wall, len(nv), len(errors)))
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # concrete failures first
    for l in sorted(lines, key=lambda l: l.endswith('found'))[:20]: print(l)
    for e in errors[:4]: print('ERROR', e[:300])
    if nv: return 1
    if errors: return 2
    return 0

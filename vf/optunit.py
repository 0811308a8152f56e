"""The optimizer loop as a verification unit: scripted native runs judged against the ghost specification, then the proof."""
import os, re, json, time, math, random, ctypes, struct, signal
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from . import smt, symex, build, ir, opt
from .symex import Exec, State, Extraction
from .run import UnitResult, Ob

MAX = 1.7976931348623157e308
NAN, INF = float('nan'), float('inf')
STREAMS = 12
HINTS = os.path.join(build.ROOT if hasattr(build, 'ROOT') else build.HERE, 'vf', 'opt_hints.json')   # candidate names tried first (any result is re-proved)
CAP = 40000
O = dict(cfc=0, qual=1, max_iters=2, min_error=3, min_rerr=4, min_step=5, min_grad=6, max_total=7, max_consec=8, max_dur=9, cb=10, cb2=11, arg=12,
         log=13, maxbuild=14, two=15)
F32 = lambda v: struct.unpack('f', struct.pack('f', v))[0] if abs(v) < 3.4e38 or v != v else math.copysign(math.inf, v)
LEN = {1: 7, 2: 3, 3: 3, 4: 5, 5: 4, 6: 2, 7: 2, 8: 2, 9: 2, 10: 1, 11: 1, 12: 2}


def fin(v): return math.isfinite(v)


def judge(o, tr, f):
    """violated specification clauses of one scripted run (names as in the proof obligations)"""
    bad = []

    def need(c, nm):
        if not c and nm not in bad: bad.append(nm)
    st = int(f[0])
    n = int(f[1])
    full = n < CAP - 100
    arg = int(o[O['arg']])
    lim = (int(o[O['max_iters']]) if arg < 0 else arg) + 1 + (1 if o[O['cfc']] else 0)
    mc, mt = int(o[O['max_consec']]), int(o[O['max_total']])
    mdur = o[O['max_dur']]
    me, mr, ms, mg = (F32(o[O[k]]) for k in ('min_error', 'min_rerr', 'min_step', 'min_grad'))
    if st == 2 or st == 3: need(False, 'no throw')
    if st == 1: need(257 * lim >= o[O['maxbuild']], 'C04:bounded loop')
    if not full: return bad            # the trace was cut
    x0 = 0.0
    g = dict(any=False, nh=0, nfail=0, ncons=0, bc=MAX, bp=x0, bn=0, pbc=MAX, lc=NAN, lx=x0, ld=0.0, ls=None, lg2=0.0, ln=0, lok=False, lsolved=False, comp=False, imp=False,
             oom=False, inval=False, baddim=False, cbstop=False, mode=False, fb=0, el=0.0)
    H = []
    nb = 0

    def met():
        return (me > 0 and g['lc'] < me) or (ms > 0 and g['ld'] * g['ld'] < ms) or (mg > 0 and g['lg2'] < mg)
    late = lambda s: mdur > 0 and g['el'] > mdur * s
    i = 0
    while i < n:
        e = int(tr[i])
        a = tr[i + 1:i + LEN.get(e, 1)]
        i += LEN.get(e, 1)
        if e == 1:
            x, ok, c, nr, g2, el = a
            ok = ok != 0
            nb += 1
            need(g['any'] or (g['mode'] and x == x0), 'C07:the first evaluation builds the system at the starting point')
            need(not g['cbstop'], 'C26:no evaluation after a stop request')
            need(not (g['lok'] and g['lsolved']) or not late(1.001), 'C26:no evaluation after the time limit')   # a failed attempt may be retried
            need(not (g['oom'] or g['inval'] or g['baddim']), 'C05:no evaluation after a failed resize')
            need(x == g['bp'] or (g['nh'] and g['ls'] is not None and x == g['bp'] + g['ls']), 'C02:evaluations are at the best point or one step from it')
            need(not g['any'] or fin(g['lc']), 'C03:no evaluation after a non-finite cost')
            need(not (g['lok'] and g['lsolved']) or fin(g['ld'] * g['ld']), 'C03:no evaluation after a non-finite step')
            need(not g['comp'] or not met(), 'C05:no evaluation once a convergence criterion is met')
            need(not g['any'] or g['lok'] or g['ln'] != 0, 'C04:no evaluation without residuals')
            g.update(any=True, lc=c, lx=x, ln=int(nr), lok=ok, lsolved=False, comp=False, lg2=g2, el=el)
            if not ok:
                g['nfail'] += 1; g['ncons'] += 1; g['fb'] += 1
        elif e == 2:
            r, d = a[0] != 0, a[1]
            need(g['lok'], 'C08:a step is only requested from a system that was built')
            g['ld'], g['lsolved'] = d, r
            comp = r and fin(g['lc']) and fin(d * d)
            imp = comp and (g['nh'] == 0 or g['lc'] < g['bc'])
            if comp:
                g['pbc'] = g['bc']
                H.append((g['lc'], d * d, imp))
                g['nh'] += 1
            if imp: g.update(bc=g['lc'], bp=g['lx'], bn=g['ln'], ncons=0)
            elif comp or not r:
                g['nfail'] += 1; g['ncons'] += 1
            g['fb'] = 0 if r else g['fb'] + 1
            g.update(comp=comp, imp=imp)
        elif e == 3:
            need(fin(a[1]), 'C03:parameters only move by finite steps')
            g['ls'] = a[1]
        elif e == 4:
            need(g['comp'] and a[0] == g['lc'] and a[1] == g['ld'] * g['ld'] and (a[2] == g['lg2'] or (a[2] != a[2] and g['lg2'] != g['lg2'])),
                 'C26:stop callback receives the cost, step and gradient norms of this iteration')
            if a[3]: g['cbstop'] = True
        elif e == 5:
            need(g['comp'] and a[0] == F32(g['lc']), 'C26:stop callback receives the cost of this iteration')
            need(a[1] == F32(g['ld']), 'C26:stop callback receives the step of this iteration')
            if a[2]: g['cbstop'] = True
        elif e == 6: g['mode'] = a[0] != 0
        elif e == 7:
            if a[0] == 1: g['oom'] = True
            if a[0] == 2: g['inval'] = True
        elif e == 12:
            if a[0] < 0: g['baddim'] = True
    need(nb <= 257 * lim, 'C04:bounded loop')
    if st: return bad
    x, cost, nres, stop, it, nf, nc, dur, suc, con, ne, nd, ns, rerr, nr2, ndiff = f[2:18]
    stop, it = int(stop), int(it)
    first = g['nh'] == 0
    fail = stop < 0
    same = lambda p, q: p == q or (p != p and q != q)
    if first: need(cost == MAX, 'C01:the final cost keeps its initial value when nothing could be evaluated')
    else:
        need(cost == g['bc'], 'C01:the final cost is the smallest evaluated cost')
        need(nres == g['bn'] and nr2 == g['bn'], 'C01:the final number of residuals is that of the best evaluation')
    need(fin(cost), 'C01:the final cost is finite')
    need(x == g['bp'] or (g['comp'] and x == g['bp'] + g['ld'] and g['lx'] == g['bp']), 'C02:the parameters end at the best point or one fresh step from it')
    need(not (fail or stop in (6, 7)) or x == g['bp'], 'C02:a run ending in a failure leaves the best point')
    need(not first or x == x0, 'C02:parameters are untouched when nothing could be evaluated')
    ev = g['any']
    nonfin = not fin(g['lc'])
    nonstep = g['lok'] and g['lsolved'] and not fin(g['ld'] * g['ld'])
    need(not (ev and nonfin) or stop == -2 or (g['ln'] == 0 and not g['lok'] and stop == -1), 'C03:a non-finite cost is reported')
    need(not nonstep or stop == -2, 'C03:a non-finite step is reported')
    need(fin(cost) and fin(x), 'C03:the final cost and parameters come from finite evaluations')
    need(0 <= it <= lim, 'C04:the number of iterations is within the limit')
    need(it == g['nh'] or (fail and it == g['nh'] + 1), 'C04:iterations and evaluations agree')
    need(stop != 0, 'C05:a reason is always given')
    need(-4 <= stop <= 9, 'C05:known reasons only')
    rel = (g['pbc'] - g['lc']) / g['pbc'] if F32(1e-7) < g['pbc'] < MAX else 0.0
    c = g['comp']
    R = {1: ('minimum error', c and me > 0 and g['lc'] < me), 2: ('minimum relative error decrease', c and mr > 0 and 0 < rel < mr),
         3: ('minimum step', c and ms > 0 and g['ld'] * g['ld'] < ms), 4: ('minimum gradient', c and mg > 0 and g['lg2'] < mg), 5: ('maximum iterations', it >= lim),
         6: ('maximum failures', c and not g['imp'] and mt and g['nfail'] >= mt), 7: ('maximum consecutive failures', c and not g['imp'] and mc and g['ncons'] >= mc),
         -1: ('skipped', g['inval'] or g['baddim'] or (ev and not c and g['ln'] == 0)), -2: ('not finite', nonfin or nonstep),
         -3: ('solver failure', not (g['lok'] and g['lsolved']) and ((mc and (g['ncons'] >= mc or g['fb'] >= mc)) or g['fb'] >= 256)), -4: ('out of memory', g['oom'])}
    if stop in R: need(R[stop][1], 'C05:' + R[stop][0])
    need(not (g['oom'] or g['inval'] or g['baddim'] or (ev and not c)) or fail, 'C05:failures are reported as failures')
    need(not g['oom'] or stop == -4, 'C05:a failed allocation is reported')
    need((suc != 0) == (not fail) and (con != 0) == (1 <= stop <= 4), 'C05:success and convergence flags')
    need(ne == nd == ns == g['nh'], 'C06:one history entry per completed evaluation')
    if ne == nd == ns == g['nh']:
        k = g['nh']
        h = tr[n:n + 3 * k]
        need(len(h) < 3 * k or all(h[j] == H[j][0] and h[k + j] == H[j][1] and (h[2 * k + j] != 0) == H[j][2] for j in range(k)), 'C06:each history entry is that of its evaluation')
    need(nf == g['nfail'], 'C06:number of failures')
    need(nc == g['ncons'], 'C06:number of consecutive failures')
    need(nr2 == g['bn'], 'C06:number of residuals')
    need(abs(dur - g['el']) <= 1e-3 * (1 + abs(g['el'])), 'C26:the reported duration is the time spent')
    need(stop != 8 or late(0.999), 'C26:a time out is reported')
    need(fail or not late(1.001) or stop == 8, 'C26:a run past its time limit says so')
    need(not g['cbstop'] or stop == 9 or (stop == 8 and late(0.999)), 'C26:a stop request is reported')
    need(stop != 9 or g['cbstop'], 'C26:user stop only on request')
    return bad


def script(rng):
    """options and answer streams of one run"""
    o = [0.0] * 16
    u = rng.random
    o[O['cfc']] = float(u() < 0.3)
    o[O['qual']] = float(u() < 0.5)
    o[O['max_iters']] = float(rng.choice((0, 1, 2, 3, 5, 8, 12)))
    o[O['arg']] = float(rng.choice((-1, -1, -1, 0, 1, 2, 4, 9)))
    o[O['min_error']] = rng.choice((0, 0, 0.5, 1e-3, 1e-12, 1e-25))
    o[O['min_rerr']] = rng.choice((0, 0, 1e-10, 0.1, 0.01, 0.5, 1e-25))
    o[O['min_step']] = rng.choice((0, 0, 1e-14, 0.1, 0.02, 1e-25))
    o[O['min_grad']] = rng.choice((0, 0, 1e-18, 0.1, 0.02, 1e-25))
    o[O['max_total']] = float(rng.choice((0, 0, 1, 2, 3, 5, 255)))
    o[O['max_consec']] = float(rng.choice((0, 1, 2, 3, 5, 5, 7, 255)))
    o[O['max_dur']] = rng.choice((0, 0, 0, 0.5, 2.0, 10.0))
    o[O['cb']], o[O['cb2']] = float(u() < 0.35), float(u() < 0.3)
    o[O['log']] = float(u() < 0.15)
    o[O['maxbuild']] = 4000.0
    o[O['two']] = float(u() < 0.3)
    n = 37
    if u() < 0.03:      # long histories
        o[O['max_iters']] = float(rng.choice((300, 600)))
        o[O['arg']] = -1.0
        for k in ('min_error', 'min_rerr', 'min_step', 'min_grad', 'max_dur'): o[O[k]] = 0.0
        o[O['max_total']], o[O['max_consec']] = 0.0, float(rng.choice((0, 255)))
        o[O['cb']] = o[O['cb2']] = 0.0
    easy = u() < 0.25
    if u() < 0.5:
        for k in ('min_error', 'min_rerr', 'min_step', 'min_grad'):
            if u() < 0.8: o[O[k]] = 0.0
    if u() < 0.5: o[O['max_iters']], o[O['arg']] = float(rng.choice((4, 6, 9, 15))), -1.0
    P = lambda *l: rng.choice((0, 0, 0) + l)
    pb, ps, pn, pz, pf = (0.0,) * 5 if easy else (P(.05, .1, .4, .9), P(.05, .1, .4, .9), P(.02, .05, .2), P(.02, .1), P(.02, .1))
    ch = lambda p: u() < p
    S = []
    S.append([float(rng.choice((0, 100, 500, 1000, 3000))) for _ in range(n)])                 # time
    S.append([0.0 if not ch(pz) else float(rng.choice((1, 2, 3))) for _ in range(n)])         # resize
    S.append([0.0 if ch(pb) else 1.0 for _ in range(n)])                                      # build ok
    kind = rng.choice(('walk', 'down', 'few', 'neg'))
    c, cs = rng.choice((10.0, 100.0, 1e-6)), []
    for k in range(n):
        if kind == 'walk': c = max(0.0, c + rng.choice((-1, -2, -0.001, 0, 1, 2)))
        elif kind == 'down': c *= rng.choice((0.5, 0.9, 0.999, 1 - 1e-11))
        elif kind == 'neg': c += rng.choice((-3, -3, -1, 1))
        else: c = rng.choice((1.0, 2.0, 3.0, 0.0, -1.0, 1e-5))
        cs.append(rng.choice((NAN, INF, -INF, MAX, 1e300)) if ch(pn) else c)
    S.append(cs)
    S.append([float(rng.choice((0, -1))) if ch(pz) else float(rng.randint(1, 9)) for _ in range(n)])  # residuals
    S.append([rng.choice((0.0, 0.01, 1.0, 1e-19, 5.0)) if not ch(pf) else rng.choice((NAN, INF)) for _ in range(n)])   # gradient
    S.append([0.0 if ch(ps) else 1.0 for _ in range(n)])                                      # solve ok
    S.append([rng.choice((NAN, INF, -INF, 1e200)) if ch(pf) else rng.choice((0.125, -0.25, 1.0, -2.0, 0.5, 3.0, 0.0, 1e-3 if easy else 8.0)) if u() < 0.97 else 0.0 for _ in range(n)])
    if any(v == 1e-3 for v in S[7]): S[7] = [0.0009765625 if v == 1e-3 else v for v in S[7]]
    S.append([float(ch(rng.choice((0, .1)))) for _ in range(n)])
    S.append([float(ch(rng.choice((0, .1)))) for _ in range(n)])
    S.append([float(rng.choice((-1, -2))) if ch(pz) else float(rng.choice((1, 1, 1, 2))) for _ in range(n)])
    S.append([0.0] * n)
    return o, [v for s in S for v in s]


def native(so, cases, timeout=100):
    """run the scripted cases in a child process; one (trace, f) or None (crash, hang) each"""
    res, i = [], 0
    while i < len(cases):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1); os.dup2(dn, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.alarm(timeout)
                lib = ctypes.CDLL(so)
                tr = (ctypes.c_double * CAP)()
                f = (ctypes.c_double * 64)()
                with os.fdopen(w, 'wb') as h:
                    for o, s in cases[i:]:
                        a = (ctypes.c_double * 16)(*o)
                        b = (ctypes.c_double * len(s))(*s)
                        lib.n_run(a, b, len(s) // STREAMS, tr, CAP, f)
                        k = min(CAP, int(f[1]) + int(f[12] + f[13] + f[14]))
                        h.write(struct.pack('i64d%dd' % k, k, *f[:64], *tr[:k]))
                        h.flush()
            except BaseException:
                pass
            os._exit(0)
        os.close(w)
        data = b''
        with os.fdopen(r, 'rb') as h:
            while True:
                b = h.read(1 << 20)
                if not b: break
                data += b
        os.waitpid(pid, 0)
        p, n = 0, 0
        while p + 8 <= len(data):
            k, = struct.unpack_from('i', data, p)
            sz = struct.calcsize('i64d%dd' % k)
            if p + sz > len(data): break
            v = struct.unpack_from('i64d%dd' % k, data, p)
            res.append((v[65:], v[1:65]))
            p += sz
            n += 1
        i += n
        if i < len(cases):
            res.append(None)
            i += 1
            if sum(1 for x in res if x is None) > 3: break
    return res + [None] * (len(cases) - len(res))


class OptUnit:
    """the optimizer loop: obligations of the given properties"""
    mode, bounded, defs, extra, want_native = 'fp', None, (), (), False
    harness, keep = 'optim.cpp', opt.KEEP
    weight = 10

    def __init__(self, props, about=''):
        self.props = tuple(props)
        self.name = 'optimizer loop'
        self.about = about or 'real optimizer loop against arbitrary solver, clock and callbacks; all iterations'

    def key(self): return (self.harness, self.defs, self.keep, self.extra)

    def mine(self, n): return n.split(':')[0] in self.props or ':' not in n

    def nso(self, ctx):
        k = 'optim-native' + ' '.join(self.defs)
        if k not in ctx.sos: ctx.sos[k] = build.build_native(ctx.src(self), ctx.wd, ('VF_NATIVE',) + self.defs, '-O1', ('-Wl,-Bsymbolic',))
        return ctx.sos[k]

    def search(self, ctx, res, n):
        rng = random.Random(ctx.seed * 7919 + 13)
        cases = [script(rng) for _ in range(n)]
        outs = native(self.nso(ctx), cases)
        res.samples = len(cases)
        for (o, s), r in zip(cases, outs):
            if r is None:
                if 'C04' not in self.props and 'C03' not in self.props: continue
                b = ['C04:bounded loop']
            else: b = [x for x in judge(o, r[0], r[1]) if self.mine(x)]
            if b:
                res.violations.append((self.name + '/' + b[0], {'harness': self.harness, 'options': o, 'script': s, 'failed': b,
                                       'final': list(r[1][:18]) if r else 'crash, abort or hang'}, ''))
                return True
        return False

    def replay(self, ctx, rp):
        r = native(self.nso(ctx), [(rp['options'], rp['script'])])[0]
        print('options:', rp['options'])
        print('final  :', r and list(r[1][:18]))
        if r is None: return 'terminates normally'
        b = [x for x in judge(rp['options'], r[0], r[1]) if self.mine(x)]
        return ', '.join(b)

    def run(self, ctx):
        t0 = time.time()
        res = UnitResult(self.name)
        early = False
        try: early = self.search(ctx, res, 1500 if ctx.tier == 'quick' else 8000)
        except build.BuildError as e:
            res.errors.append('native build failed: ' + str(e)[:400]); return res
        if early:
            res.wall = time.time() - t0
            res.obs.append(Ob(self.name + '/' + res.violations[-1][0].split('/')[-1], 'refuted', 'native run'))
            return res
        try: self.prove(ctx, res)
        except (Extraction, build.BuildError, ir.IRError) as e:
            res.errors.append('%s: %s: %s' % (self.name, type(e).__name__, str(e)[:600]))
        if res.errors or any(o.status != 'proved' for o in res.obs):
            if self.search(Seeded(ctx, 5), res, 6000): res.errors = []
            else:
                for o in res.obs:
                    if o.status != 'proved': res.violations.append((o.name, None, o.detail or o.status))
        res.wall = time.time() - t0
        return res

    def prove(self, ctx, res):
        m = ctx.module(self)
        lay = opt.layout(self.nso(ctx))
        M = opt.Model(lay)
        ex = Exec(m, mode='fp', externs=M.externs(), merge=True)

        def cut(f, h, body): return any(i.op in ('call', 'invoke') and 'vf_build' in str(i.a) for b in body for i in f.blocks[b])
        ex.cut, ex.cand_gen = cut, M.cands
        st = State()
        args = M.start(ex, st)
        outs = ex.call_function(st, '@h_opt', args)
        res.funcs, res.externs, res.steps = sorted(ex.funcs_seen), dict(ex.extern_used), ex.steps
        jobs = []
        for oi, o in enumerate(outs):
            if o.kind == 'unreachable': continue
            if o.kind != 'ret': jobs.append(('no %s (%s)' % (o.kind, (o.val or ('',))[0] if isinstance(o.val, tuple) else o.val), o.st.pc, FALSE)); continue
            for n, t in M.goals(ex, o.st):
                if self.mine(n): jobs.append((n + ' [exit %d]' % oi, o.st.pc, t))
        for n, pc, t in ex.obligs:
            if self.mine(n): jobs.append((n, pc, t))
        if 'C04' in self.props:
            for k, L in ex.cutloops.items():
                c = 'cnt!%s!%s' % k[:2]
                for pc, s2 in L.pres:
                    jobs.append(('C04:bounded loop ' + k[1], pc, Or(Not(bvcmp('bvslt', M.limit(ex, s2), s2.g[c])), Not(bvcmp('bvslt', BV(256, 32), s2.g[c])))))
        hints = None
        if os.path.exists(HINTS) and not os.environ.get('VF_NOHINTS'): hints = json.load(open(HINTS))
        for names in ([set(hints)] if hints else []) + [None]:
            if names: act, hst, nj = opt.hinted(ex.cutloops, names)
            else: act, hst, nj = opt.houdini(ex.cutloops, par=M.par)
            smt.solver_time['z3'] = smt.solver_time.get('z3', 0) + hst['time']
            smt.solver_calls['z3'] = smt.solver_calls.get('z3', 0) + hst['queries']
            obs = []
            for k, L in ex.cutloops.items():
                obs.append(Ob('%s/invariant of loop %s holds initially (%d facts)' % (self.name, k[1], len(act[k])), 'proved', 'z3'))
                obs.append(Ob('%s/invariant of loop %s is preserved' % (self.name, k[1]), 'proved', 'z3'))

            def disc(j):
                n, pc, t = j
                return n, smt.smt_prove_bv(opt.hyps(pc, ex.cutloops, act), t, timeout=30 * ctx.scale)
            with ThreadPoolExecutor(8) as tp:
                for n, r in tp.map(disc, jobs):
                    obs.append(Ob(self.name + '/' + n, r.status, r.backend, r.time, (r.out or '')[:1500] if r.status != 'proved' else ''))
            if all(o.status == 'proved' for o in obs): break
        res.obs += obs
        self.last, self.jobs = (ex, act), jobs


class LogUnit(OptUnit):
    """the optimizer loop does not depend on the logging options: two runs that get the same answers from their environment
    but have different logging options make the same requests and end in the same state (relational invariants: which
    parts of the loop state agree; found by elimination and proved inductive)"""
    defs = ('VF_LOGS',)

    def __init__(self):
        OptUnit.__init__(self, ['C27'], 'two runs of the real optimizer loop that only differ by their logging options; all iterations')
        self.name = 'optimizer loop, logging'

    def pair(self, ctx, o, s):
        runs = []
        for lg in (o[O['log']], 0.0):
            q = list(o)
            q[O['log']] = lg
            runs.append((q, s))
        return native(self.nso(ctx), runs)

    @staticmethod
    def differ(a, b):
        if a is None or b is None: return None if a is b else 'one run crashes'
        if a[1][0] != b[1][0]: return 'one run ends abnormally'
        same_ = lambda x, y: x == y or (x != x and y != y)

        def steps(r):
            out, i, n = [], 0, int(r[1][1])
            while i < n:
                l = LEN.get(int(r[0][i]), 1)
                if r[0][i] != 8: out += r[0][i:i + l]
                i += l
            return out + list(r[0][n:])
        ta, tb = steps(a), steps(b)
        if len(ta) != len(tb) or not all(map(same_, ta, tb)): return 'the same requests'
        k = next((k for k in range(2, 18) if not same_(a[1][k], b[1][k])), None)
        return None if k is None else 'the same result (value %d)' % k

    def search(self, ctx, res, n):
        rng = random.Random(ctx.seed * 7919 + 17)
        cases = []
        for _ in range(n):
            o, s = script(rng)
            cases.append((o, s, float(rng.choice((1, 255, rng.randrange(1, 128) * 2 + 1)))))
        runs = []
        for o, s, lg in cases:
            for l in (lg, 0.0):
                q = list(o)
                q[O['log']] = l
                runs.append((q, s))
        outs = native(self.nso(ctx), runs)
        res.samples = len(cases)
        for k, (o, s, lg) in enumerate(cases):
            d = self.differ(outs[2 * k], outs[2 * k + 1])
            if d:
                o[O['log']] = lg
                res.violations.append((self.name + '/' + d, {'harness': self.harness, 'options': o, 'script': s, 'failed': [d]}, ''))
                return True
        return False

    def replay(self, ctx, rp):
        a, b = self.pair(ctx, rp['options'], rp['script'])
        print('options:', rp['options'])
        for r in (a, b): print('final  :', r and list(r[1][:18]))
        return self.differ(a, b) or ''

    def prove(self, ctx, res):
        m = ctx.module(self)
        lay = opt.layout(self.nso(ctx))
        M = opt.Model(lay)
        ex = Exec(m, mode='fp', externs=M.externs(), merge=True)
        ex.cut = lambda f, h, body: any(i.op in ('call', 'invoke') and 'vf_build' in str(i.a) for b in body for i in f.blocks[b])
        st = State()
        args = M.start(ex, st)
        outs = ex.call_function(st, '@h_opt', args)
        res.funcs, res.externs, res.steps = sorted(ex.funcs_seen), dict(ex.extern_used), ex.steps
        loops = ex.cutloops
        lo, hi = lay['log'], lay['log'] + lay['sz_log']

        def islog(t):
            r = re.match(r'opt\+(\d+)', t.val) if t.op == 'var' else None
            return bool(r) and lo <= int(r.group(1)) < hi

        def val(s, loc):
            if loc[0] == 'r': return s.regs.get(loc[1])
            if loc[0] == 'g': return s.g.get(loc[1])
            c = s.mem[loc[1]].cells.get(loc[2])
            return c and c[1]
        other = {}                    # terms of the second run, by id of the first

        def scan(ts):
            for t in subterms([x for x in ts if isinstance(x, Term)]):
                if islog(t) and t.id not in other: other[t.id] = var(t.val + ' of the other run', t.sort)
        points = [(n, pc, vs) for n, pc, vs in ex.obligs if n.startswith('event:')]
        ends = []
        for o in outs:
            if o.kind == 'unreachable': continue
            vs = []
            if o.kind == 'ret':
                for ob in (M.x, M.out, M.flags):
                    vs += [('%s+%d' % (o.st.mem[ob.obj].name, k), v) for k, (n, v) in sorted(o.st.mem[ob.obj].cells.items()) if isinstance(v, Term)]
            ends.append((o.kind, o.st.pc, vs))
        edges = [(k, st_pc, s2) for k, L in loops.items() for st_pc, s2 in L.init + L.pres]
        for n, pc, vs in points: scan(list(pc) + list(vs))
        for k, pc, vs in ends: scan(list(pc) + [v for _, v in vs])
        for k, pc, s2 in edges: scan(list(pc) + [val(s2, l) for l in loops[k].havoc])
        high = set()
        tm = 20 * ctx.scale
        memo = [{}]

        def prime(t): return subst(t, other, memo[0])

        def clean(pc): return [c for c in pc if c.id not in {L.hyp.id for L in loops.values()}]

        def agree(pc, ts):
            """pc of the first run implies that the second run is here too, with the same values"""
            g = [prime(c) for c in pc if prime(c) is not c] + [Eq(t, prime(t)) for t in ts if prime(t) is not t]
            if not g: return smt.Result('proved', 'simplifier')
            return smt.smt_prove_bv(clean(pc), And(*g), timeout=tm)

        def low(pc, t):
            if prime(t) is t: return True
            return smt.smt_prove_bv(clean(pc) + [prime(c) for c in clean(pc)], Eq(t, prime(t)), timeout=tm).status == 'proved'
        for _ in range(60):
            new = False
            for k, pc, s2 in edges:
                for loc, h in loops[k].havoc.items():
                    if (k, loc) in high or not isinstance(h, Term): continue
                    v = val(s2, loc)
                    if v is None and loc[0] == 'm' and s2.mem[loc[1]].lazy and not (loc[1] == M.opt.obj and lo <= loc[2] < hi): continue   # part of the arbitrary initial state
                    if not isinstance(v, Term) or not low(pc, v):
                        high.add((k, loc))
                        other[h.id] = var(h.val + ' of the other run', h.sort)
                        memo[0] = {}
                        new = True
            if not new: break
        else: raise Extraction('relational invariants do not converge')
        jobs = []
        for k, L in loops.items():
            n = len([1 for l, h in L.havoc.items() if isinstance(h, Term)])
            res.obs.append(Ob('%s/relational invariant of loop %s (%d of %d parts of the state agree)' % (self.name, k[1], n - len([1 for q in high if q[0] == k]), n), 'proved', 'z3'))
            for i, (pc, s2) in enumerate(L.pres): jobs.append(('loop %s goes on in both runs [%d]' % (k[1], i), pc, []))
        for i, (n, pc, vs) in enumerate(points): jobs.append(('both runs reach the same %s [%d]' % (n.split(':')[1], i), pc, list(vs)))
        for i, (kind, pc, vs) in enumerate(ends):
            if kind != 'ret': jobs.append(('no ' + kind, pc, None))
            else: jobs.append(('both runs return the same result [exit %d]' % i, pc, [v for _, v in vs]))

        def disc(j):
            n, pc, vs = j
            if vs is None: return n, smt.smt_prove_bv(clean(pc), FALSE, timeout=tm)
            return n, agree(pc, vs)
        with ThreadPoolExecutor(8) as tp:
            for n, r in tp.map(disc, jobs):
                res.obs.append(Ob(self.name + '/' + n, r.status, r.backend, getattr(r, 'time', 0) or 0, (r.out or '')[:1500] if r.status != 'proved' else ''))
        self.dbg = (ex, loops, high, other, jobs)


class HessUnit(OptUnit):
    """the Hessian of the result is the one the solver exports at the end of the run, when asked for"""
    defs = ('VF_HESS',)
    GOALS = ('the result has the requested Hessian', 'the Hessian of the result is that of the solver', 'no Hessian unless requested')

    def __init__(self):
        OptUnit.__init__(self, ['C11'], 'real optimizer loop against an arbitrary second order solver; all iterations')
        self.name = 'optimizer loop, Hessian'

    def bad(self, r):
        if r is None or r[1][0]: return []
        has, one, save, h, s, nb = r[1][32:38]
        c = (not (save and nb) or has, not has or (one and h == s), save or not has)
        return [n for n, k in zip(self.GOALS, c) if not k]

    def search(self, ctx, res, n):
        rng = random.Random(ctx.seed * 7919 + 19)
        cases = []
        for _ in range(n):
            o, s = script(rng)
            if rng.random() < 0.3: s[11 * len(s) // STREAMS] = 1.0
            cases.append((o, s))
        res.samples = n
        for (o, s), r in zip(cases, native(self.nso(ctx), cases)):
            b = self.bad(r)
            if b:
                res.violations.append((self.name + '/' + b[0], {'harness': self.harness, 'options': o, 'script': s, 'failed': b, 'final': list(r[1][:38])}, ''))
                return True
        return False

    def replay(self, ctx, rp):
        r = native(self.nso(ctx), [(rp['options'], rp['script'])])[0]
        print('options:', rp['options'])
        print('final  :', r and list(r[1][:38]))
        return ', '.join(self.bad(r))

    def prove(self, ctx, res):
        M = opt.Model(opt.layout(self.nso(ctx)))
        ext = M.externs()

        def hessian(ex, s, a, i): ex.store(s, a[0], ('f', 64), fresh('hessian', ('F', 64)))
        ext['@vf_hess'] = ext['vf_hess'] = hessian
        ex = Exec(ctx.module(self), mode='fp', externs=ext, merge=True)
        ex.cut = lambda f, h, body: any(i.op in ('call', 'invoke') and 'vf_build' in str(i.a) for b in body for i in f.blocks[b])
        st = State()
        args = M.start(ex, st)
        fl, v = ex.new_obj(st, 'flags', 12), ex.new_obj(st, 'values', 16)
        outs = ex.call_function(st, '@h_hess', args[:4] + [fl, v])
        res.funcs, res.externs, res.steps = sorted(ex.funcs_seen), dict(ex.extern_used), ex.steps
        jobs = []
        for oi, o in enumerate(outs):
            if o.kind != 'ret': continue
            has, one, save = (Not(Eq(ex.load(o.st, symex.Ptr(fl.obj, 4 * k), ('i', 32)), BV(0, 32))) for k in range(3))
            h, s = (ex.load(o.st, symex.Ptr(v.obj, 8 * k), ('f', 64)) for k in range(2))
            for n, t in zip(self.GOALS, (Implies(And(save, o.st.g['any']), has), Implies(has, And(one, Eq(h, s))), Implies(Not(save), Not(has)))):
                jobs.append(('%s [exit %d]' % (n, oi), o.st.pc, t))
        skip = {L.hyp.id for L in ex.cutloops.values()}

        def disc(j):
            n, pc, t = j
            return n, smt.smt_prove_bv([c for c in pc if c.id not in skip], t, timeout=30 * ctx.scale)
        with ThreadPoolExecutor(8) as tp:
            for n, r in tp.map(disc, jobs):
                res.obs.append(Ob(self.name + '/' + n, r.status, r.backend, r.time, (r.out or '')[:1500] if r.status != 'proved' else ''))


class Seeded:
    def __init__(self, ctx, k): self.__dict__.update(ctx.__dict__); self.seed = ctx.seed + k; self.src = ctx.src

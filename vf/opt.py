"""Optimizer loop under contract: unbounded loops by invariants.

The real optimizer template is executed symbolically (IEEE arithmetic) against an arbitrary solver, user function, clock
and callbacks.  Loops that evaluate the user function are cut: their state is replaced by arbitrary values satisfying an
invariant, which is found by Houdini (largest inductive subset of a family of candidates built from the loop state and
the ghost state) and re-proved by the solver on every run.  Ghost state records what the specification talks about: the
evaluations made, the best point and cost, the answers of callbacks.
"""
import re, time, struct, subprocess, itertools, threading
from .terms import *
from . import terms as T
from . import smt, symex, build, ir
from .symex import Exec, State, Ptr, Outcome, Extraction, NULL

import os
DEBUG = os.environ.get('VF_HOUDINI')
F64, B32 = ('F', 64), ('BV', 32)
KONST = 'unchanged '
DBLMAX = F(1.7976931348623157e308, 64)
KEEP = (r'^_ZNSt6vectorI', r'^_ZNK?St7__cxx11', r'^_ZNKSt8functionI', r'^_ZNSt6chrono3_V2', r'StopReasonDescription', r'^_ZNSt13_Bvector',
        r'^_ZNSt12_Vector_base', r'^_ZN6vf_fmt', r'^_ZStls', r'^_ZNSo', r'^_ZNSt13basic_ostream', r'^_ZStpl')
FIELDS = ('check_final_cost use_step_quality_approx max_iters min_error min_rerr_dec min_step_norm2 min_grad_norm2 max_total_failures '
          'max_consec_failures max_duration_ms stop_callback stop_callback2 log_enable').split()
OUTF = 'cost nres rerr stop num_residuals num_iters num_failures num_consec duration num_diff errs deltas2 successes'.split()
TAIL = 'sz_opt sz_out start_time w_iters w_fail w_consec w_stop w_maxit w_maxtot w_maxcons log sz_log'.split()


def layout(so):
    import ctypes
    a = (ctypes.c_int * 64)()
    ctypes.CDLL(so).n_layout(a)
    return dict(zip(FIELDS + OUTF + TAIL, list(a)))


def finite(x): return And(Not(isnan(x)), Not(isinf(x)))


def n2(d): return fop('fp.mul', d, d)


def plus(x, d): return mk('app', (x, d), F64, 'plus')


class Model:
    """ghost state and assumed contracts of the environment of the optimizer"""

    def __init__(self, lay):
        self.lay = lay
        self.par = {}                          # candidate name -> names of candidates that imply it

    # ------------------------------------------------------------ initial state
    def start(self, ex, st):
        L = self.lay
        o = ex.new_obj(st, 'opt', L['sz_opt'], lazy='opt')
        x = ex.new_obj(st, 'x', 8)
        out = ex.new_obj(st, 'out', L['sz_out'])
        fl = ex.new_obj(st, 'flags', 8)
        self.opt, self.x, self.out, self.flags = o, x, out, fl
        self.x0 = var('x0', F64)
        st.mem[x.obj].cells[0] = (8, self.x0)
        self.maxit = var('max_iters_arg', B32)
        g = st.g
        z = BV(0, 32)
        f0 = lambda n: var('g0_' + n, F64)
        g.update(any=FALSE, fb=z, nh=z, nfail=z, ncons=z, bc=DBLMAX, bp=self.x0, lc=f0('lc'), lx=f0('lx'), ld=f0('ld'), lg2=f0('lg2'), pbc=DBLMAX, ls=f0('ls'), hc=f0('hc'), hd=f0('hd'), hi=FALSE,
                 lok=FALSE, lsolved=FALSE, ln=BV(0, 32), bn=BV(0, 32), mode=var('g0_mode', 'B'), cbstop=FALSE, imp=FALSE, comp=FALSE, oom=FALSE, inval=FALSE,
                 baddim=FALSE, errs_n=z, errs_l=f0('errs'), del_n=z, del_l=f0('del'), suc_n=z, suc_l=var('g0_suc', 'B'), ncb=z, nplus=z)
        self.has_cb, self.has_cb2 = var('has_cb', 'B'), var('has_cb2', 'B')
        st.assume(Not(bvcmp('bvslt', BV(2 ** 30, 32), self.maxit)))       # requested iterations up to 2^30
        return [o, x, self.maxit, out, fl]

    def opt_(self, ex, st, f, t):
        return ex.load(st, Ptr(self.opt.obj, self.lay[f]), t)

    def out_(self, ex, st, f, t):
        return ex.load(st, Ptr(self.out.obj, self.lay[f]), t)

    # ------------------------------------------------------------ contracts
    def externs(self):
        noop = lambda ex, s, a, i: (UNK(ex, i) if i.dst else None)

        def UNK(ex, i):
            t = ex.res(i.ty)
            if t[0] == 'i': return fresh('ext', ex.sort(t))
            if t[0] == 'f': return fresh('ext', ex.sort(t))
            if t[0] == 'ptr': return NULL
            return ex.fresh_of(t, 'ext')

        def ret0(ex, s, a, i): return a[0] if i.dst else None

        def event(nm):
            def f(ex, s, a, i):
                self.ev(ex, s, nm, *a)
                return noop(ex, s, a, i)
            return f

        def resize(ex, s, a, i):
            self.ev(ex, s, 'resize', *a)
            bad, inv = fresh('oom', 'B'), fresh('inval', 'B')
            outs = []
            for c, nm, gk in ((bad, '@_ZTISt9bad_alloc', 'oom'), (And(Not(bad), inv), '@_ZTISt16invalid_argument', 'inval')):
                s2 = s.fork()
                s2.assume(c)
                s2.g[gk] = TRUE
                q = ex.new_obj(s2, 'exc', None)
                s2.mem[q.obj].lazy = 'exc'
                vt = ex.new_obj(s2, 'vtable of exc', 40)
                s2.mem[q.obj].cells[0] = (8, vt)
                s2.mem[vt.obj].cells[16] = (8, Ptr('fn:@vf_what', 0))
                outs.append(Outcome('throw', s2, (nm, q)))
            s.assume(And(Not(bad), Not(inv)))
            r = fresh('resized', 'B')
            outs.append(Outcome('ret', s, r))
            return outs

        def bld(ex, s, a, i):
            g = s.g
            x = ex.load(s, a[0], ('f', 64))
            z = BV(0, 32)
            some = g['any']
            self.ev(ex, s, 'evaluation', x)
            ob = lambda p, nm, t: ex.obligs.append((p + ':' + nm, s.pc, t))
            ob('C07', 'the first evaluation builds the system at the starting point', Implies(Not(some), And(g['mode'], Eq(x, self.x0))))
            ob('C26', 'no evaluation after a stop request', Not(g['cbstop']))
            ob('C26', 'no evaluation after the time limit', Not(self.timed(ex, s)))
            ob('C05', 'no evaluation after a failed resize', And(Not(g['oom']), Not(g['inval']), Not(g['baddim'])))
            ob('C02', 'evaluations are at the best point or one step from it',
               Or(Eq(x, g['bp']), And(Not(Eq(g['nh'], z)), Eq(x, plus(g['bp'], g['ls'])))))
            ob('C03', 'no evaluation after a non-finite cost', Implies(some, finite(g['lc'])))
            ob('C03', 'no evaluation after a non-finite step', Implies(And(some, g['lok'], g['lsolved']), finite(n2(g['ld']))))
            ob('C05', 'no evaluation once a convergence criterion is met', Implies(And(some, g['comp']), Not(self.met(ex, s))))
            ob('C04', 'no evaluation without residuals', Implies(And(some, Not(g['lok'])), Not(Eq(g['ln'], z))))
            c, n, ok = fresh('cost', F64), fresh('nres', B32), fresh('built', 'B')
            s.assume(Implies(ok, And(bvcmp('bvslt', BV(0, 32), n), Not(Eq(c, DBLMAX)))))
            ex.store(s, a[1], ('f', 64), c)
            ex.store(s, a[2], ('i', 32), n)
            g.update(any=TRUE, fb=Ite(ok, g['fb'], bvop('bvadd', g['fb'], BV(1, 32))), lc=c, lx=x, ln=n, lok=ok, lsolved=FALSE, comp=FALSE, lg2=fresh('grad2', F64))
            g['nfail'] = Ite(ok, g['nfail'], bvop('bvadd', g['nfail'], BV(1, 32)))
            g['ncons'] = Ite(ok, g['ncons'], bvop('bvadd', g['ncons'], BV(1, 32)))
            return ok

        def solve(ex, s, a, i):
            g = s.g
            d, r = fresh('dx', F64), fresh('solved', 'B')
            self.ev(ex, s, 'solve')
            one = BV(1, 32)
            ex.store(s, a[0], ('f', 64), d)
            ex.obligs.append(('C08:a step is only requested from a system that was built', s.pc, g['lok']))
            comp = And(r, finite(g['lc']), finite(n2(d)))
            first = Eq(g['nh'], BV(0, 32))
            imp = Or(first, fcmp('fp.lt', g['lc'], g['bc']))
            ci, cn = And(comp, imp), And(comp, Not(imp))
            inc = lambda k, c: Ite(c, bvop('bvadd', g[k], one), g[k])
            bad = Or(Not(r), cn)
            g.update(pbc=Ite(comp, g['bc'], g['pbc']), bc=Ite(ci, g['lc'], g['bc']), bp=Ite(ci, g['lx'], g['bp']), bn=Ite(ci, g['ln'], g['bn']), nh=inc('nh', comp),
                     nfail=inc('nfail', bad), ncons=Ite(ci, BV(0, 32), inc('ncons', bad)), ld=d, lsolved=r, comp=comp, imp=ci,
                     hc=Ite(comp, g['lc'], g['hc']), hd=Ite(comp, n2(d), g['hd']), hi=Ite(comp, ci, g['hi']), fb=Ite(r, BV(0, 32), bvop('bvadd', g['fb'], one)))
            return r

        def plus_(ex, s, a, i):
            g = s.g
            x, d = ex.load(s, a[0], ('f', 64)), ex.load(s, a[1], ('f', 64))
            self.ev(ex, s, 'step', x, d)
            ex.obligs.append(('C03:parameters only move by finite steps', s.pc, finite(d)))
            # (x + d) + (-d) = x, at the instance that undoes a step from the best point
            s.assume(Eq(plus(plus(g['bp'], fneg(d)), d), g['bp']))
            s.assume(Eq(plus(plus(g['bp'], d), fneg(d)), g['bp']))
            ex.store(s, a[0], ('f', 64), plus(x, d))
            g['ls'] = d
            g['nplus'] = bvop('bvadd', g['nplus'], BV(1, 32))
            return None

        def rebuild(ex, s, a, i):
            self.ev(ex, s, 'mode', a[0])
            s.g['mode'] = a[0] if a[0].sort == 'B' else Not(Eq(a[0], BV(0, a[0].sort[1])))

        def dims(ex, s, a, i):
            d = fresh('dims', B32)
            s.g['baddim'] = Or(s.g['baddim'], bvcmp('bvslt', d, BV(0, 32)))
            return d

        def push(which):
            def f(ex, s, a, i):
                g = s.g
                isb = a[0].off == self.lay['successes'] and a[0].obj == self.out.obj
                if isinstance(a[1], Ptr):
                    v = ex.load(s, a[1], ('i', 8) if which == 'b' else ('f', 64))
                else: v = a[1]
                if which == 'b':
                    if isinstance(v, Term) and v.sort != 'B': v = Not(Eq(v, BV(0, v.sort[1])))
                if not (isinstance(a[0], Ptr) and a[0].obj == self.out.obj): raise Extraction('history vector outside the result')
                k = {self.lay['errs']: 'errs', self.lay['deltas2']: 'del', self.lay['successes']: 'suc'}.get(a[0].off)
                if k is None: raise Extraction('unknown history vector')
                self.ev(ex, s, 'history ' + k, v)
                g[k + '_n'] = bvop('bvadd', g[k + '_n'], BV(1, 32))
                w = {'errs': g['hc'], 'del': g['hd'], 'suc': g['hi']}[k]
                ex.obligs.append(('C06:each history entry is that of its evaluation', s.pc, And(g['comp'], Eq(g[k + '_n'], g['nh']), Eq(v, w))))
                g[k + '_l'] = v
                return UNK(ex, i) if i.dst else None
            return f

        def cb(ex, s, a, i):
            g = s.g
            ex.obligs.append(('C26:stop callback receives the cost, step and gradient norms of this iteration', s.pc,
                              And(g['comp'], Eq(a[1], g['lc']), Eq(a[2], n2(g['ld'])), Eq(a[3], g['lg2']))))
            self.ev(ex, s, 'callback', *a[1:4])
            r = fresh('cb', 'B')
            g['cbstop'] = Or(g['cbstop'], r)
            g['ncb'] = bvop('bvadd', g['ncb'], BV(1, 32))
            return r

        def cb2(ex, s, a, i):
            g = s.g
            ex.obligs.append(('C26:stop callback receives the cost of this iteration', s.pc, And(g['comp'], Eq(a[1], fpconv(g['lc'], 32)))))
            d = ex.load(s, ex.load(s, a[2], ('ptr',)), ('f', 32))
            ex.obligs.append(('C26:stop callback receives the step of this iteration', s.pc, Eq(d, fpconv(g['ld'], 32))))
            self.ev(ex, s, 'step callback', a[1], d)
            r = fresh('cb2', 'B')
            g['cbstop'] = Or(g['cbstop'], r)
            return r
        R_ = re.compile
        E = {
            'vf_resize': resize, 'vf_build': bld, 'vf_solve': solve, 'vf_grad2': lambda ex, s, a, i: s.g['lg2'], 'vf_plus': plus_,
            'vf_good': event('accepted'), 'vf_bad': event('rejected'), 'vf_failed': event('failed'), 'vf_std': noop, 'vf_what': noop, 'vf_rebuild': rebuild, 'vf_dims': dims,
            R_(r'^_ZNSt6vectorIdSaIdEE\d+(emplace_back|push_back)'): push('d'),
            R_(r'^_ZNSt6vectorIbSaIbEE\d+(emplace_back|push_back)'): push('b'),
            R_(r'^_ZNSt6vectorI[db]SaI[db]EE(7reserve|[CD][12]E)'): noop,
            R_(r'^_ZNSt13_Bvector_base'): noop, R_(r'^_ZNSt12_Vector_base'): noop,
            R_(r'^_ZNSt6chrono3_V212'): lambda ex, s, a, i: fresh('now', ('BV', 64)),
            R_(r'^_ZNKSt8functionIFbdddEEcvbEv'): lambda ex, s, a, i: self.has_cb,
            R_(r'^_ZNKSt8functionIFbf.*EEcvbEv'): lambda ex, s, a, i: self.has_cb2,
            R_(r'^_ZNKSt8functionIFbdddEEcl'): cb,
            R_(r'^_ZNKSt8functionIFbf.*EEcl'): cb2,
            R_(r'^_ZNK?St7__cxx1112basic_string.*(aS|pL|6assign|6append)'): ret0,
            R_(r'^_ZNK?St7__cxx11(12basic_string|19basic_ostringstream|18basic_stringstream)'): noop,
            R_(r'^_ZN6vf_fmt'): noop, R_(r'^_ZStls'): ret0, R_(r'^_ZNSo'): ret0, R_(r'^_ZStpl'): noop,
            R_(r'StopReasonDescription'): noop,
        }
        return E

    def ev(self, ex, s, nm, *a):
        """something the environment can see (used by the relational proof of C27 only)"""
        ex.obligs.append(('event:' + nm, s.pc, tuple(v for v in a if isinstance(v, Term))))

    def timed(self, ex, st):
        mx = self.opt_(ex, st, 'max_duration_ms', ('f', 64))
        du = self.out_(ex, st, 'duration', ('f', 32))
        return And(fcmp('fp.lt', F(0.0, 64), mx), fcmp('fp.lt', mx, fpconv(du, 64)))

    def met(self, ex, st):
        """a convergence criterion holds for the last completed evaluation"""
        g = st.g
        o = lambda k: fpconv(self.opt_(ex, st, k, ('f', 32)), 64)
        pos = lambda k: fcmp('fp.lt', F(0.0, 64), o(k))
        return Or(And(pos('min_error'), fcmp('fp.lt', g['lc'], o('min_error'))), And(pos('min_step_norm2'), fcmp('fp.lt', n2(g['ld']), o('min_step_norm2'))),
                  And(pos('min_grad_norm2'), fcmp('fp.lt', g['lg2'], o('min_grad_norm2'))))

    def rel(self, st):
        """relative decrease of the cost at the last completed evaluation"""
        p, c = st.g['pbc'], st.g['lc']
        return Ite(And(fcmp('fp.lt', F(struct.unpack('f', struct.pack('f', 1e-7))[0], 64), p), fcmp('fp.lt', p, DBLMAX)), fop('fp.div', fop('fp.sub', p, c), p), F(0.0, 64))

    def goals(self, ex, st):
        """obligations at the end of a run: (property:name, term)"""
        g, z = st.g, BV(0, 32)
        o = lambda k, t=('i', 32): self.out_(ex, st, k, t)
        fo = lambda k: fpconv(self.opt_(ex, st, k, ('f', 32)), 64)
        pos = lambda k: fcmp('fp.lt', F(0.0, 64), fo(k))
        x = ex.load(st, Ptr(self.x.obj, 0), ('f', 64))
        cost, nres, stop = o('cost', ('f', 64)), o('nres'), o('stop')
        first = Eq(g['nh'], z)
        R = lambda n: Eq(stop, BV(n & 0xffffffff, 32))
        fail = bvcmp('bvslt', stop, z)
        conv = lambda *l: And(Or(*l), g['comp'])
        le = lambda a, b: Not(bvcmp('bvslt', b, a))
        lim, it = self.limit(ex, st), o('num_iters')
        mc = zext(self.opt_(ex, st, 'max_consec_failures', ('i', 8 * self.lay['w_maxcons'])), 32)
        mt = zext(self.opt_(ex, st, 'max_total_failures', ('i', 8 * self.lay['w_maxtot'])), 32)
        lt = lambda a, b: fcmp('fp.lt', a, b)
        timed = self.timed(ex, st)
        rel = self.rel(st)
        nonfin = Or(Not(finite(g['lc'])), And(g['lok'], g['lsolved'], Not(finite(n2(g['ld'])))))
        fl = [Not(Eq(ex.load(st, Ptr(self.flags.obj, 4 * i), ('i', 32)), z)) for i in (0, 1)]
        badres = Or(g['oom'], g['inval'], g['baddim'])
        evald = g['any']
        return [
            ('C01:the final cost is the smallest evaluated cost', Implies(Not(first), Eq(cost, g['bc']))),
            ('C01:the final cost keeps its initial value when nothing could be evaluated', Implies(first, Eq(cost, DBLMAX))),
            ('C01:the final number of residuals is that of the best evaluation', Implies(Not(first), And(Eq(nres, g['bn']), Eq(o('num_residuals'), g['bn'])))),
            ('C01:the final cost is finite', finite(cost)),
            ('C02:the parameters end at the best point or one fresh step from it', Or(Eq(x, g['bp']), And(g['comp'], Eq(x, plus(g['bp'], g['ld'])), Eq(g['lx'], g['bp'])))),
            ('C02:a run ending in a failure leaves the best point', Implies(Or(fail, R(6), R(7)), Eq(x, g['bp']))),
            ('C02:parameters are untouched when nothing could be evaluated', Implies(first, Eq(x, self.x0))),
            ('C03:a non-finite cost is reported', Implies(And(evald, Not(finite(g['lc']))), Or(R(-2), And(Eq(g['ln'], z), Not(g['lok']), R(-1))))),
            ('C03:a non-finite step is reported', Implies(And(g['lok'], g['lsolved'], Not(finite(n2(g['ld'])))), R(-2))),
            ('C03:the final cost and parameters come from finite evaluations', And(finite(cost), Implies(Not(Eq(x, g['bp'])), finite(n2(g['ld']))))),
            ('C04:the number of iterations is within the limit', And(le(it, lim), le(z, it))),
            ('C04:iterations and evaluations agree', Or(Eq(it, g['nh']), And(fail, Eq(it, bvop('bvadd', g['nh'], BV(1, 32)))))),
            ('C05:a reason is always given', Not(R(0))),
            ('C05:known reasons only', And(le(BV(-4 & 0xffffffff, 32), stop), le(stop, BV(9, 32)))),
            ('C05:minimum error', Implies(R(1), And(g['comp'], pos('min_error'), lt(g['lc'], fo('min_error'))))),
            ('C05:minimum relative error decrease', Implies(R(2), And(g['comp'], pos('min_rerr_dec'), lt(F(0.0, 64), rel), lt(rel, fo('min_rerr_dec'))))),
            ('C05:minimum step', Implies(R(3), And(g['comp'], pos('min_step_norm2'), lt(n2(g['ld']), fo('min_step_norm2'))))),
            ('C05:minimum gradient', Implies(R(4), And(g['comp'], pos('min_grad_norm2'), lt(g['lg2'], fo('min_grad_norm2'))))),
            ('C05:maximum iterations', Implies(R(5), le(lim, it))),
            ('C05:maximum failures', Implies(R(6), And(g['comp'], Not(g['imp']), Not(Eq(mt, z)), le(mt, g['nfail'])))),
            ('C05:maximum consecutive failures', Implies(R(7), And(g['comp'], Not(g['imp']), Not(Eq(mc, z)), le(mc, g['ncons'])))),
            ('C05:skipped', Implies(R(-1), Or(g['inval'], g['baddim'], And(evald, Not(g['comp']), Eq(g['ln'], z))))),
            ('C05:not finite', Implies(R(-2), nonfin)),
            ('C05:solver failure', Implies(R(-3), And(Not(And(g['lok'], g['lsolved'])), Or(And(Not(Eq(mc, z)), Or(le(mc, g['ncons']), le(mc, g['fb']))), le(BV(256, 32), g['fb']))))),
            ('C05:out of memory', Implies(R(-4), g['oom'])),
            ('C05:failures are reported as failures', Implies(Or(badres, And(evald, Not(g['comp']))), fail)),
            ('C05:a failed allocation is reported', Implies(g['oom'], R(-4))),
            ('C05:success and convergence flags', And(Eq(fl[0], Not(fail)), Eq(fl[1], And(le(BV(1, 32), stop), le(stop, BV(4, 32)))))),
            ('C06:one history entry per completed evaluation', And(Eq(g['errs_n'], g['nh']), Eq(g['del_n'], g['nh']), Eq(g['suc_n'], g['nh']))),
            ('C06:number of failures', Eq(o('num_failures'), g['nfail'])),
            ('C06:number of consecutive failures', Eq(o('num_consec'), g['ncons'])),
            ('C06:number of residuals', Eq(o('num_residuals'), g['bn'])),
            ('C26:a time out is reported', Implies(R(8), timed)),
            ('C26:a run past its time limit says so', Implies(And(timed, Not(fail)), R(8))),
            ('C26:a stop request is reported', Implies(g['cbstop'], Or(R(9), And(R(8), timed)))),
            ('C26:user stop only on request', Implies(R(9), g['cbstop'])),
        ]

    def limit(self, ex, st):
        """iterations allowed: the argument, or the configured number when negative, plus roll-back and final check"""
        L = self.lay
        w = L['w_maxit']
        cfg = self.opt_(ex, st, 'max_iters', ('i', 8 * w))
        cfg = zext(cfg, 32)
        cfc = Not(Eq(self.opt_(ex, st, 'check_final_cost', ('i', 8)), BV(0, 8)))
        n = Ite(bvcmp('bvslt', self.maxit, BV(0, 32)), cfg, self.maxit)
        return bvop('bvadd', n, Ite(cfc, BV(2, 32), BV(1, 32)))

    # ------------------------------------------------------------ invariant candidates
    def cands(self, ex, L, havoc, s0, t, body, f):
        locs = list(havoc)
        gets = {}

        def getter(loc):
            def g(s):
                if loc[0] == 'r': return s.regs[loc[1]]
                if loc[0] == 'g': return s.g[loc[1]]
                v = s.mem[loc[1]].cells.get(loc[2])
                return v[1] if v else None
            return g
        by = {}
        for loc in locs:
            v = havoc[loc]
            if not isinstance(v, Term): continue
            by.setdefault(v.sort, []).append((self.lname(ex, loc, t), getter(loc)))
        out, kl, ki = [], {}, {}
        for loc in locs:
            if not isinstance(havoc[loc], Term): continue
            g, nm = getter(loc), self.lname(ex, loc, t)
            i = g(s0) if self.safe(g, s0) else None
            if isinstance(i, Term) and i.sort == havoc[loc].sort: out.append((KONST + nm, (lambda g, i: lambda s: Eq(g(s), i))(g, i))); kl[KONST + nm] = loc; ki[KONST + nm] = i
        gv = lambda k: ('g:' + k, lambda s: s.g[k])
        bools = list(by.get('B', []))
        for (w, v8) in [(k, vs) for k, vs in by.items() if isinstance(k, tuple) and k[0] == 'BV' and k[1] == 8]:
            for nm, g in v8: out.append((nm + '<=1', (lambda g: lambda s: bvcmp('bvult', g(s), BV(2, 8)))(g)))
            for nm, g in v8: bools.append((nm + '!=0', (lambda g: lambda s: Not(Eq(g(s), BV(0, 8))))(g)))
        have = {n for n, _ in bools}
        for k in ('any', 'comp', 'imp', 'lok', 'lsolved', 'cbstop', 'mode', 'oom', 'inval', 'baddim'):
            if 'g:' + k not in have: bools.append(gv(k))
        bools.append(('fb=0', lambda s: Eq(s.g['fb'], BV(0, 32))))
        bools.append(('nh=0', lambda s: Eq(s.g['nh'], BV(0, 32))))
        if any(l[0] == 'm' and l[1] == self.out.obj for l in locs):
            bools.append(('timed', lambda s: self.timed(ex, s)))
        cnd = [(n, g) for n, g in bools if n in ('g:comp', 'g:imp', 'g:any', 'nh=0') or not n.startswith('g:') and n not in ('timed', 'fb=0')]
        for nm, g in bools:
            out.append((nm, g)); out.append(('!' + nm, (lambda g: lambda s: Not(g(s)))(g)))
        for (n1, a), (n2_, b) in itertools.permutations(bools, 2):
            out.append((n1 + '=>' + n2_, (lambda a, b: lambda s: Implies(a(s), b(s)))(a, b)))
            self.par[n1 + '=>' + n2_] = ('!' + n1, n2_)
            if n1 < n2_:
                self.par[n1 + '|' + n2_] = (n1, n2_)
                self.par['!' + n1 + '|!' + n2_] = ('!' + n1, '!' + n2_)
                out.append((n1 + '|' + n2_, (lambda a, b: lambda s: Or(a(s), b(s)))(a, b)))
                out.append(('!' + n1 + '|!' + n2_, (lambda a, b: lambda s: Or(Not(a(s)), Not(b(s))))(a, b)))
        # floating point values: equalities, possibly conditional; position of the parameters relative to the best point
        fl = list(by.get(F64, []))
        fn = {n for n, _ in fl}
        for k in ('bc', 'bp', 'lc', 'lx', 'ld', 'pbc', 'errs_l', 'del_l', 'ls'):
            if 'g:' + k not in fn: fl.append(gv(k))
        xg = ('x', lambda s: s.mem[self.x.obj].cells[0][1])
        if not any(n == 'x' for n, _ in fl): fl.append(xg)
        fl.append(('dblmax', lambda s: DBLMAX))
        fl.append(('n2(ld)', lambda s: n2(s.g['ld'])))

        def eq(a, b): return lambda s: Eq(a(s), b(s))
        eqs = []
        PT = ('x', 'g:bp', 'g:lx', 'x0')
        fl.append(('x0', lambda s: self.x0))
        for (n1, a), (n2_, b) in itertools.combinations(fl, 2):
            if (n1 in PT) != (n2_ in PT): continue
            if n1.startswith('g:') and n2_.startswith('g:') and {n1, n2_} != {'g:bp', 'g:lx'}: continue
            eqs.append(('%s==%s' % (n1, n2_), eq(a, b)))
        for n1, a in fl:
            if n1 in PT or n1 in ('dblmax', 'n2(ld)'): continue
            eqs.append(('x==bp+%s' % n1, (lambda a: lambda s: Eq(xg[1](s), plus(s.g['bp'], a(s))))(a)))
            eqs.append(('finite(%s^2)' % n1, (lambda a: lambda s: finite(n2(a(s))))(a)))
        for nm, c in eqs:
            out.append((nm, c))
            for bn, b in cnd:
                self.par[bn + '=>' + nm], self.par['!' + bn + '=>' + nm] = (nm, '!' + bn), (nm, bn)
                out.append((bn + '=>' + nm, (lambda b, c: lambda s: Implies(b(s), c(s)))(b, c)))
                out.append(('!' + bn + '=>' + nm, (lambda b, c: lambda s: Or(b(s), c(s)))(b, c)))
        for n1, a in fl:
            if n1 in PT: continue
            c = (lambda a: lambda s: finite(a(s)))(a)
            out.append(('finite ' + n1, c))
            for bn, b in cnd:
                self.par[bn + '=>finite ' + n1], self.par['!' + bn + '=>finite ' + n1] = ('finite ' + n1, '!' + bn), ('finite ' + n1, bn)
                out.append((bn + '=>finite ' + n1, (lambda b, c: lambda s: Implies(b(s), c(s)))(b, c)))
                out.append(('!' + bn + '=>finite ' + n1, (lambda b, c: lambda s: Or(b(s), c(s)))(b, c)))
        # integers
        lim = self.limit(ex, s0)
        ints = []
        for srt, vs in by.items():
            if isinstance(srt, tuple) and srt[0] == 'BV' and srt[1] in (8, 16, 32, 64):
                for nm, g in vs: ints.append((nm, (lambda g: lambda s: g(s))(g), srt[1]))
        iname = {n for n, _, _ in ints}
        for k in ('fb', 'nh', 'bn', 'ln', 'nfail', 'ncons', 'errs_n', 'del_n', 'suc_n') + tuple(k for k in t.g if k.startswith('cnt!')):
            if 'g:' + k not in iname: ints.append(('g:' + k, gv(k)[1], 32))
        consts = [('0', lambda s: BV(0, 32)), ('limit', lambda s: lim), ('256', lambda s: BV(256, 32))]
        mc = zext(self.opt_(ex, s0, 'max_consec_failures', ('i', 8 * self.lay['w_maxcons'])), 32)
        mt = zext(self.opt_(ex, s0, 'max_total_failures', ('i', 8 * self.lay['w_maxtot'])), 32)
        z32 = BV(0, 32)
        for (n1, a, w1), (n2_, b, w2) in itertools.combinations(ints, 2):
            if w1 == w2:
                out.append(('%s==%s' % (n1, n2_), eq(a, b)))
                if w1 == 32:
                    out.append(('%s<=%s' % (n1, n2_), (lambda a, b: lambda s: Not(bvcmp('bvslt', b(s), a(s))))(a, b)))
                    out.append(('%s>=%s' % (n1, n2_), (lambda a, b: lambda s: Not(bvcmp('bvslt', a(s), b(s))))(a, b)))
            elif {w1, w2} == {32, 64}:
                lo, hi = (a, b) if w1 == 32 else (b, a)
                out.append(('%s==%s' % (n1, n2_), (lambda lo, hi: lambda s: Eq(sext(lo(s), 64), hi(s)))(lo, hi)))
        for n1, a, w in ints:
            init = a(s0) if self.safe(a, s0) else None
            if init is not None and is_c(init):
                out.append(('%s==%s' % (n1, init.val), (lambda a, i: lambda s: Eq(a(s), i))(a, init)))
            if w != 32: continue
            for cn, c in consts:
                out.append(('%s<=%s' % (n1, cn), (lambda a, c: lambda s: Not(bvcmp('bvslt', c(s), a(s))))(a, c)))
                out.append(('%s>=%s' % (n1, cn), (lambda a, c: lambda s: Not(bvcmp('bvslt', a(s), c(s))))(a, c)))
            out.append(('maxcons>0=>%s<maxcons' % n1, (lambda a: lambda s: Implies(Not(Eq(mc, z32)), bvcmp('bvslt', a(s), mc)))(a)))
        # history
        def hist(s):
            g = s.g
            return Or(Eq(g['nh'], z32), And(Eq(g['errs_l'], g['hc']), Eq(g['del_l'], g['hd']), Eq(g['suc_l'], g['hi'])))
        out.append(('last history entry', hist))
        out.append(('no criterion met', lambda s: Implies(s.g['comp'], Not(self.met(ex, s)))))
        out.append(('residuals', lambda s: Implies(And(s.g['any'], Not(s.g['lok'])), Not(Eq(s.g['ln'], z32)))))
        out.append(('residuals2', lambda s: Implies(s.g['any'], Not(Eq(s.g['ln'], z32)))))
        out.append(('success flag', lambda s: Or(Eq(s.g['nh'], z32), Eq(s.g['suc_l'], s.g['hi']))))
        L.kloc, L.kini = kl, ki
        return [(n, (lambda c: lambda s: self.guarded(c, s))(c)) for n, c in out]

    def safe(self, a, s):
        try: a(s); return True
        except Exception: return False

    def guarded(self, c, s):
        try:
            r = c(s)
            return r if isinstance(r, Term) else FALSE
        except (KeyError, AttributeError, TypeError, AssertionError, symex.MemFault):
            return FALSE

    def lname(self, ex, loc, t):
        if loc[0] == 'g': return 'g:' + loc[1]
        if loc[0] == 'r': return loc[1]
        if loc[1] == self.x.obj: return 'x'
        if loc[1] == self.out.obj:
            for k in OUTF:
                if self.lay[k] == loc[2]: return 'out.' + k
        return '%s+%s' % (t.mem[loc[1]].name, loc[2])


# ------------------------------------------------------------------ Houdini
class Z3:
    """incremental solver process"""

    def __init__(self, text, seed=0):
        self.p = subprocess.Popen(['z3-new', '-in'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.send('(set-option :timeout 60000)\n(set-option :smt.random_seed %d)\n(set-option :sat.random_seed %d)\n' % (seed, seed) + text)

    def send(self, x):
        self.p.stdin.write(x + '\n'); self.p.stdin.flush()

    def check(self, asserts, get=()):
        self.send('(push)\n(assert (and true %s))\n(check-sat)' % ' '.join(asserts))
        r = self.p.stdout.readline().strip()
        if r.startswith('(error'): raise Extraction('z3: ' + r)
        vals = None
        if r == 'sat' and get:
            self.send('(get-value (%s))\n(echo "end-of-values")' % ' '.join(get))
            vals = set()
            for l in self.p.stdout:
                if 'end-of-values' in l: break
                if l.rstrip(' )\n').endswith('false'): vals.add(l.split()[0].lstrip('('))
        self.send('(pop)')
        return r, vals

    def close(self):
        try: self.p.kill()
        except Exception: pass


def hyps(pc, loops, active):
    """assumptions of a state: path condition plus the invariants of the loops it is in"""
    out = []
    hv = {}
    for k, L in loops.items(): hv[L.hyp.id] = k
    for c in pc:
        if c.id in hv: out += [loops[hv[c.id]].terms[j] for j in active[hv[c.id]]]
        else: out.append(c)
    return out


def hinted(loops, names, ax=()):
    """start from named candidates only (a previous result): usually inductive as it stands"""
    only = {k: [j for j, (n, _) in enumerate(L.cands) if n in names and L.terms[j] is not TRUE] for k, L in loops.items()}
    return houdini(loops, ax, {}, False, only, 1)


def houdini(loops, ax=(), par={}, first=True, only=None, seeds=2):
    """largest subset of the candidates that holds initially and is preserved; returns {loop: indices}, statistics"""
    active = {k: [j for j in range(len(L.cands)) if L.terms[j] is not TRUE] for k, L in loops.items()}
    stats = dict(queries=0, time=0.0)
    t0 = time.time()
    if first:
        # stage 1: which parts of the state are left unchanged by the loop; stage 2: the other facts about the rest
        kon, st1, _ = houdini(loops, ax, par, False, {k: [j for j in a if loops[k].cands[j][0].startswith(KONST)] for k, a in active.items()}, 1)
        stats['queries'] += st1['queries']
        for k, L in loops.items():
            hv = {v.id for v in L.havoc.values() if isinstance(v, Term)}
            kv = {}
            for j in kon[k]:
                v = L.havoc[L.kloc[L.cands[j][0]]]
                kv[v] = L.kini[L.cands[j][0]]
            live = hv - {v.id for v in kv}
            seen, keep = set(), []
            for j in active[k]:
                if j in kon[k]: keep.append(j); continue
                if L.cands[j][0].startswith(KONST): continue
                t = subst(L.terms[j], kv)
                if t is TRUE or t is FALSE or t.id in seen or not any(u.id in live for u in subterms([t])): continue
                seen.add(t.id)
                keep.append(j)
            active[k] = keep
    else:
        active = only
    jobs = []
    for k, L in loops.items():
        for kind, lst in (('init', L.init), ('pres', L.pres)):
            for pc, st in lst: jobs.append((k, kind, pc, {j: L.cands[j][1](st) for j in active[k]}))
    # cheap syntactic pass
    for k, kind, pc, ts in jobs:
        active[k] = [j for j in active[k] if ts[j] is not FALSE]
    sess = []
    hv = {L.hyp.id: kk for kk, L in loops.items()}
    for k, kind, pc, ts in jobs:
        p = smt.BVPrinter()
        base = [p.term(c) for c in pc if c.id not in hv] + [p.term(c) for c in ax]
        using = [hv[c.id] for c in pc if c.id in hv]
        pt = {j: p.term(ts[j]) for j in active[k]}
        ht = {(kk, j): p.term(loops[kk].terms[j]) for kk in using for j in active[kk]}
        txt = '\n'.join(p.decl)
        for j, e in pt.items(): txt += '\n(declare-const c!%d Bool)\n(assert (= c!%d %s))' % (j, j, e)
        for (kk, j), e in ht.items():
            i = list(loops).index(kk)
            txt += '\n(declare-const h!%d!%d Bool)\n(assert (= h!%d!%d %s))' % (i, j, i, j, e)
        txt += '\n' + '\n'.join('(assert %s)' % e for e in p.extra + base)
        for sd in range(seeds if kind == 'pres' else 1): sess.append([k, using, txt, -1, sd, len(sess)])
    names = list(loops)
    # a candidate implied by an active one sleeps
    idx = {k: {n: j for j, (n, _) in enumerate(L.cands)} for k, L in loops.items()}
    pids = {k: [[idx[k][q] for q in par.get(n, ()) if q in idx[k]] for n, _ in L.cands] for k, L in loops.items()}

    def awake(k):
        s = set(active[k])
        return [j for j in active[k] if not any(q in s for q in pids[k][j])]
    cv = threading.Condition()
    ver, err = [0], []

    def done():      # every job proved with the current candidates
        jb = {}
        for se in sess: jb.setdefault((id(se[2])), []).append(se[3])
        return err or all(max(v) == ver[0] for v in jb.values())

    def work(se):
        k, using, txt, _, seed, no = se
        z = Z3(txt, seed)
        try:
            while True:
                with cv:
                    while True:
                        if done(): cv.notify_all(); return
                        if max(s[3] for s in sess if s[2] is txt) < ver[0]: break
                        cv.wait(1)
                    v0 = ver[0]
                    A = ['h!%d!%d' % (names.index(kk), j) for kk in using for j in awake(kk)]
                    aw = awake(k)
                C = ['c!%d' % j for j in aw]
                r, vals = z.check(A + ['(or false %s)' % ' '.join('(not %s)' % c for c in C)], C)
                bad = None
                if r == 'unsat': pass
                elif r == 'sat': bad = [int(v[2:]) for v in vals]
                else:
                    bad = []           # undecided: drop candidates one by one
                    for j in aw:
                        rr, _ = z.check(A + ['(not c!%d)' % j])
                        stats['queries'] += 1
                        if rr != 'unsat': bad.append(j)
                with cv:
                    stats['queries'] += 1
                    if DEBUG: print('%6.1f s%d %s %s active %d' % (time.time() - t0, no, k[1], r, len(aw)), len(bad or ()), flush=True)
                    if bad:
                        b = set(bad)
                        n = [j for j in active[k] if j not in b]
                        if len(n) != len(active[k]):
                            active[k] = n
                            ver[0] += 1
                    else: se[3] = v0
                    cv.notify_all()
        except Exception as e:
            with cv:
                err.append(e)
                cv.notify_all()
        finally: z.close()
    th = [threading.Thread(target=work, args=(se,)) for se in sess]
    for t in th: t.start()
    for t in th: t.join()
    if err: raise err[0]
    stats['time'] = time.time() - t0
    active = {k: awake(k) for k in loops}
    return active, stats, len(jobs)

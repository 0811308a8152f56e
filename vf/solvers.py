"""Contracts of the real solvers (harness/solver.cpp), shared by several properties."""
from .terms import *
from .run import FnUnit

TINY = R(Fraction(1, 10 ** 9))
OPT = 11
CLIP, MIND, LAM, RMIN, RMAX, GOOD, BAD, LR, SQ, HALF, NORM = range(11)
MX = 2 ** 20
FUNCTIONS = ['SolverGN::Build', 'SolverGN::Accumulate', 'SolverGN::Evaluate', 'SolverGN::clear', 'SolverGN::resize', 'SolverGN::ResizeIfNeeded', 'SolverGN::Solve',
             'SolverGN::Hessian', 'SolverLM::SolverLM', 'SolverLM::reset', 'SolverLM::Build', 'SolverLM::GoodStep', 'SolverLM::BadStep', 'SolverLM::FailedStep',
             'SolverLM::Hessian', 'SolverLM::Rebuild', 'SolverGD::Build', 'SolverGD::Accumulate', 'SolverGD::clear', 'SolverGD::Solve', 'SolverGD::resize',
             'SolverBase::Clamp', 'SolverBase::NormalizeCost', 'SolveLDLT']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic, also when options are stored in single precision',
               'residual counts are between 0 and 2^20 and costs are not negative',
               'systems of one and two parameters, with fixed and dynamic sizes']


def pd2(a, b, d): return And(rgt(a, TINY), rgt(d, TINY), rgt(a * d - b * b, TINY * rmax(a, d)))


def psd2(a, b, d): return And(rge(a, 0), rge(d, 0), rge(a * d - b * b, 0))


class L:
    """named inputs and outputs of the wrappers"""

    def __init__(self, n, second=True, lm=False):
        self.n, self.second, self.lm = n, second, lm
        nn = n * n if second else 0
        p = OPT
        def take(k):
            nonlocal p
            r = slice(p, p + k); p += k
            return r
        self.H0, self.g0, self.H1, self.g1 = take(nn), take(n), take(nn), take(n)
        self.cost, self.cnt, self.ratio = p, p + 1, p + 2
        p += 3
        if lm: self.applied, self.badf = p, p + 1; p += 2
        self.nin = p
        p = 1
        self.calls, self.deriv, self.rows, self.cols, self.grows = range(p, p + 5)
        p += 5
        self.rH = slice(p, p + n * n); p += n * n
        self.rg = take(n)
        self.oc, self.on, self.oratio = p, p + 1, p + 2
        p += 3
        self.oH, self.og = take(nn), take(n)
        if not second: self.has = p; p += 1; self.dx = take(n)
        if second: self.oE = take(nn); self.open = p; p += 1
        self.nout = p

    def pre(self, i):
        r = [rge(i[CLIP], 0), rge(i[MIND], 0), rge(i[LAM], 0), rle(0, i[RMIN]), rle(i[RMIN], i[RMAX]), rgt(i[GOOD], 0), rge(i[BAD], 1), rge(i[LR], 0),
             Or(req(i[self.cnt], 0), rle(1, i[self.cnt])), rle(i[self.cnt], MX), rge(i[self.cost], 0), rlt(i[self.cost], R(10 ** 300)), rle(0, i[self.ratio]), rle(i[self.ratio], 1)]
        if self.lm: r += [rge(i[self.applied], 0), rge(i[self.badf], 1)]
        return r

    def sample(self, rng):
        u = rng.random
        f = lambda *l: float(rng.choice(l))
        n, nn = self.n, self.n * self.n if self.second else 0
        p = [f(0, 0, 0.5, 1, 0.125), f(0, 0, 0.25, 1), f(0, 0, 1, 0.5, 2, 0.125, 2 ** -13), f(0, 0.0009765625, 0.25), f(1024, 1, 0.5), f(0.25, 0.5, 1), f(2, 1.5, 4), f(0.5, 0.001953125, 1, 0),
             f(1, 1, 0), f(1, 0, 0), f(1, 0, 0)]

        def mat():
            k = rng.randrange(5)
            if k < 3:
                B = [[rng.choice([rng.uniform(-2, 2), float(rng.randint(-2, 2))]) for _ in range(n)] for _ in range(n)]
                A = [[sum(B[r][t] * B[c][t] for t in range(n)) + (0.5 if r == c and k else 0.) for c in range(n)] for r in range(n)]
                if k == 2 and u() < .6:
                    for r in range(n):
                        for c in range(r): A[r][c] = rng.uniform(-9, 9)
            else: A = [[rng.choice([0., 1., -1., rng.uniform(-3, 3)]) for _ in range(n)] for _ in range(n)]
            return [x for r in A for x in r]
        v = lambda: [rng.choice((rng.uniform(-3, 3), 0.0, 1.0, -0.1)) for _ in range(n)]
        p += (mat() if nn else []) + v() + (mat() if nn else []) + v()
        p += [rng.choice((rng.uniform(0, 9), 0.0, 4.0)), float(rng.choice((0, 1, 2, 3, 7, 300)) if u() < .5 else rng.randint(1, 50)), f(0, 1, 0.5, 0.25)]
        if self.lm: p += [f(0, 0.5, 1, 4), f(2, 1.5, 4, 8)]
        return p

    # expected values
    def exp_cost(self, i):
        c = Ite(rgt(i[SQ], 0), i[self.cost], Sqrt(i[self.cost]))
        c = Ite(rgt(i[HALF], 0), c / 2, c)
        return Ite(And(rgt(i[NORM], 0), rgt(i[self.cnt], 0)), c / i[self.cnt], c)

    def exp_g(self, i):
        return [Ite(req(i[CLIP], 0), g, Ite(rlt(g, -i[CLIP]), -i[CLIP], Ite(rgt(g, i[CLIP]), i[CLIP], g))) for g in i[self.g1]]

    def low(self, i):
        h = i[self.H1]
        return And(rgt(i[MIND], 0), Or(*[rlt(rabs(h[k * (self.n + 1)]), i[MIND]) for k in range(self.n)]))


def goals_zero(l):
    """what the callback receives (C08)"""
    def f(i, o):
        g = [('the callback is called once', req(o[l.calls], 1)), ('derivatives are asked for', req(o[l.deriv], 1)), ('gradient size', req(o[l.grows], l.n))]
        if l.second: g += [('Hessian rows', req(o[l.rows], l.n)), ('Hessian columns', req(o[l.cols], l.n))] + [('Hessian entry %d is zero' % k, req(v, 0)) for k, v in enumerate(o[l.rH])]
        g += [('gradient entry %d is zero' % k, req(v, 0)) for k, v in enumerate(o[l.rg])]
        return g + [('built exactly when there are residuals%s' % (' and the diagonal is large enough' if l.second else ''),
                     req(o[0], Ite(And(rgt(i[l.cnt], 0), Not(l.low(i)) if l.second else TRUE), R(1), R(0))))]
    return f


def goals_cost(l):
    def f(i, o): return [('cost', req(o[l.oc], l.exp_cost(i))), ('number of residuals', req(o[l.on], i[l.cnt])), ('inlier ratio', req(o[l.oratio], i[l.ratio]))]
    return f


def damped(l, i, full):
    """the matrix of the linear system: a, b (upper), c (lower), d"""
    h = i[l.H1]
    s = 1 + i[LAM] if l.lm else R(1)
    if l.n == 1: return (h[0] * s,)
    return h[0] * s, h[1], h[2] if full else h[1], h[3] * s


def goals_system(l, ldlt, full):
    """the linear system after a successful build (C09)"""
    def f(i, o):
        built, g, m = req(o[0], 1), l.exp_g(i), damped(l, i, full)
        r = [('the gradient is the accumulated one, clipped', built, And(*[req(x, y) for x, y in zip(o[l.og], g)]))]
        if l.n == 1: return r + [('system', built, req(o[l.oH][0], m[0]))]
        h = o[l.oH]
        r += [('system diagonal', built, And(req(h[0], m[0]), req(h[3], m[3]))), ('system upper', built, req(h[1], m[1]))]
        if not ldlt: r += [('system lower', built, req(h[2], m[2]))]     # the factorization only reads the upper part
        return r
    return f


def goals_solve(n, ldlt):
    def f(i, o):
        has = req(o[0], 1)
        r = [('flag', Or(req(o[0], 0), has))]
        if n == 1:
            a, g = i
            if ldlt: return r + [('not positive: no step', rlt(a, 0), req(o[0], 0)), ('a step is proposed', rgt(a, TINY), has), ('step', rgt(a, TINY), req(o[1], -g / a))]
            e = R(Fraction(1, 10 ** 6))
            return r + [('step', rgt(a, e), And(has, req(o[1], -g / a))), ('no move along a flat direction', rle(a, 0), Or(req(o[0], 0), req(o[1], 0)))]
        a, b, c, d, p, q = i
        if ldlt:
            c, det, pd = b, a * d - b * b, pd2(a, b, d)
            r += [('a step is proposed', pd, has), ('not positive: no step', Not(psd2(a, b, d)), req(o[0], 0))]
        else: det, pd = a * d - b * c, rgt(rabs(a * d - b * c), R(Fraction(1, 1000)))
        return r + [('step 0', pd, And(has, req(o[1], -(d * p - b * q) / det))), ('step 1', pd, And(has, req(o[2], -(a * q - c * p) / det)))]
    return f


def goals_sparse(n):
    """a sparse system may also be solved when it is not positive"""
    def f(i, o):
        has, r = req(o[0], 1), [('flag', Or(req(o[0], 0), req(o[0], 1)))]
        if n == 1:
            a, g = i
            return r + [('singular: no step', req(a, 0), req(o[0], 0)), ('a step is proposed', rgt(a, TINY), has), ('the step solves the system', has, req(o[1] * a, -g))]
        a, b, c, d, p, q = i
        det, pd = a * d - b * b, pd2(a, b, d)
        return r + [('a step is proposed', pd, has), ('singular: no step', req(det, 0), req(o[0], 0), 'proof'), ('step 0', pd, And(has, req(o[1], -(d * p - b * q) / det))), ('step 1', pd, And(has, req(o[2], -(a * q - b * p) / det))),
                    ('the step solves the system', has, And(req(a * o[1] + b * o[2], -p), req(b * o[1] + d * o[2], -q)), 'proof')]
    return f


def solves():
    r = []
    for s in ('gn', 'lm'):
        for n in (1, 2): r.append(FnUnit('solver.cpp', 'h_%s_solve%ds' % (s, n), n * n + n, 1 + n, None, goals_sparse(n), sampler=mats(n, n), merge=False, defs=('VF_SP',)))
        for tag, n, ldlt in (('1_l', 1, 1), ('1_i', 1, 0), ('2_l', 2, 1), ('2_i', 2, 0), ('2x_l', 2, 1)):
            r.append(FnUnit('solver.cpp', 'h_%s_solve%s' % (s, tag), n * n + n, 1 + n, None, goals_solve(n, ldlt), sampler=mats(n, n), merge=False, defs=('VF_SOLVE',)))
        for n in (1, 2):
            r.append(FnUnit('solver.cpp', 'h_%s_solve%d_none' % (s, n), n * n + n, 1 + n, None, lambda i, o: [('no step without residuals', req(o[0], 0))], merge=False, defs=('VF_SOLVE',)))
    return r


def mats(n, extra=0):
    """Random symmetric matrices: positive definite, singular, indefinite, plus arbitrary ones."""
    def s(rng):
        k = rng.randrange(5)
        if k < 3:
            m = n if k == 0 else max(1, n - 1) if k == 1 else n + 1
            B = [[rng.choice([rng.uniform(-2, 2), float(rng.randint(-2, 2))]) for _ in range(m)] for _ in range(n)]
            A = [[sum(B[r][t] * B[c][t] for t in range(m)) + (0.1 if r == c and k == 2 else 0.) for c in range(n)] for r in range(n)]
            if rng.random() < .3:
                for r in range(n):
                    for c in range(r): A[r][c] = rng.uniform(-9, 9)
        else: A = [[rng.choice([0., 1., -1., rng.uniform(-3, 3)]) for _ in range(n)] for _ in range(n)]
        return [x for r in A for x in r] + [rng.uniform(-3, 3) for _ in range(extra)]
    return s


def goals_export(l, full):
    """exported Hessian (C11)"""
    def f(i, o):
        h, e = i[l.H1], o[l.oE]
        valid = rgt(i[l.cnt], 0)
        if l.n == 1: return [('exported Hessian', valid, req(e[0], h[0]))]
        return [('exported diagonal', valid, And(req(e[0], h[0]), req(e[3], h[3]))), ('exported upper', valid, req(e[1], h[1])),
                ('exported lower', And(valid, req(o[0], 1)), Or(req(e[2], h[2]), req(e[2], h[1])))]
    return f


def goals_eval(l, what):
    """cost-only evaluation"""
    def f(i, o):
        op = req(o[l.open], 1)
        s = (1 + i[LAM]) / (1 + i[l.applied])
        n, H0 = l.n, i[l.H0]
        ok = rgt(i[l.cnt], 0)
        if what == 'C08':
            return [('the callback is called once', req(o[l.calls], 1)), ('no derivative is asked for', req(o[l.deriv], 0)), ('evaluated', req(o[0], Ite(ok, R(1), R(0)))),
                    ('the gradient is kept', And(*[req(x, y) for x, y in zip(o[l.og], i[l.g0])])),
                    ('the Hessian is kept', And(*[req(o[l.oH][k], H0[k]) for k in range(n * n) if k % (n + 1)] or [TRUE])),
                    ('only the damping of the diagonal is updated', And(op, ok, rgt(i[LAM], 0)), And(*[req(o[l.oH][k], H0[k] * s) for k in range(0, n * n, n + 1)])),
                    ('a failed evaluation keeps the diagonal', Not(ok), And(*[req(o[l.oH][k], H0[k]) for k in range(0, n * n, n + 1)]))]
        if what == 'C11':
            return [('exported Hessian stays un-damped', And(op, Or(rgt(i[LAM], 0), req(i[l.applied], 0))), And(*[req(o[l.oE][k], H0[k] / (1 + i[l.applied]) if k % (n + 1) == 0 else H0[k]) for k in range(n * n)]))]
        return goals_cost(l)(i, o)
    return f


CFG = [('1_l', 1, True, True), ('1_i', 1, False, True), ('2_lf', 2, True, True), ('2_lu', 2, True, False), ('2_if', 2, False, True), ('2_iu', 2, False, False),
       ('2x_lf', 2, True, True), ('2x_iu', 2, False, False), ('2x_grow', 2, True, True), ('2x_shrink', 2, True, True),
       ('1s', 1, True, True), ('2s', 2, True, True), ('2s_grow', 2, True, True)]       # sparse
GDC = [('gd1', 1), ('gd2', 2), ('gd2x', 2), ('gd2x_grow', 2), ('gd2x_shrink', 2)]


def unit(fn, l, goals, **kw):
    a = dict(ints=(l.cnt,), tol=1e-6, atol=1e-7, timeout=15, nsamples=3000)
    a.update(kw)
    return FnUnit('solver.cpp', fn, l.nin, l.nout, l.pre, goals, sampler=l.sample, **a)


def second(make, which=('gn', 'lm'), only=None):
    """make(l, ldlt, full) -> goals"""
    r = []
    for s in which:
        for tag, n, ldlt, full in CFG:
            if only and tag not in only: continue
            l = L(n, True, s == 'lm')
            r.append(unit('h_%s%s' % (s, tag), l, make(l, ldlt, full), defs=('VF_SP' if tag[1] == 's' else 'VF_' + s.upper() + ('X' if 'x' in tag else ''),)))
    return r


def first(make):
    r = []
    for fn, n in GDC:
        l = L(n, False)
        r.append(unit('h_' + fn, l, make(l), defs=('VF_GD',)))
    return r


def evals(what):
    fs = (('lm1_eval', 1, 'VF_LM'), ('lm2_eval', 2, 'VF_LM'), ('lm2x_eval', 2, 'VF_LMX'), ('lm2s_eval', 2, 'VF_SP'))
    return [unit('h_' + f, L(n, True, True), goals_eval(L(n, True, True), what), defs=(d,)) for f, n, d in fs]


def logs():
    """each solver call from an arbitrary state, with any log options and without logging (C27)"""
    r = []
    L2 = [('%s%s' % (s, t), int(t[0]), True) for s, ts in (('gn', ('1_l', '1_i', '2_lf', '2_iu')), ('lm', ('1_l', '1_i', '2_lf', '2_iu', '1_eval', '2_eval'))) for t in ts]
    for fn, n, sec in L2 + [('gd1', 1, False), ('gd2', 2, False)]:
        l = L(n, sec, fn.startswith('lm'))
        k = l.nout + (8 if n == 1 else 6) * sec
        goals = lambda i, o, k=k: [('the same result %d' % j, Eq(o[j], o[k + j])) for j in range(k)]
        r.append(FnUnit('solver.cpp', 'h_log_' + fn, 8 + l.nin, 2 * k, None, goals, sampler=lambda g, l=l: [g.choice((1.0, 1.0, 1.0, 0.0))] + [g.choice((0.0, 1.0)) for _ in range(7)] + l.sample(g),
                        defs=('VF_LOGS', 'VF_' + fn[:2].upper()), mode='fp', ints=(8 + l.cnt,), timeout=15, nsamples=2000))
    flags = lambda g: [g.choice((1.0, 1.0, 1.0, 0.0))] + [g.choice((0.0, 1.0)) for _ in range(7)]
    for s in ('gn', 'lm'):
        for t, n in (('1_l', 1), ('1_i', 1), ('2_l', 2), ('2_i', 2)):
            m = mats(n, n)
            r.append(FnUnit('solver.cpp', 'h_log_%s_solve%s' % (s, t), 8 + n * n + n, 2 + 2 * n, None, lambda i, o, k=1 + n: [('the same step %d' % j, Eq(o[j], o[k + j])) for j in range(k)],
                            sampler=lambda g, m=m: flags(g) + m(g), mode='fp', merge=False, defs=('VF_LOGS', 'VF_SOLVE'), nsamples=2000))
    return r

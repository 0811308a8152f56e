"""User function signatures, solver choice and entry points."""
from fractions import Fraction
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['Optimize', 'Optimizer_::Optimize', 'Optimizer_::operator()', 'Optimizer_::OptimizeAcc', 'OptimizeWithAutoDiff', 'diff::CreateNumDiffFunc1', 'diff::CreateNumDiffFunc2', 'SolverGN', 'SolverLM', 'SolverGD']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic', 'the clock does not advance (time limits are property C26)',
               'the solvers are replaced by their contract (properties C08-C12): a solver that evaluates the accumulator it is given at arbitrary points, with affine residuals of arbitrary coefficients; one or two parameters and residuals',
               'bounded part: whole runs of two iterations with the real solvers, one parameter',
               'the reference is the underlying optimizer run on a system filled by the user (its steps are properties C01-C11), or on the documented numerical differentiation of the function (property C16)']
C = lambda x: R(Fraction(x))
CLK = {'_ZNSt6chrono3_V212system_clock3nowEv': lambda e, s, a, i: BV(0, 64)}
NAMES = ('parameter 0', 'parameter 1', 'final cost', 'stop reason', 'iterations', 'history size', 'first cost')


def pre(m, n):
    def f(i):
        r = [rge(i[0], C('1e-6')), rle(i[0], 1), rge(i[1], 0)]
        r.append(rge(sum((i[4 + (n + 1) * k] * i[4 + (n + 1) * k] for k in range(m)), R(0)), C('0.01')))
        return r
    return f


def goals(path):
    def f(i, o):
        g = [('same ' + n, req(o[k], o[8 + k])) for k, n in enumerate(NAMES)]
        g.append(('numerical differentiation reported', req(o[7], int(path == 'nd'))))
        if path == 'ad': g.append(('differentiated automatically', And(rge(o[16], 1), req(o[17], 0))))
        if path == 'nd': g.append(('evaluated numerically', And(req(o[16], 0), rge(o[17], 1))))
        if path == 'ac': g.append(('evaluations', And(rge(o[18], 1), req(o[18], o[19]))))
        return g
    return f


def sampler(m, n):
    def f(r):
        x = [r.choice((1e-4, 0.01, 0.3, 1.0)), r.choice((0.0, 0.0, 0.5, 2.0)), r.uniform(-3, 3), r.uniform(-3, 3)]
        for k in range(m): x += [r.uniform(0.3, 2) * r.choice((-1, 1)) for _ in range(n)] + [r.uniform(-3, 3)]
        return x
    return f


def U(path, fn, grp, m, n): return FnUnit('dispatch.cpp', 'h_' + fn, 4 + m * (n + 1), 20, pre(m, n), goals(path), sampler=sampler(m, n), defs=tuple('VF_' + g for g in grp.split()), externs=CLK, merge='sp_' not in fn, nsamples=300, tol=1e-4, atol=1e-5, bounded='runs of two iterations', name='run_' + fn)


def cap_goals(path, kind, n, first):
    """the solver chosen and what it is given: options, start, and at every point the documented system"""
    def f(i, o):
        g = [('solver', req(o[0], kind)), ('builds', req(o[1], 3)), ('numerical differentiation reported', req(o[64], int(path == 'nd')))]
        g += [('start %d' % k, req(o[2 + k], i[7 + k])) for k in range(n)]
        g += [('option %d' % k, req(o[4 + k], v)) for k, v in enumerate((i[0], i[1], i[2], None, R(6), Ite(rgt(i[3], 0), R(1), R(0)))) if v is not None]
        if path == 'ad': g.append(('differentiated automatically', And(rge(o[65], 1), req(o[66], 0))))
        if path == 'nd': g.append(('evaluated numerically', And(req(o[65], 0), rge(o[66], 1))))
        if path == 'ac': g.append(('evaluations', req(o[67], 6)))
        names = ['gradient 0'] + ['gradient 1'] * (n > 1) + ['cost', 'residuals', 'cost without derivatives'] + ([] if first else ['Hessian %d%d' % (a, b) for a in range(n) for b in range(n)])
        ix = {'gradient 0': 0, 'gradient 1': 1, 'cost': 6, 'residuals': 7, 'cost without derivatives': 8, 'Hessian 00': 2, 'Hessian 01': 3, 'Hessian 10': 4, 'Hessian 11': 5}
        for k in range(3):
            b = 10 + 18 * k
            g += [('build %d %s' % (k, a), req(o[b + ix[a]], o[b + 9 + ix[a]])) for a in names]
        return g
    return f


def cap_sampler(m, n):
    def f(r): return [r.uniform(0.01, 1), r.uniform(0.01, 1), r.uniform(0, 1), r.choice((-1.0, 1.0)), 0.0, 0.0, 0.0] + [r.uniform(-3, 3) for _ in range(12 + m * (n + 1))]
    return f


def cap_units():
    r = []
    KIND = {'gn': 1, 'lm': 2, 'gncall': 1, 'lmopt': 2, 'nlmax': 2, 'gd': 3, 'uncall': 3, 'gdmax': 3}
    def add(p, fn, kind, m, n, first, defs):
        r.append(FnUnit('capture.cpp', 'h_' + fn, 19 + m * (n + 1), 70, None, cap_goals(p, kind, n, first), sampler=cap_sampler(m, n), defs=defs, externs=CLK, merge=False, nsamples=100, axioms=lambda i: [rgt(var('Inf', 'R'), 1000)], tol=1e-4, atol=1e-5))
    for p in ('ad', 'nd', 'ac'):
        for t, n in (('s', 1), ('v1', 1), ('v2', 2), ('vx', 2), ('a2', 2)):
            d = ('VF_' + p.upper(), 'VF_' + t.upper())
            for e in ('gn', 'lm', 'gncall', 'lmopt', 'nlmax'):
                for m in (1, 2): add(p, '%s_%s_%s%d' % (p, e, t, m), KIND[e], m, n, False, d)
            for e in ('gd', 'uncall', 'gdmax'): add(p, '%s_%s_%s' % (p, e, t), KIND[e], 1, n, True, d)
    for fn, kind, p in (('sp_gn', 4, 'ac'), ('sp_lm', 5, 'ac'), ('sp_call', 5, 'ac'), ('sp_ad', 5, 'ad')): add(p, fn, kind, 2, 2, False, ('VF_SP',))
    return r


def units(tier):
    r = cap_units()
    for p in ('ad', 'nd', 'ac'):
        for e in ('gn', 'lm'): r.append(U(p, '%s_%s_s_1' % (p, e), p.upper() + ' S1', 1, 1))
        r.append(U(p, p + '_gd_s', 'GD S1', 1, 1))
    r.append(U('ac', 'sp_gn', 'SP', 1, 1))
    for fn, m in (('no_gn', 1), ('no_lm', 1), ('no_gd', 2), ('no_gdn', 2), ('no_gd3', 1), ('no_other', 1)):
        r.append(FnUnit('dispatch.cpp', 'h_' + fn, 4 + 2 * m, 3, None, lambda i, o: [('refused', req(o[0], 1)), ('no evaluation', req(o[1], 0)), ('parameters unchanged', req(o[2], 0))], defs=('VF_ER',), externs=CLK, nsamples=200))
    return r

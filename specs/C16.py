"""Numerical differentiation."""
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['diff::NumEval', 'diff::EstimateNumJac', 'diff::CreateNumDiffFunc1', 'diff::CreateNumDiffFunc2', 'params_trait::PlusEq']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic',
               'functions are cubic polynomials with arbitrary coefficients around the point: affine and quadratic ones are included, and the cubic term pins the difference formula',
               'up to four parameters and four residuals']


class L:
    def __init__(s, m, n): s.m, s.n, s.nin = m, n, 1 + 3 * m * n + 2 * m + n
    def get(s, i):
        m, n = s.m, s.n
        c = lambda o: [[i[1 + o * m * n + r * n + k] for k in range(n)] for r in range(m)]
        b = 1 + 3 * m * n
        return i[0], c(0), c(1), c(2), i[b + m:b + 2 * m], i[b + 2 * m:b + 2 * m + n]
    def J(s, i, meth):
        h, A, B, D, c, x = s.get(i)
        if meth == 'f': return [[A[r][k] + h * B[r][k] + h * h * D[r][k] for k in range(s.n)] for r in range(s.m)]
        return [[A[r][k] + h * h * D[r][k] for k in range(s.n)] for r in range(s.m)]
    def pre(s, i): return [Not(req(i[0], 0))]
    def sample(s, rng):
        z = rng.random() < 0.3
        v = [rng.choice([0.5, 0.25, 0.125, -0.25, 1.0])]
        for k in range(3 * s.m * s.n + 2 * s.m + s.n): v.append(0.0 if rng.random() < 0.1 else round(rng.uniform(-4, 4), 2))
        if z:
            for k in range(1 + s.m * s.n, 1 + 3 * s.m * s.n): v[k] = 0.0
        return v


def jac(l, meth):
    m, n = l.m, l.n
    def f(i, o):
        h, A, B, D, c, x = l.get(i)
        J = l.J(i, meth)
        lin = And(*[req(v[r][k], 0) for v in ((D,) if meth != 'f' else (B, D)) for r in range(m) for k in range(n)])
        g = [('Jacobian %d,%d' % (r, k), req(o[r * n + k], J[r][k])) for r in range(m) for k in range(n)]
        g += [('exact on %s functions: %d,%d' % ('affine' if meth == 'f' else 'quadratic', r, k), Implies(lin, req(o[r * n + k], A[r][k]))) for r in range(m) for k in range(n)]
        g += [('residual %d' % r, req(o[m * n + r], c[r])) for r in range(m)]
        g += [('evaluated only within the step of the point', rle(o[m * n + m], rabs(h)))]
        g += [('parameter %d unchanged' % k, req(o[m * n + m + 1 + k], x[k])) for k in range(n)]
        return g + [('rows', req(o[m * n + m + n + 1], m)), ('columns', req(o[m * n + m + n + 2], n))]
    return f


def acc(l):
    def f(i, o):
        J, J2, x = l.J(i, 'c'), l.J(i, 'f'), l.get(i)[5]
        return [('Jacobian %d' % k, And(req(o[k], J[0][k]), req(o[4 + k], J2[0][k]))) for k in range(2)] + [('parameter %d unchanged' % k, req(o[2 + k], x[k])) for k in range(2)]
    return f


def default(l):
    def f(i, o):
        h, A, B, D, c, x = l.get(i)
        quad = And(*[req(v[r][k], 0) for v in (D,) for r in range(2) for k in range(2)])
        return [('exact on quadratic functions: %d,%d' % (r, k), Implies(quad, req(o[r * 2 + k], A[r][k]))) for r in range(2) for k in range(2)] + [('parameter %d unchanged' % k, req(o[4 + k], x[k])) for k in range(2)]
    return f


def system(l, meth):
    m, n = l.m, l.n
    def f(i, o):
        h, A, B, D, c, x = l.get(i)
        J = l.J(i, meth)
        g = []
        for k in range(n):
            e = sum((J[r][k] * c[r] for r in range(m)), R(0))
            g += [('first order gradient %d' % k, req(o[k], e)), ('second order gradient %d' % k, req(o[n + k], e))]
        g += [('Hessian %d,%d' % (a, b), req(o[2 * n + a * n + b], sum((J[r][a] * J[r][b] for r in range(m)), R(0)))) for a in range(n) for b in range(n)]
        b = 2 * n + n * n
        for k in range(5): g.append(('number of residuals %d' % k, req(o[b + 2 * k], m)))
        for k in range(1, 5): g.append(('same cost with and without derivatives %d' % k, req(o[b + 2 * k + 1], o[b + 1])))
        return g + [('parameter %d unchanged' % k, req(o[b + 10 + k], x[k])) for k in range(n)]
    return f


def units(tier):
    r = []
    shapes = (('A', 's_s', 1, 1), ('A', 's_v', 2, 1), ('A', 'v1_s', 1, 1), ('A', 'v2_s', 1, 2), ('A', 'v2_v1', 1, 2), ('A', 'v2_v2', 2, 2), ('A', 'v2_v3', 3, 2),
              ('B', 'v2_vd', 3, 2), ('B', 'vx_s', 1, 2), ('B', 'vx_v', 2, 2), ('B', 'vx_vd', 3, 2), ('B', 'u_s', 1, 2), ('B', 'u_v', 2, 2), ('B', 'm_v', 2, 4),
              ('C', 'v2_m', 4, 2), ('C', 'v2_md', 4, 2), ('C', 's_m', 4, 1))
    for meth in 'fcq':
        for grp, fn, m, n in shapes:
            l = L(m, n)
            r.append(FnUnit('numdiff.cpp', 'h_%s_%s' % (meth, fn), l.nin, m * n + m + n + 3, l.pre, jac(l, meth), l.sample, defs=('VF_' + grp,), nsamples=600))
    for meth in 'fc':
        for fn, m, n in (('s_s', 1, 1), ('s_v', 2, 1), ('v2_s', 1, 2), ('v2_v3', 3, 2), ('vx_vd', 2, 2), ('u_v', 2, 2), ('v2_m', 4, 2), ('v2_md', 4, 2)):
            l = L(m, n)
            r.append(FnUnit('numdiff.cpp', 'h_s%s_%s' % (meth, fn), l.nin, 2 * n + n * n + 10 + n, l.pre, system(l, meth), l.sample, defs=('VF_E',), nsamples=600))
    l = L(1, 2)
    for fn in ('acc1', 'acc2', 'acc3'): r.append(FnUnit('numdiff.cpp', 'h_' + fn, l.nin, 6, l.pre, acc(l), l.sample, defs=('VF_D',), nsamples=600))
    l = L(2, 2)
    r.append(FnUnit('numdiff.cpp', 'h_default', l.nin, 6, None, default(l), l.sample, defs=('VF_D',), nsamples=600, tol=1e-5, atol=1e-5))
    return r

"""Systems assembled by automatic differentiation."""
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['OptimizeWithAutoDiff', 'diff::Eval', 'diff::CalculateJac', 'Jet operators used by affine residuals']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic',
               'residual functions are affine around the point with arbitrary value and Jacobian, which is all that the assembly depends on (the rules of differentiation are property C14)',
               'up to four parameters and four residuals']


def split(i, m, n): return [[i[r * n + k] for k in range(n)] for r in range(m)], i[m * n:m * n + m]


def sysg(m, n, unc=False):
    def f(i, o):
        A, c = split(i, m, n)
        if unc: A = A[:-1] + [[R(0)] * n]
        g = [('gradient %d' % k, req(o[k], sum((A[r][k] * c[r] for r in range(m)), R(0)))) for k in range(n)]
        cost = sum((x * x for x in c), R(0))
        g += [('cost', req(o[n], cost)), ('number of residuals', req(o[n + 1], m)), ('cost alone', req(o[n + 2], cost)), ('number of residuals alone', req(o[n + 3], m))]
        return g + [('Hessian %d,%d' % (a, b), req(o[4 + n + a * n + b], sum((A[r][a] * A[r][b] for r in range(m)), R(0)))) for a in range(n) for b in range(n)]
    return f


def gdg(n):
    def f(i, o):
        A, c = split(i, 1, n)
        return [('gradient %d' % k, req(o[k], A[0][k] * c[0])) for k in range(n)] + [('objective', req(o[n], c[0])), ('objective alone', req(o[n + 2], c[0]))]
    return f


def evg(m, n, unc=False):
    def f(i, o):
        A, c = split(i, m, n)
        if unc: A = A[:-1] + [[R(0)] * n]
        return [('residual %d' % r, req(o[r], c[r])) for r in range(m)] + [('Jacobian %d,%d' % (r, k), And(req(o[m + r * n + k], A[r][k]), req(o[m + m * n + r * n + k], A[r][k]))) for r in range(m) for k in range(n)]
    return f


def U(fn, grp, m, n, g, nout): return FnUnit('autodiff.cpp', 'h_' + fn, m * n + m + n, nout, None, g, defs=('VF_' + grp,), nsamples=800)


def units(tier):
    r = []
    for grp, fn, m, n in (('A', 's_s', 1, 1), ('A', 's_v2', 2, 1), ('A', 's_vd', 2, 1), ('A', 'v1_s', 1, 1), ('A', 'v2_s', 1, 2), ('A', 'v2_v1', 1, 2), ('A', 'v2_v2', 2, 2), ('A', 'v2_v3', 3, 2), ('A', 'v2_vd', 3, 2),
                          ('B', 'v2_m', 4, 2), ('B', 'v2_md', 4, 2), ('B', 'm_v', 2, 4), ('B', 'u_s', 1, 2), ('B', 'u_v', 2, 2),
                          ('C', 'vx_s', 1, 2), ('C', 'vx_v', 2, 2), ('C', 'vx_vd', 2, 2), ('C', 'vx_unc', 2, 2)):
        r.append(U(fn, grp, m, n, sysg(m, n, 'unc' in fn), 4 + n + n * n))
    for fn, n in (('gd_s', 1), ('gd_v1', 1), ('gd_v2', 2), ('gd_vx', 2), ('gd_u', 2)): r.append(U(fn, 'D', 1, n, gdg(n), 4 + n))
    for fn, m, n in (('s_s', 1, 1), ('s_v', 2, 1), ('v2_s', 1, 2), ('v2_v3', 3, 2), ('v2_md', 4, 2), ('v2_m', 4, 2), ('vx_v', 2, 2), ('vx_unc', 2, 2), ('u_v', 2, 2), ('m_v', 2, 4), ('s_a2', 2, 1), ('v2_a2', 2, 2), ('v2_a3', 2, 2), ('v2_as', 1, 2)):
        r.append(U('ev_' + fn, 'D', m, n, evg(m, n, 'unc' in fn), m + 2 * m * n))
    return r

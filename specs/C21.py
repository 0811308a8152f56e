"""Mahalanobis norms and whitening."""
from vf.terms import *
from vf.run import FnUnit
from specs.C13 import pd2, mats

LEVEL = 'proof'
FUNCTIONS = ['losses::MahaSquaredNorm', 'losses::MahaNorm', 'losses::MahaWhitened', 'losses::MahaWhitenedInfoU', 'InvCov']
ASSUMPTIONS = []
EPS = R(1.1e-7)


def grads(names, J, Jx, g, ok=TRUE):
    """J must equal g, JJx must equal g * Jx (row vector)"""
    r = [('J%d' % k, ok, req(J[k], g[k])) for k in range(2)]
    return r + [('chain rule %d' % k, ok, req(Jx[0][k], g[0] * Jx[1][k] + g[1] * Jx[1][2 + k])) for k in range(2)]


def scal(kind):
    def f(i, o):
        x, v, jx = i
        n2 = x * x / v
        if kind == 'sq':
            return [('value', req(o[0], n2)), ('value with J', req(o[1], n2)), ('value with Jx', req(o[3], n2)),
                    ('J', req(o[2], 2 * x / v)), ('chain rule', req(o[4], 2 * x / v * jx))]
        g = x / (v * o[0])
        far = rgt(o[0], R(2e-7))
        return [('value', And(req(o[0] * o[0], n2), rge(o[0], 0))), ('value with J', req(o[1], o[0])), ('value with Jx', req(o[3], o[0])),
                ('J', far, req(o[2], g)), ('chain rule', far, req(o[4], g * jx))]
    return f


def vect(kind, full):
    def f(i, o):
        x = i[:2]
        if full:
            a, b, d = i[2], i[3], i[5]
            jx = i[6:10]
            det = a * d - b * b
            w = [(d * x[0] - b * x[1]) / det, (a * x[1] - b * x[0]) / det]
        else:
            jx = i[4:8]
            w = [x[0] / i[2], x[1] / i[3]]
        n2 = x[0] * w[0] + x[1] * w[1]
        base = [('shape', req(o[7], 1))]
        if kind == 'sq':
            return base + [('value', req(o[0], n2)), ('value with J', req(o[1], n2)), ('value with Jx', req(o[4], n2))] + \
                grads(0, o[2:4], (o[5:7], jx), [2 * w[0], 2 * w[1]])
        g = [w[0] / o[0], w[1] / o[0]]
        return base + [('value', req(o[0] * o[0], n2)), ('non-negative', rge(o[0], 0)), ('value with J', req(o[1], o[0])), ('value with Jx', req(o[4], o[0]))] + \
            grads(0, o[2:4], (o[5:7], jx), g, rgt(o[0], R(2e-7)))
    return f


def noscale(i, o):
    w = [i[0] / i[2], i[1] / i[3]]
    return [('value', req(o[0], i[0] * w[0] + i[1] * w[1])), ('J0', req(o[1], w[0])), ('J1', req(o[2], w[1])), ('scalar value', req(o[3], i[0] * w[0])), ('scalar J', req(o[4], w[0]))]


def whit_common(x, jx, o):
    """exported value, linearity r = J x, chain rule"""
    J = o[4:8]
    return [('value with J %d' % k, req(o[2 + k], o[k])) for k in range(2)] + [('value with Jx %d' % k, req(o[8 + k], o[k])) for k in range(2)] + \
        [('linear %d' % k, req(o[k], J[2 * k] * x[0] + J[2 * k + 1] * x[1])) for k in range(2)] + \
        [('chain rule %d%d' % (r, c), req(o[10 + 2 * r + c], J[2 * r] * jx[c] + J[2 * r + 1] * jx[2 + c])) for r in range(2) for c in range(2)]


def w_iso(i, o):
    s = i[2]
    return [('value %d' % k, req(o[k], i[k] / s)) for k in range(2)] + whit_common(i[:2], i[3:7], o)


def w_std(i, o):
    return [('value %d' % k, req(o[k], i[k] / i[2 + k])) for k in range(2)] + whit_common(i[:2], i[4:8], o)


def w_cov(i, o):
    x, a, b, d = i[:2], i[2], i[3], i[5]
    J = o[4:8]
    det = a * d - b * b
    return [('norm', req(o[0] * o[0] + o[1] * o[1], (d * x[0] * x[0] - 2 * b * x[0] * x[1] + a * x[1] * x[1]) / det)),
            ('JtJ 00', req(J[0] * J[0] + J[2] * J[2], d / det)), ('JtJ 01', req(J[0] * J[1] + J[2] * J[3], -b / det)), ('JtJ 11', req(J[1] * J[1] + J[3] * J[3], a / det))] + \
        whit_common(x, i[6:10], o)


def w_info(i, o):
    x, U = i[:2], i[2:6]
    return [('value 0', req(o[0], U[0] * x[0] + U[1] * x[1])), ('value 1', req(o[1], U[3] * x[1]))] + \
        [('J %d' % k, req(o[4 + k], v)) for k, v in enumerate([U[0], U[1], R(0), U[3]])] + whit_common(x, i[6:10], o)


def cov_pre(i): return [pd2(i[2], i[3], i[5])]


def cov_sampler(rng):
    from specs.C13 import mats
    while True:
        c = mats(2)(rng)
        if c[0] > .05 and c[0] * c[3] - c[1] * c[1] > .05 * max(1, c[0], c[3]): break
    return [rng.uniform(-3, 3), rng.choice([0., rng.uniform(-3, 3)])] + c + [rng.uniform(-2, 2) for _ in range(4)]


def pos(*ix): return lambda i: [rgt(i[k], EPS) for k in ix]


def units(tier):
    us = []
    for k in ('sq', 'no'):
        us += [FnUnit('maha.cpp', 'h_%s_scalar' % k, 3, 5, pos(1), scal(k)),
               FnUnit('maha.cpp', 'h_%s_var' % k, 8, 8, pos(2, 3), vect(k, False)),
               FnUnit('maha.cpp', 'h_%s_varx' % k, 8, 8, pos(2, 3), vect(k, False)),
               FnUnit('maha.cpp', 'h_%s_cov' % k, 10, 8, cov_pre, vect(k, True), sampler=cov_sampler, merge=False, defs=('COV',), timeout=20),
               FnUnit('maha.cpp', 'h_%s_covx' % k, 10, 8, cov_pre, vect(k, True), sampler=cov_sampler, merge=False, defs=('COVX',), timeout=20),
               FnUnit('maha.cpp', 'h_%s_varm' % k, 8, 8, pos(2, 3), vect(k, False), defs=('COVX',))]
    us += [FnUnit('maha.cpp', 'h_sq_noscale', 4, 5, pos(2, 3), noscale),
           FnUnit('maha.cpp', 'h_w_iso', 7, 14, pos(2), w_iso), FnUnit('maha.cpp', 'h_w_std', 8, 14, pos(2, 3), w_std),
           FnUnit('maha.cpp', 'h_w_stdx', 8, 14, pos(2, 3), w_std),
           FnUnit('maha.cpp', 'h_w_cov', 10, 14, cov_pre, w_cov, sampler=cov_sampler),
           FnUnit('maha.cpp', 'h_w_covx', 10, 14, cov_pre, w_cov, sampler=cov_sampler),
           FnUnit('maha.cpp', 'h_w_info', 10, 14, None, w_info)]
    return us

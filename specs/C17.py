"""Gradient checker."""
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['diff::CheckGradient', 'diff::CheckResidualsGradient', 'MaxAbsDiff', 'losses::SquaredL2', 'diff::EstimateNumJac']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic, except in the units about NaN which use IEEE numbers',
               'objectives are quadratic and residuals affine with arbitrary coefficients, so that their numerical derivatives are known exactly',
               'up to three parameters', 'a difference exactly equal to the tolerance may be accepted or not']
NEAR, FAR = R(0.999), R(1.001)


def verdict(o, dist, eps, what=''):
    """dist: list of absolute differences."""
    return [(what + 'accepts differences below the tolerance', And(*[rle(d, NEAR * eps) for d in dist]), req(o, 1)),
            (what + 'rejects any difference above the tolerance', Or(*[rge(d, FAR * eps) for d in dist]), req(o, 0)),
            (what + 'accepts all differences below the tolerance', And(*[rlt(d, eps) for d in dist]), req(o, 1), 'proof'),
            (what + 'rejects every difference above the tolerance', Or(*[rgt(d, eps) for d in dist]), req(o, 0), 'proof')]


def num(rng): return 0.0 if rng.random() < 0.1 else round(rng.uniform(-3, 3), 2)


def check(n, meth):
    def pre(i): return [rgt(i[0], 0)]

    def goals(i, o):
        eps, A, B, x, G = i[0], i[4:4 + n], i[4 + n:4 + 2 * n], i[4 + 2 * n:4 + 3 * n], i[4 + 3 * n:4 + 4 * n]
        d = [rabs(A[k] + (eps / 10 * B[k] if meth == 'f' else 0) - G[k]) for k in range(n)]
        return verdict(o[0], d, eps) + [('parameter %d unchanged' % k, req(o[1 + k], x[k])) for k in range(n)]

    def sample(rng):
        eps = rng.choice([0.125, 0.5, 0.0625])
        v = [eps, float(rng.randrange(2))] + [num(rng) for _ in range(2 + 3 * n)]
        for k in range(n): v.append(v[4 + k] + (eps / 10 * v[4 + n + k] if meth == 'f' else 0) + rng.choice([0, 0.5, -0.5, 0.9, -0.9, 0.98, 1.05, -1.05, 1.5, -2]) * eps * rng.choice([1, 1, 0]))
        return v
    return pre, goals, sample


def nan(n, hess=0):
    def goals(i, o): return [('a NaN gradient entry is rejected', Implies(isnan(i[k]), Eq(o[0], F(0, 64)))) for k in range(n)] + [('a NaN Hessian entry is rejected', Implies(isnan(i[n + k]), Eq(o[0], F(0, 64)))) for k in range(hess)]

    def sample(rng): return [rng.choice([0.0, 0.0, 0.1, 1.0, float('nan')]) for _ in range(n + hess)]
    return goals, sample


def rcheck(m, n):
    def cut(i):
        b = 4 + m * n
        A = [[i[4 + r * n + k] for k in range(n)] for r in range(m)]
        return A, i[b:b + m], i[b + m:b + m + n], i[b + m + n:b + m + 2 * n], i[b + m + 2 * n:b + m + 2 * n + n * n]

    def pre(i): return [rgt(i[0], 0)]

    def dists(i):
        A, c, x, G, H = cut(i)
        return [rabs(v) for v in G], [rabs(v) for v in H]

    def goals(i, o):
        dg, dh = dists(i)
        noH = req(i[2], 0)
        g = [('gradient only: ' + t[0], And(noH, t[1])) + t[2:] for t in verdict(o[0], dg, i[0])]
        g += [('gradient and Hessian: ' + t[0], And(Not(noH), t[1])) + t[2:] for t in verdict(o[0], dg + dh, i[0])]
        return g + [('parameter %d unchanged' % k, req(o[1 + k], cut(i)[2][k])) for k in range(n)]

    def sample(rng):
        eps = rng.choice([0.125, 0.5, 0.0625])
        v = [eps] + [float(rng.randrange(2)) for _ in range(3)] + [num(rng) for _ in range(m * n + m + n)]
        for k in range(n + n * n): v.append(rng.choice([0, 0.5, -0.5, 0.9, -0.9, 0.98, 1.05, -1.05, 1.5, -2]) * eps * rng.choice([1, 0, 0]))
        return v
    return pre, goals, sample


def units(tier):
    r = []
    for meth in 'cqf':
        for fn, n in (('s', 1), ('v1', 1), ('v2', 2), ('v3', 3), ('vx', 2), ('u', 2), ('s_h', 1), ('v2_h', 2), ('vx_h', 3)):
            p, g, s = check(n, meth)
            r.append(FnUnit('gradcheck.cpp', 'h_%s_%s' % (meth, fn), 4 + 4 * n, 1 + n, p, g, s, defs=('VF_A',), nsamples=800))
    for fn, n in (('s', 1), ('v2', 2), ('v3', 3), ('vx', 3), ('u', 2), ('v2_h', 2)):
        g, s = nan(n)
        r.append(FnUnit('gradcheck.cpp', 'h_n_' + fn, n, 1, None, g, s, defs=('VF_N',), mode='fp', nsamples=800))
    for fn in ('res', 'ress'):
        g, s = nan(2, 4)
        r.append(FnUnit('gradcheck.cpp', 'h_n_' + fn, 6, 1, None, g, s, defs=('VF_N',), mode='fp', nsamples=800))
    for fn, m, n in (('s', 1, 1), ('s2', 2, 1), ('v2', 2, 2), ('v2_1', 1, 2), ('vx', 2, 2), ('v2s', 2, 2), ('ss', 1, 1), ('u', 2, 2)):
        p, g, s = rcheck(m, n)
        r.append(FnUnit('gradcheck.cpp', 'h_r_' + fn, 4 + m * n + m + 2 * n + n * n, 1 + n, p, g, s, defs=('VF_R',), nsamples=800, merge=fn != 'v2s'))
    return r

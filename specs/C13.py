"""Linear algebra helpers: inverse of a symmetric matrix, linear solve."""
from vf.terms import *
from vf.run import FnUnit

LEVEL = 'proof'
FUNCTIONS = ['DenseInvCov', 'InvCov', 'SparseInvCov', 'SolveLDLT', 'MaxAbsDiff']
ASSUMPTIONS = ['SolveLDLT of a singular positive semi-definite matrix returns the value chosen by Eigen (pseudo-inverse of the null pivots); '
               'the equation is only claimed for positive definite matrices']
TINY = R(1e-290)


def pd2(a, b, d): return And(rgt(a, TINY), rgt(d, TINY), rgt(a * d - b * b, TINY * rmax(a, d)))


def psd2(a, b, d): return And(rge(a, 0), rge(d, 0), rge(a * d - b * b, 0))


def inv2(i, o):
    a, b, d = i[0], i[1], i[3]
    ok, det = req(o[0], 1), a * d - b * b
    pd = pd2(a, b, d)
    return [('flag', Or(ok, req(o[0], 0))), ('positive definite matrices are inverted', pd, ok),
            ('not invertible', req(det, 0), req(o[0], 0), 'proof'),
            ('null rows are not invertible', And(req(b, 0), Or(req(a, 0), req(d, 0))), req(o[0], 0)), ('not positive', Not(psd2(a, b, d)), req(o[0], 0)),
            ('X00', pd, req(o[1], d / det)), ('X01', pd, req(o[2], -b / det)), ('X10', pd, req(o[3], -b / det)), ('X11', pd, req(o[4], a / det))]


def inv1(i, o):
    return [('inverts', rgt(i[0], 0), And(req(o[0], 1), req(o[1], 1 / i[0]))), ('not invertible', rle(i[0], 0), req(o[0], 0))]


def solve2(i, o):
    a, b, d, p, q = i[0], i[1], i[3], i[4], i[5]
    det = a * d - b * b
    pd = pd2(a, b, d)
    return [('flag', Or(req(o[0], 1), req(o[0], 0))), ('positive definite systems are solved', pd, req(o[0], 1)),
            ('not positive', Not(psd2(a, b, d)), req(o[0], 0)),
            ('x0', pd, req(o[1], (d * p - b * q) / det)), ('x1', pd, req(o[2], (a * q - b * p) / det))]


def solve1(i, o):
    return [('solves', rgt(i[0], TINY), And(req(o[0], 1), req(o[1], i[1] / i[0]))), ('not positive', rlt(i[0], 0), req(o[0], 0))]


def spsolve2(i, o):
    a, b, d, p, q = i[0], i[1], i[3], i[4], i[5]
    det = a * d - b * b
    pd = pd2(a, b, d)
    return [('flag', Or(req(o[0], 1), req(o[0], 0))), ('positive definite systems are solved', pd, req(o[0], 1)),
            ('x0', pd, req(o[1], (d * p - b * q) / det)), ('x1', pd, req(o[2], (a * q - b * p) / det))]


def spinv2(i, o):
    a, b, d = i[0], i[1], i[3]
    det = a * d - b * b
    pd = pd2(a, b, d)
    return [('flag', Or(req(o[0], 1), req(o[0], 0))), ('positive definite matrices are inverted', pd, req(o[0], 1)),
            ('not invertible', req(det, 0), req(o[0], 0), 'proof'),
            ('X00', pd, req(o[1], d / det)), ('X01', pd, req(o[2], -b / det)), ('X10', pd, req(o[3], -b / det)), ('X11', pd, req(o[4], a / det))]


def spinv2s(i, o):
    a, b, d, s = i[0], i[1], i[3], i[4]
    det = a * d - b * b
    A, D = a + s, d + s
    det2 = A * D - b * b
    pd = pd2(a, b, d)
    null = And(req(a, 0), req(b, 0), rge(d, 0), rge(s, R(1e-3)))
    X = lambda a, b, d, e: [d / e, -b / e, -b / e, a / e]
    return [('flag', Or(req(o[0], 1), req(o[0], 0))), ('positive definite matrices are inverted', pd, req(o[0], 1)), ('singular matrices are shifted', null, req(o[0], 1)),
            ('singular without shift', And(req(det, 0), rle(s, 0)), req(o[0], 0), 'proof')] + \
        [('X%d' % k, pd, req(o[1 + k], x)) for k, x in enumerate(X(a, b, d, det))] + [('shifted X%d' % k, null, req(o[1 + k], x)) for k, x in enumerate(X(A, b, D, det2))] + \
        [('singular X%d' % k, And(req(det, 0), rge(a, 0), rge(d, 0), rgt(s, 0)), And(req(o[0], 1), req(o[1 + k], x)), 'proof') for k, x in enumerate(X(A, b, D, det2))]


def maxdiff(i, o):
    n = len(i) // 2
    d = [rabs(i[k] - i[k + n]) for k in range(n)]
    return [('upper bound', And(*[rle(x, o[0]) for x in d])), ('attained', Or(*[req(x, o[0]) for x in d]))]


def shifted(rng):
    m = mats(2)(rng)
    if rng.random() < .4: m[0] = m[1] = m[2] = 0.0
    return m + [rng.choice((0.0, 0.5, rng.uniform(-1, 2)))]


def patterns(p):
    bit = lambda m, k: m >> (k // 2 + 2 * (k % 2)) & 1
    def f(i, o):
        g = []
        for q in range(16):
            g += [('%s, stored entries %d and %d' % (n, p, q), t) for n, t in maxdiff([i[k] if bit(p, k) else R(0) for k in range(4)] + [i[4 + k] if bit(q, k) else R(0) for k in range(4)], [o[q]])]
        return g
    return FnUnit('sparse.cpp', 'h_maxdiff_p%d' % p, 8, 16, None, f, nsamples=200)


def mats(n, extra=0):
    """Random symmetric matrices: positive definite, singular, indefinite, plus arbitrary ones."""
    def s(rng):
        k = rng.randrange(5)
        if k < 3:
            m = n if k == 0 else max(1, n - 1) if k == 1 else n + 1
            B = [[rng.choice([rng.uniform(-2, 2), float(rng.randint(-2, 2))]) for _ in range(m)] for _ in range(n)]
            A = [[sum(B[r][t] * B[c][t] for t in range(m)) + (0.1 if r == c and k == 2 else 0.) for c in range(n)] for r in range(n)]
            if rng.random() < .3:
                for r in range(n):
                    for c in range(r): A[r][c] = rng.uniform(-9, 9)      # only the upper part counts
        else:
            A = [[rng.choice([0., 1., -1., rng.uniform(-3, 3)]) for _ in range(n)] for _ in range(n)]
        return [x for r in A for x in r] + [rng.uniform(-3, 3) for _ in range(extra)]
    return s


def units(tier):
    return [patterns(p) for p in range(16)] + [
            FnUnit('sparse.cpp', 'h_spsolve2', 6, 3, None, spsolve2, sampler=mats(2, 2)),
            FnUnit('sparse.cpp', 'h_spinv2', 4, 5, None, spinv2, sampler=mats(2), merge=False),
            FnUnit('sparse.cpp', 'h_spinv2s', 5, 5, None, spinv2s, sampler=shifted, merge=False),
            FnUnit('sparse.cpp', 'h_maxdiff2', 8, 1, None, maxdiff),
            FnUnit('math.cpp', 'h_inv2', 4, 5, None, inv2, sampler=mats(2), merge=False),
            FnUnit('math.cpp', 'h_inv2x', 4, 5, None, inv2, sampler=mats(2), merge=False),
            FnUnit('math.cpp', 'h_inv1', 1, 2, None, inv1),
            FnUnit('math.cpp', 'h_inv1s', 1, 2, None, inv1),
            FnUnit('math.cpp', 'h_solve1', 2, 2, None, solve1),
            FnUnit('math.cpp', 'h_solve2', 6, 3, None, solve2, sampler=mats(2, 2), merge=False),
            FnUnit('math.cpp', 'h_solve2x', 6, 3, None, solve2, sampler=mats(2, 2), merge=False)]

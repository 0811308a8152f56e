"""Costs: counts, inliers, accumulation."""
from vf.terms import *
from vf.run import FnUnit

LEVEL = 'proof'
FUNCTIONS = ['Cost::Cost', 'Cost::operator+=', 'Cost::operator=', 'Cost::NumInliers', 'Cost::NumOutliers', 'Cost::AddResiduals',
             'Cost::isValid', 'Cost::operator<', 'Cost::operator<=', 'Cost::operator Scalar']
ASSUMPTIONS = ['double precision is treated as exact; every single precision operation carries a relative error of at most 2^-24 (standard rounding model, no overflow or underflow)',
               'residual counts are below 2^20, so machine integers do not overflow and convert exactly to single precision',
               'integers round as mathematical integers']
MX = 2 ** 20
DBLMAX = R(int(1.7976931348623157e308))
TOL = R(Fraction(1, 1000000))


def cpre(*offs):
    def f(i):
        r = []
        for o in offs: r += [rle(1, i[o + 1]), rle(i[o + 1], MX), rle(0, i[o + 2]), rle(i[o + 2], i[o + 1])]
        return r
    return f


def samp(nc, extra=0):
    def f(rng):
        p = []
        for _ in range(nc):
            n = rng.choice((rng.randint(1, 40), rng.randint(1, 40), rng.randint(1, 3000), rng.randint(1, MX)))
            k = rng.choice((rng.randint(0, n), rng.randint(0, n), n, 0))
            p += [rng.choice((rng.uniform(0, 10), 0.0, rng.randint(0, 4), 2.5)), float(n), float(k)]
        return p + [rng.choice((0.0, rng.uniform(-3, 3))) for _ in range(extra)]
    return f


def counts(o, cost, n, k, tag=''):
    return [(tag + 'cost', req(o[0], cost)), (tag + 'number of residuals', req(o[1], n)), (tag + 'number of inliers', req(o[2], k)),
            (tag + 'number of outliers', req(o[3], n - k)), (tag + 'inlier ratio', rle(rabs(o[4] - k / n), TOL))]


def b(x): return Ite(x, R(1), R(0))


def units(tier):
    def one(i, o): return counts(o, i[0], i[1], i[2]) + [('converts to its value', req(o[5], i[0])), ('valid', Not(req(i[0], DBLMAX)), req(o[6], 1))]
    def sm(n):
        def f(i, o): return counts(o, sum(i[3 * k] for k in range(n)), sum(i[3 * k + 1] for k in range(n)), sum(i[3 * k + 2] for k in range(n)))
        return f
    def empty(i, o):
        g = [('entry %d' % k, req(o[5 * t + k], 0)) for t in range(2) for k in range(4)]
        return g + [('an empty cost is not valid', req(o[10], 0))]
    def value(i, o): return counts(o, i[0], R(1), R(1)) + counts(o[5:], i[0], R(1), R(1), 'assigned ')
    def vec(n):
        def f(i, o):
            s = sum(i[3 + k] * i[3 + k] for k in range(n))
            return counts(o, s, R(n), R(n)) + counts(o[5:], i[0] + s, i[1] + n, i[2] + n, 'added ') + counts(o[10:], s, R(n), R(n), 'assigned ')
        return f
    def cmp_(i, o):
        x, y = i[0], i[3]
        return [('%d' % k, req(o[k], b(t))) for k, t in enumerate((rlt(x, y), rle(x, y), rlt(x, y), rle(x, y), rlt(y, x), rle(y, x), rlt(x, R(Fraction(5, 2))), rle(x, R(Fraction(5, 2)))))]
    kw = dict(tol=1e-9, atol=1e-9, rnd=True, timeout=4)
    C = 'cost.cpp'
    return [FnUnit(C, 'h_one', 3, 7, cpre(0), one, samp(1), ints=(1, 2), **kw),
            FnUnit(C, 'h_sum', 6, 5, cpre(0, 3), sm(2), samp(2), ints=(1, 2, 4, 5), **kw),
            FnUnit(C, 'h_sum3', 9, 5, cpre(0, 3, 6), sm(3), samp(3), ints=(1, 2, 4, 5, 7, 8), **kw),
            FnUnit(C, 'h_empty_l', 3, 5, cpre(0), sm(1), samp(1), ints=(1, 2), **kw),
            FnUnit(C, 'h_empty_r', 3, 5, cpre(0), sm(1), samp(1), ints=(1, 2), **kw),
            FnUnit(C, 'h_empty', 1, 11, None, empty, **kw),
            FnUnit(C, 'h_value', 1, 10, None, value, **kw),
            FnUnit(C, 'h_vec', 6, 15, cpre(0), vec(3), samp(1, 3), ints=(1, 2), **kw),
            FnUnit(C, 'h_vecx', 5, 15, cpre(0), vec(2), samp(1, 2), ints=(1, 2), **kw),
            FnUnit(C, 'h_mat', 7, 15, cpre(0), vec(4), samp(1, 4), ints=(1, 2), **kw),
            FnUnit(C, 'h_cmp', 6, 8, cpre(0, 3), cmp_, samp(2), ints=(1, 2, 4, 5), **kw)]

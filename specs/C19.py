"""Robust losses: documented formula, derivative scale, chain rule, on every input shape."""
import math
from vf.terms import *
from vf.run import FnUnit, LemmaUnit

LEVEL = 'proof'
FUNCTIONS = ['losses::Truncated', 'Huber', 'Tukey', 'Arctan', 'Cauchy', 'GemanMcClure', 'BlakeZisserman', '*Loss variants']
ASSUMPTIONS = ['exp/log/atan2 are known to the solvers only through: exp>0, exp(a+b)=exp(a)exp(b), congruence']


def rho(name, n2, t2):
    """documented loss as a function of the squared norm n2 and squared threshold t2"""
    th, n = Sqrt(t2), Sqrt(n2)
    return {
        'truncated': lambda: (t2, n2),
        'huber': lambda: (2 * th * n - t2, n2),
        'tukey': lambda: (t2, t2 * (1 - (1 - n2 / t2) ** 3)),
        'arctan': lambda: (th * app('atan2', n2, th),) * 2,
        'cauchy': lambda: (t2 * Log(1 + n2 / t2),) * 2,
        'geman': lambda: (n2 / (n2 + t2),) * 2,
        'blake': lambda: (-Log(Exp(-n2) + Exp(-t2)),) * 2,
    }[name]()


def value(name, n2, t2):
    o, i = rho(name, n2, t2)
    return Ite(rgt(n2, t2), o, i)


def deriv(name, n2, t2):
    """documented scale (derivative of the loss with respect to n2); lemma unit proves it against symbolic differentiation"""
    th, n = Sqrt(t2), Sqrt(n2)
    o, i = {
        'truncated': lambda: (R(0), R(1)),
        'huber': lambda: (th / n, R(1)),
        'tukey': lambda: (R(0), 3 * (1 - n2 / t2) ** 2),
        'arctan': lambda: (1 / (n2 * n2 / t2 + 1),) * 2,
        'cauchy': lambda: (1 / (1 + n2 / t2),) * 2,
        'geman': lambda: (t2 / ((n2 + t2) * (n2 + t2)),) * 2,
        'blake': lambda: (1 / (Exp(-t2) * Exp(n2) + 1),) * 2,
    }[name]()
    return Ite(rgt(n2, t2), o, i)


def lemmas():
    for name in ('truncated', 'huber', 'tukey', 'arctan', 'cauchy', 'geman', 'blake'):
        n2, t2 = var('n2', 'R'), var('t2', 'R')
        o, i = rho(name, n2, t2)
        pre = [rgt(n2, 0), rgt(t2, 0)]
        yield name + ' outlier derivative', pre + [rgt(n2, t2)], req(deriv(name, n2, t2), diff(o, n2))
        yield name + ' inlier derivative', pre + [rle(n2, t2)], req(deriv(name, n2, t2), diff(i, n2))


FLOOR = [R(2.2250738585072014e-308), R(1.1754943508222875e-38)]


def close(a, d, flt=0):
    """a = d, or a = max(d, smallest normal number): the code may floor the scale there"""
    return close2(a, d, R(1), flt)


def close2(a, d, j, flt=0):
    return Or(req(a, d * j), req(a, rmax(FLOOR[flt], d) * j))


def kink(name, n2, t2):
    return Not(req(n2, t2)) if name == 'truncated' else TRUE


def units(tier):
    us = [LemmaUnit('loss_calculus', lemmas)]
    for nm in ('truncated', 'huber', 'tukey', 'arctan', 'cauchy', 'geman', 'blake'):
        pos = lambda i: [rge(i[0], 0), rgt(i[1], 0), rlt(R(1e-6), i[1]), rlt(i[1], R(1e6)), rlt(i[0], R(1e6))]

        def scalar(i, o, nm=nm):
            n2, t2, j0, j1 = i
            v, d, k = value(nm, n2, t2), deriv(nm, n2, t2), kink(nm, n2, t2)
            return [('value', req(o[0], v)), ('value with scale', req(o[1], v)), ('scale is the derivative', k, close(o[2], d)),
                    ('value with jacobian', req(o[3], v)),
                    ('chain rule 0', k, close2(o[4], d, j0)), ('chain rule 1', k, close2(o[5], d, j1)),
                    ('pair value', req(o[6], v)), ('pair jacobian 0', k, close2(o[7], d, j0)), ('pair jacobian 1', k, close2(o[8], d, j1)),
                    ('non-negative', rge(o[0], 0)) if nm not in ('blake', 'cauchy', 'arctan') else ('same value everywhere', req(o[0], o[3])),
                    ]

        def flt(i, o, nm=nm):
            v, d, k = value(nm, i[0], i[1]), deriv(nm, i[0], i[1]), kink(nm, i[0], i[1])
            return [('value', req(o[0], v)), ('value with scale', req(o[1], v)), ('scale is the derivative', k, close(o[2], d, 1))]

        def vec3(i, o, nm=nm):
            x, t2 = i[:3], i[3]
            n2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
            v, d, k = value(nm, n2, t2), deriv(nm, n2, t2), kink(nm, n2, t2)
            g = [('value', req(o[0], v)), ('value with jacobian', req(o[1], v)), ('value with chain', req(o[5], v))]
            for a in range(3): g.append(('gradient %d' % a, k, close2(o[2 + a], d, 2 * x[a])))
            for c in range(2):
                g.append(('chain rule %d' % c, k, close2(o[6 + c], d, 2 * (x[0] * i[4 + c] + x[1] * i[6 + c] + x[2] * i[8 + c]))))
            return g

        def dyn2(i, o, nm=nm):
            n2, t2 = i[0] * i[0] + i[1] * i[1], i[2]
            v, d, k = value(nm, n2, t2), deriv(nm, n2, t2), kink(nm, n2, t2)
            return [('value', req(o[0], v)), ('gradient 0', k, close2(o[1], d, 2 * i[0])), ('gradient 1', k, close2(o[2], d, 2 * i[1])),
                    ('size', req(o[3], 2))]

        def res1(i, o, nm=nm):
            return [('value', req(o[0], value(nm, i[0] * i[0], i[1])))]

        us.append(FnUnit('robust.cpp', 'h_%s_scalar' % nm, 4, 9, pos, scalar, sampler=samp(4, 0, 1)))
        us.append(FnUnit('robust.cpp', 'h_%s_float' % nm, 2, 3, pos, flt, sampler=samp(2, 0, 1), tol=1e-4, atol=1e-4))
        p3 = lambda i: [rlt(R(1e-6), i[3]), rlt(i[3], R(1e6))]
        us.append(FnUnit('robust.cpp', 'h_%s_vec3' % nm, 10, 8, p3, vec3, sampler=samp(10, None, 3)))
        p2 = lambda i: [rlt(R(1e-6), i[2]), rlt(i[2], R(1e6))]
        us.append(FnUnit('robust.cpp', 'h_%s_dyn2' % nm, 3, 4, p2, dyn2, sampler=samp(3, None, 2)))
        p1 = lambda i: [rlt(R(1e-6), i[1]), rlt(i[1], R(1e6))]
        us.append(FnUnit('robust.cpp', 'h_%s_res1' % nm, 2, 1, p1, res1, sampler=samp(2, None, 1)))
    return us


def samp(n, inn, it):
    from vf.run import SPECIAL

    def f(rng):
        p = [rng.choice((rng.uniform(-3, 3), rng.uniform(-1, 1), rng.choice(SPECIAL[:10]))) for _ in range(n)]
        p[it] = rng.choice((0.5, 1.0, 1.69, 4.0, rng.uniform(0.01, 6)))
        if inn is not None:
            p[inn] = rng.choice((abs(p[inn]), rng.uniform(0, 10), p[it], p[it] * 0.5, p[it] * 2, 0.0))
        return p
    return f

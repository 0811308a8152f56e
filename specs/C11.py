"""Exported Hessian and covariance."""
from vf import solvers as S
from vf.terms import *
from vf.run import FnUnit
from vf.optunit import HessUnit
from specs.C10 import opre, osample

FUNCTIONS = ['SolverGN::Hessian', 'SolverLM::Hessian', 'SolverGN::Covariance', 'SolverLM::Covariance', 'SolverLM::Build', 'SolverGN::Build', 'Output::Covariance', 'InvCov']
ASSUMPTIONS = S.ASSUMPTIONS


def inv(n, has, c, h, s):
    """has/c describe s times the inverse of the matrix whose upper part is h"""
    if n == 1: return [('not invertible', rle(h[0], 0), req(has, 0)), ('covariance', rgt(h[0], S.TINY), And(req(has, 1), req(c[0], s / h[0])))]
    a, b, d = h[0], h[1], h[3]
    det, pd = a * d - b * b, S.pd2(a, b, d)
    return [('not invertible', req(det, 0), req(has, 0), 'proof'), ('null row', And(req(b, 0), Or(req(a, 0), req(d, 0))), req(has, 0)), ('not positive', Not(S.psd2(a, b, d)), req(has, 0)),
            ('invertible', pd, req(has, 1)), ('C00', pd, req(c[0], s * d / det)), ('C01', pd, req(c[1], -s * b / det)), ('C10', pd, req(c[2], -s * b / det)), ('C11', pd, req(c[3], s * a / det))]


def cov(n):
    def f(i, o):
        cost, cnt, r = i[n * n:]
        s = Ite(And(rgt(r, 0), rgt(cnt, n)), cost * cost / (cnt - n), R(1))
        return inv(n, o[0], o[1:], i, s)
    return f


def covs():
    r = []
    for n in (1, 2):
        m = S.mats(n)
        r.append(FnUnit('output.cpp', 'h_cov%d' % n, n * n + 3, 1 + n * n, lambda i, n=n: [Or(*[req(i[n * n + 1], k) for k in range(3)] + [And(rle(3, i[n * n + 1]), rle(i[n * n + 1], S.MX))])], cov(n), ints=(n * n + 1,), merge=False,
                        sampler=lambda g, m=m: m(g) + [g.choice((0.0, 1.0, g.uniform(0, 9))), float(g.choice((0, 1, 2, 3, 7, 100, 70000))), float(g.choice((0, 1)))]))
        for s in ('gn', 'lm'):
            r.append(FnUnit('output.cpp', 'h_%scov%d' % (s, n), n * n + 1, 1 + n * n, lambda i, n=n: [rge(i[n * n], 0)], lambda i, o, n=n: inv(n, o[0], o[1:], i, R(1)), merge=False,
                            sampler=lambda g, m=m: m(g) + [g.choice((0.0, 0.5, 0.0001220703125, 2.0))]))
    return r + [FnUnit('output.cpp', 'h_cov_none', 2, 2, None, lambda i, o: [('no covariance without a Hessian', And(req(o[0], 0), req(o[1], 0)))])]


def units(tier):
    ev = lambda r: float(r.choice((0, 1, 2)))
    q = lambda r: r.choice((0.0, 0.0, 0.5, 0.9))
    kw = dict(defs=('VF_DAMP',), tol=1e-5, atol=1e-7)
    n01 = lambda i: opre(i) + [Or(req(x, 0), And(rle(1, x), rle(x, S.MX))) for x in i[13:15]]
    return (S.second(lambda l, a, b: S.goals_export(l, b)) + S.evals('C11') +
            [FnUnit('solver.cpp', 'h_seq', 15, 8, opre, lambda i, o: [('exported Hessian %d' % k, req(o[k], 1)) for k in (1, 2, 4, 5, 7)],
                    sampler=lambda r: osample(r) + [ev(r), ev(r), q(r), q(r)], about='histories of two steps seen from outside', **kw),
             FnUnit('solver.cpp', 'h_seq_eval', 15, 6, n01, lambda i, o: [('exported Hessian %d' % k, req(o[k], 1)) for k in (2, 5)], ints=(13, 14),
                    sampler=lambda r: osample(r) + [ev(r), ev(r), float(r.choice((0, 1, 1))), float(r.choice((0, 1, 1)))], about='evaluations after the first build', **kw), HessUnit()] + covs())

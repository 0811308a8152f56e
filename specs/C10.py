"""Damping of Levenberg-Marquardt."""
from vf import solvers as S
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['SolverLM::SolverLM', 'SolverLM::reset', 'SolverLM::GoodStep', 'SolverLM::BadStep', 'SolverLM::FailedStep', 'SolverLM::Build']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic, also when options are stored in single precision',
               'the success factor is positive and the failure factor at least 1; the internal damping state is arbitrary within its invariant: '
               'damping not negative, failure factor at least the configured one']


def clamp(v, i): return Ite(rlt(v, i[S.RMIN]), i[S.RMIN], Ite(rgt(v, i[S.RMAX]), i[S.RMAX], v))


def opre(i): return [req(i[S.CLIP], 0), req(i[S.MIND], 0), rge(i[S.LAM], 0), rle(0, i[S.RMIN]), rle(i[S.RMIN], i[S.RMAX]), rgt(i[S.GOOD], 0), rge(i[S.BAD], 1)]


def osample(rng):
    f = lambda *l: float(rng.choice(l))
    return [0.0, 0.0, f(0, 1, 0.5, 2 ** -13, 1024, 0.125, 100), f(0, 0.0009765625, 0.25), f(1024, 1, 0.5), f(0.25, 0.5, 1), f(2, 1.5, 4, 1), 1.0, 1.0, 0.0, 0.0]


def damp(i, o):
    lam, ap, bf, q, e = i[11:16]
    op = req(o[3], 1)
    on, off = And(op, rgt(i[S.LAM], 0)), And(op, req(i[S.LAM], 0))
    good, bad = rlt(e, R(Fraction(1, 2))), rge(e, R(Fraction(1, 2)))
    inr = And(rle(i[S.RMIN], lam), rle(lam, i[S.RMAX]))
    undo = Ite(req(bf, i[S.BAD]), R(1), bf)
    return [('the damping stays in its range', on, And(rle(i[S.RMIN], o[0]), rle(o[0], i[S.RMAX]))),
            ('a success does not increase the damping', And(on, good, req(q, 0), inr, rle(i[S.GOOD], 1)), rle(o[0], lam)),
            ('a failure does not decrease the damping', And(on, bad, inr), rge(o[0], lam)),
            ('success factor', And(on, good, req(q, 0)), req(o[0], clamp(lam * i[S.GOOD] / undo, i))),
            ('failure factor', And(on, bad), req(o[0], clamp(lam * bf, i))),
            ('the failure factor grows with consecutive failures', And(op, bad), req(o[1], bf * i[S.BAD])),
            ('a success restores the failure factor', And(op, good), req(o[1], i[S.BAD])),
            ('the failure factor stays at least the configured one', op, rge(o[1], i[S.BAD])),
            ('a disabled damping stays disabled', And(off, req(lam, 0)), req(o[0], 0))]


def seq(i, o):
    e, q = i[11:13], i[13:15]
    lam, bf = i[S.LAM], i[S.BAD]
    g = [('initial damping', req(o[0], lam))]
    on = rgt(i[S.LAM], 0)
    for k in range(2):
        good = rlt(e[k], R(Fraction(1, 2)))
        lam = Ite(on, clamp(Ite(good, lam * i[S.GOOD] / Ite(req(bf, i[S.BAD]), R(1), bf), lam * bf), i), R(0))
        bf = Ite(good, i[S.BAD], bf * i[S.BAD])
        g.append(('damping after %d steps' % (k + 1), And(req(q[0], 0), req(q[1], 0)), req(o[3 * k + 3], lam)))
        g.append(('range after %d steps' % (k + 1), on, And(rle(i[S.RMIN], o[3 * k + 3]), rle(o[3 * k + 3], i[S.RMAX]))))
    return g


def reset(i, o):
    return [('initial damping', req(o[0], i[S.LAM])), ('the system is cleared', And(req(o[1], 0), req(o[2], 0))), ('the system is rebuilt', req(o[3], 1)),
            ('damping after a reset', req(o[4], i[S.LAM])), ('first failure after a reset', req(o[5], Ite(rgt(i[S.LAM], 0), clamp(i[S.LAM] * i[S.BAD], i), R(0))))]


def units(tier):
    ev = lambda r: float(r.choice((0, 1, 2)))
    q = lambda r: r.choice((0.0, 0.0, 0.5, 0.9, 0.1, 1.0, -0.5))
    kw = dict(defs=('VF_DAMP',), tol=1e-5, atol=1e-7)
    return [FnUnit('solver.cpp', 'h_damp', 16, 4, lambda i: opre(i) + [rge(i[11], 0), rge(i[12], 0), rge(i[13], i[S.BAD])], damp,
                   sampler=lambda r: (lambda p: p + [r.choice((p[S.LAM], 0.0, 0.5, 1.0, 3.0, p[S.RMIN], p[S.RMAX])), 0.5, p[S.BAD] * r.choice((1.0, p[S.BAD], p[S.BAD] ** 2)), q(r), ev(r)])(osample(r)), **kw),
            FnUnit('solver.cpp', 'h_seq', 15, 8, opre, seq, sampler=lambda r: osample(r) + [ev(r), ev(r), q(r), q(r)], about='histories of two steps seen from outside', **kw),
            FnUnit('solver.cpp', 'h_reset', 11, 6, opre, reset, sampler=osample, **kw)]

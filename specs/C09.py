"""Proposed steps."""
from vf import solvers as S
from vf.terms import *

FUNCTIONS = S.FUNCTIONS
ASSUMPTIONS = S.ASSUMPTIONS


def gd(l):
    def f(i, o):
        built, g = req(o[0], 1), l.exp_g(i)
        return [('built', req(o[0], Ite(rgt(i[l.cnt], 0), R(1), R(0)))), ('no step without residuals', req(i[l.cnt], 0), req(o[l.has], 0)), ('a step is proposed', built, req(o[l.has], 1)),
                ('step', built, And(*[req(d, -i[S.LR] * x) for d, x in zip(o[l.dx], g)]))]
    return f


def units(tier): return S.second(S.goals_system) + S.solves() + S.first(gd)

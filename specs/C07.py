"""Reuse of an optimizer: the first evaluation of a run builds a fresh system."""
from vf import solvers as S
from vf.optunit import OptUnit
from specs import C10

FUNCTIONS = ['Optimizer_::OptimizeAcc', 'Optimizer_::Step'] + S.FUNCTIONS
ASSUMPTIONS = S.ASSUMPTIONS


def units(tier):
    only = ('1_l', '2_lf', '2_iu', '2x_lf', '2x_grow')
    return [OptUnit(['C07'])] + S.second(lambda l, a, b: S.goals_zero(l), only=only) + S.first(S.goals_zero) + [u for u in C10.units(tier) if u.fn == 'h_reset']

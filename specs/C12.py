"""Cost scaling options."""
from vf import solvers as S

FUNCTIONS = S.FUNCTIONS
ASSUMPTIONS = S.ASSUMPTIONS


def units(tier):
    only = ('1_l', '2_lf', '2_iu', '2x_lf')
    return S.second(lambda l, a, b: S.goals_cost(l), only=only) + S.first(S.goals_cost) + S.evals('C12')

"""What the user callback receives."""
from vf import solvers as S
from vf.optunit import OptUnit

FUNCTIONS = S.FUNCTIONS
ASSUMPTIONS = S.ASSUMPTIONS


def units(tier):
    return S.second(lambda l, a, b: S.goals_zero(l)) + S.first(S.goals_zero) + S.evals('C08') + [OptUnit(['C08'])]

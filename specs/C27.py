"""Logging has no effect on the run."""
from vf.terms import *
from vf.run import FnUnit
from vf.optunit import LogUnit
from vf import solvers as S

FUNCTIONS = ['Optimizer_::OptimizeAcc', 'Optimizer_::Step', 'Optimizer_::ResizeIfNeeded', 'StopReasonDescription', 'Cost::toString', 'SolverGN::{Build,Solve,MaxStdDev}', 'SolverLM::{Build,MaxStdDev,stateAsString}', 'SolverGD::Build', 'OptimizeWithAutoDiff', 'InvCov']
ASSUMPTIONS = ['formatting of values as text and writing them is replaced by stand-ins that evaluate every argument and produce no text',
               'runs of two iterations with up to three evaluations, whose costs, gradients and Hessians are arbitrary doubles (NaN and infinities included)',
               'the clock does not advance (time limits are property C26)']
CLK = {'_ZNSt6chrono3_V212system_clock3nowEv': lambda e, s, a, i: BV(0, 64)}
NAMES = ('parameter 0', 'parameter 1', 'final cost', 'residuals', 'stop reason', 'iterations', 'failures', 'history size', 'first cost', 'relative decrease', 'evaluations', 'exported Hessian')


def goals(mode):
    eq = req if mode == 'real' else lambda a, b: Eq(a, b)
    return lambda i, o: [('same ' + n, eq(o[k], o[len(NAMES) + k])) for k, n in enumerate(NAMES)]


def sampler(n, sys):
    def f(r):
        odd = (0.0, 1.0, -1.0, float('nan'), float('inf'), 1e-9, 1e200)
        x = [r.choice((1.0, 1.0, 1.0, 0.0))] + [r.choice((0.0, 1.0)) for _ in range(8)] + [r.choice((0.0, 0.0, 0.1, 2.0)) for _ in range(4)] + [r.uniform(-2, 2) for _ in range(2)]
        if not sys: return x + [r.choice((0.0, r.uniform(-2, 2), r.uniform(-2, 2))) for _ in range(4)]
        for _ in range(3):
            x += [r.choice((abs(r.gauss(0, 2)), abs(r.gauss(0, 2)), r.choice(odd))), r.choice((1.0, 1.0, 1.0, 0.0))]
            x += [r.choice((r.gauss(0, 1), r.gauss(0, 1), r.choice(odd))) for _ in range(n + n * n)]
        return x
    return f


def units(tier):
    r = [LogUnit()] + S.logs()
    for g, n in (('s', 1), ('v1', 1), ('v2', 2)):
        for s in ('gn', 'gni', 'lm', 'lmi', 'gd'):
            r.append(FnUnit('logs.cpp', 'h_%s_%s' % (s, g), 15 + 3 * (2 + n + n * n), 24, None, goals('fp'), sampler=sampler(n, True), defs=('VF_' + g.upper(),), externs=CLK, mode='fp', nsamples=2000, bounded='runs of two iterations'))
    for s in ('gn_s', 'lm_s', 'gn_v1', 'lm_v1'):
        r.append(FnUnit('logs.cpp', 'h_ad_' + s, 19, 24, None, goals('fp'), sampler=sampler(1, False), defs=('VF_AD',), externs=CLK, mode='fp', nsamples=2000, bounded='runs of two iterations'))
    return r

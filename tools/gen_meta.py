#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (only properties that have a spec are claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/tinyopt/'
OPT, OUT, SR = I + 'optimizers/optimizer.h', I + 'output.h', I + 'stop_reasons.h'


def P(id, title, statement, over, qtext, why, files, mech, state, observe, hook=False):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=hook))


H = 'every sequence of costs, steps, solver outcomes and gradient norms the user function and linear solver can produce, of any length'
PROPS = [
 P('C01', 'Reported cost is the best cost evaluated, never worse than the start',
   'When an optimization returns, the reported final cost equals the smallest finite cost among all successful evaluations made during that run. It is therefore never larger than the cost at the starting point, and a later worse evaluation never replaces a better one.',
   ['histories', 'configurations', 'inputs'], H + ', for every option setting', 'tests run a handful of smooth problems that mostly decrease; rejected steps, plateaus and resumed decreases are rarely mixed',
   [OPT, OUT], [('accept/reject decision of one iteration', OPT + ' Step()'), ('main loop', OPT + ' OptimizeAcc()')],
   [('final cost', 'best cost so far', OUT + ' Output::final_cost')], ['return value of Optimize']),
 P('C02', 'Rejected steps are undone: parameters end at the best point or one step past it',
   'On return the parameters are exactly the evaluated point that gave the reported cost, or that point moved by the single step proposed last. Every step whose evaluation did not improve the cost has been undone, and no step is ever applied twice or partially.',
   ['histories', 'configurations', 'inputs'], H, 'roll-back only shows after particular accept/reject sequences ending at particular iterations',
   [OPT], [('apply / roll back', OPT + ' OptimizeAcc()')], [('parameters', 'user variable being optimized', 'caller'), ('last applied step', 'step to undo', OPT + ' OptimizeAcc()')], ['x after Optimize returns']),
 P('C03', 'NaN or infinite costs and steps are contained and reported',
   'If an evaluation yields a NaN or infinite cost, or the proposed step has a non-finite norm, the run stops with the dedicated NaN/Inf failure. The parameters are never moved by a non-finite step, a non-finite cost is never reported as the best cost, and such values never enter the recorded history.',
   ['histories', 'inputs', 'fault_sequences'], H + ' including NaN and infinities at any position', 'needs non-finite values at every possible iteration and combined with rejections',
   [OPT], [('NaN/Inf checks', OPT + ' Step()')], [('stop reason', 'why the run ended', OUT)], ['stop reason, x, final cost, history']),
 P('C04', 'Every run terminates within its iteration and evaluation budget',
   'A run performs at most the requested number of iterations plus one roll-back iteration (plus one more when the final cost check is enabled), and each iteration evaluates the user function a bounded number of times, whatever the solver answers. A negative iteration argument means the configured limit; the reported iteration count equals the iterations executed.',
   ['histories', 'configurations', 'inputs'], H + ', every iteration limit and failure limit including 0 and the largest representable values', 'unbounded retries and counter wrap-around need specific option values with a persistently failing solver',
   [OPT, OUT, I + 'optimizers/options.h'], [('iteration loop', OPT + ' OptimizeAcc()'), ('solve-retry loop', OPT + ' Step()')], [('counters', 'iterations and failures', OUT)], ['returns; num_iters; number of callback calls']),
 P('C05', 'The stop reason is truthful',
   'Each reported stop reason corresponds to a condition that really held when the run stopped: the cost, relative decrease, step or gradient fell under its enabled threshold, a failure limit, the iteration limit or the time limit was reached, the user asked to stop, or the failure occurred. A run never ends without a reason, a failure is never reported as success or convergence, and the success and convergence predicates agree with the reason.',
   ['histories', 'configurations'], H + ', for every combination of enabled thresholds', 'the reasons interact (several conditions hold at once, or fail and time out together)',
   [OPT, OUT, SR], [('stop tests', OPT + ' Step()'), ('classification', OUT + ' Succeeded/Converged')], [('stop reason', 'why the run ended', OUT)], ['Output::stop_reason, Succeeded(), Converged()']),
 P('C06', 'Recorded history is consistent with what happened',
   'The recorded per-iteration cost, squared step norm and success arrays always have the same length and one entry per completed evaluation, in order. An entry is marked successful exactly when its cost is strictly below every earlier recorded cost, and the failure counters count exactly the unsuccessful iterations and failed solves.',
   ['histories', 'configurations'], H, 'asserting it needs all accept/reject/failure interleavings',
   [OPT, OUT], [('history update', OPT + ' Step()')], [('errs, deltas2, successes', 'history', OUT), ('num_failures, num_consec_failures', 'failure counters', OUT)], ['Output fields']),
 P('C07', 'An optimizer object can be reused: each run starts from a freshly built system',
   'Running the same optimizer object again on any problem builds the system from the user function at the new starting point before any step is taken. No gradient, Hessian or evaluation-only mode left over from an earlier run, however it ended, influences the first step of the next run.',
   ['histories', 'programs'], 'every way a first run can end followed by any second run', 'needs a particular failing ending of a first run followed by reuse',
   [OPT, I + 'solvers/lm.h', I + 'solvers/gn.h'], [('start of a run', OPT + ' OptimizeAcc()'), ('rebuild flag', I + 'solvers/lm.h')], [('rebuild flag', 'evaluate only vs. rebuild the system', I + 'solvers/lm.h')], ['evaluation mode of the first callback of each run']),
 P('C08', 'User callbacks always receive a correctly sized, zeroed system',
   'Every time the user function is asked to accumulate derivatives it receives a gradient and Hessian of the current parameter dimension whose entries are all zero, for every solver and both for the first and later iterations. When only the cost is needed it is asked for the cost alone, and the stored gradient and Hessian are kept apart from the update of the damping.',
   ['histories', 'configurations', 'inputs'], 'every dimension, resize and previous content of the system', 'stale contents only show when callbacks accumulate and previous entries were non-zero',
   [I + 'solvers/gn.h', I + 'solvers/lm.h', I + 'solvers/gd.h', I + 'solvers/base.h'], [('Build/Accumulate/clear', I + 'solvers/gn.h'), ('resize', I + 'solvers/base.h')], [('gradient and Hessian', 'linear system', I + 'solvers/gn.h')], ['arguments of the user callback']),
 P('C09', 'Each solver proposes the step its method defines',
   'Gauss-Newton proposes the step solving the normal equations built from the accumulated (symmetrized) Hessian and gradient, Levenberg-Marquardt the same with the scaled damping on the diagonal, and gradient descent minus the learning rate times the gradient. When the linear system cannot be solved no step is proposed instead of a wrong one.',
   ['inputs', 'configurations'], 'every gradient and Hessian, upper or full storage, of the verified sizes', 'tests check convergence, which tolerates wrong scaling or missing symmetrization',
   [I + 'solvers/gn.h', I + 'solvers/lm.h', I + 'solvers/gd.h', I + 'math.h'], [('Solve', I + 'solvers/gn.h'), ('damping', I + 'solvers/lm.h'), ('SolveLDLT', I + 'math.h')], [('H, grad', 'system', I + 'solvers/gn.h')], ['return value of the solver Solve()']),
 P('C10', 'Damping stays in range and moves the right way',
   'From its first update on, Levenberg-Marquardt damping stays inside the configured range; a successful step multiplies it by the configured success factor and never increases it (unless the step quality approximation is enabled), a rejected or failed one multiplies it by the configured failure factor and never decreases it. Consecutive failures compound the failure factor, and the next success takes that compounded factor back. When damping is configured to zero it stays disabled throughout the run.',
   ['histories', 'configurations'], 'every sequence of good, bad and failed steps and every damping configuration', 'range clamping and disabled damping need long one-sided sequences',
   [I + 'solvers/lm.h'], [('GoodStep/BadStep/FailedStep', I + 'solvers/lm.h')], [('lambda', 'current damping', I + 'solvers/lm.h')], ['steps produced; solver state']),
 P('C11', 'The exported Hessian and covariance describe the undamped problem',
   'The Hessian returned with the result is the last accumulated Hessian without any damping, for every solver and every sequence of accepted, rejected and failed steps. The reported covariance is the inverse of that Hessian (optionally rescaled by the documented factor), and no covariance is returned when the Hessian cannot be inverted.',
   ['inputs', 'histories', 'configurations'], 'every system, damping and sequence of steps', 'tests look at one converged problem with negligible damping',
   [I + 'solvers/lm.h', I + 'solvers/gn.h', OUT, I + 'math.h'], [('Hessian()', I + 'solvers/lm.h'), ('Covariance()', OUT)], [('final_hessian', 'exported Hessian', OUT)], ['Output::final_hessian, Covariance()']),
 P('C12', 'Cost scaling options change only the reported scale',
   'With every combination of the cost options (square root or squared norm, halving, normalization by the number of residuals) the reported cost equals the documented transformation of the value returned by the user function, for every solver and every evaluation. The number of residuals and the inlier information pass through unchanged.',
   ['inputs', 'configurations'], 'every cost value, residual count and option combination', 'tests use the default options',
   [I + 'solvers/base.h', I + 'cost.h'], [('NormalizeCost', I + 'solvers/base.h')], [], ['Output::final_cost, errs']),
 P('C13', 'Linear algebra helpers meet their specification',
   'The matrix inverse and linear solve helpers, dense and sparse, return a matrix or vector satisfying the defining equation for every positive definite input, reading only the upper triangle. The inverse helper reports failure instead of returning a result when the matrix is singular, and the dense helpers report failure when the matrix is not positive semi-definite. The sparse difference helper returns the largest absolute difference of the entries.',
   ['inputs'], 'every symmetric matrix and right-hand side of the verified sizes', 'tests use a few well conditioned matrices',
   [I + 'math.h'], [('InvCov, SolveLDLT, SQRT helpers', I + 'math.h')], [], ['return values']),
 P('C14', 'Automatic differentiation numbers obey the rules of calculus',
   'For every operation on automatic-differentiation numbers the value part equals the operation applied to the values and the derivative part equals the derivative given by the differentiation rules, for any operand values and derivatives in the domain. Comparisons and classification depend on the value part only.',
   ['inputs', 'programs'], 'every operator and function, operand value and derivative vector', 'tests sample few operators at few points',
   [I + '3rdparty/ceres/jet.h', I + 'diff/jet_traits.h'], [('Jet operators', I + '3rdparty/ceres/jet.h')], [], ['results of Jet expressions']),
 P('C15', 'Automatic differentiation yields the exact gradient and Gauss-Newton Hessian',
   'Given residuals of any supported shape, the system assembled by automatic differentiation has the gradient equal to the transposed Jacobian times the residuals and the Hessian equal to the transposed Jacobian times the Jacobian, and the cost equal to the squared residual norm with the right residual count. In the unconstrained setting the scalar returned is treated as one residual: the cost reported is that scalar and the gradient is its derivative times it.',
   ['inputs', 'programs'], 'every residual function value and Jacobian, scalar, fixed and dynamic parameters and residuals', 'a wrong factor or transposed block still lets many tests converge',
   [I + 'diff/optimize_autodiff.h', I + 'diff/auto_diff.h'], [('accumulation lambda', I + 'diff/optimize_autodiff.h'), ('CalculateJac', I + 'diff/auto_diff.h')], [], ['gradient and Hessian given to the solver, CalculateJac result']),
 P('C16', 'Numerical differentiation is exact on the functions it should be exact on and leaves inputs unchanged',
   'Forward and central numerical differentiation return the exact Jacobian of every affine function, and central differences of every quadratic one, with entries in the right row and column, and evaluate the function only around the given point. The parameters passed in are unchanged afterwards, and the first and second order systems built from it follow the gradient and Hessian formulas.',
   ['inputs', 'configurations', 'programs'], 'every affine or quadratic function, point, step size and method', 'tests compare one function with a loose tolerance',
   [I + 'diff/num_diff.h'], [('EstimateNumJac', I + 'diff/num_diff.h'), ('CreateNumDiffFunc1/2', I + 'diff/num_diff.h')], [], ['returned Jacobian; x after the call']),
 P('C17', 'The gradient checker accepts exactly the gradients within tolerance',
   'The gradient checker returns true exactly when every entry of the user-supplied gradient differs from the numerical derivative by no more than the given tolerance, and never accepts a gradient containing NaN. The checked parameters are left unchanged.',
   ['inputs', 'configurations'], 'every user gradient, function value pattern and tolerance', 'tests check one right and one wrong gradient',
   [I + 'diff/gradient_check.h'], [('CheckGradient', I + 'diff/gradient_check.h')], [], ['return value']),
 P('C18', 'Parameter containers behave as the flat vector of their elements',
   'For every supported parameter type, scalars, fixed and dynamic vectors and matrices, pairs, arrays and vectors of them including nested ones, the reported dimension is the sum of the element dimensions. Adding a step moves every scalar of the container by exactly its own entry of the step, in storage order, and converting the scalar type preserves all values.',
   ['inputs', 'configurations', 'programs'], 'every parameter type of the verified shapes and every step', 'mixed and nested containers with unequal element sizes are not covered',
   [I + 'traits.h'], [('params_trait PlusEq/dims/cast', I + 'traits.h')], [], ['x after an update; DynDims']),
 P('C19', 'Robust losses follow their formulas and export their exact derivative',
   'Each robust loss returns the documented function of the squared norm and squared threshold for every input, inlier or outlier, scalar or vector. The exported scale or Jacobian is the exact derivative of the returned loss combined with the supplied Jacobian by the chain rule, and asking for derivatives never changes the value.',
   ['inputs', 'configurations'], 'every residual, threshold and supplied Jacobian, scalar and vector forms', 'tests use one threshold and two points per loss',
   [I + 'losses/robust_norms.h'], [('seven losses and their vector forms', I + 'losses/robust_norms.h')], [], ['returned loss and Jacobian']),
 P('C20', 'Norm losses and their Jacobians are exact',
   'The squared L2, L2, L1 and L-infinity losses return the norm of their argument, and their exported Jacobian is its (sub)gradient, combined with a supplied Jacobian by the chain rule, for scalars and vectors of either sign. Requesting derivatives never changes the value.',
   ['inputs', 'configurations'], 'every scalar or vector of the verified sizes', 'tests use positive values only',
   [I + 'losses/norms.h'], [('SquaredL2, L2, L1, Linf', I + 'losses/norms.h')], [], ['returned loss and Jacobian']),
 P('C21', 'Mahalanobis and whitening losses are exact for every covariance form',
   'The squared Mahalanobis distance, its norm and the whitened residual equal the values defined by the given covariance, information or square-root matrix, and the forms agree with each other. Exported Jacobians are the exact derivatives, combined with a supplied Jacobian by the chain rule.',
   ['inputs', 'configurations'], 'every residual and every (upper triangular, diagonal or full) matrix of the verified sizes', 'tests use one matrix',
   [I + 'losses/mahalanobis.h'], [('MahaSquaredNorm, MahaNorm, whitening', I + 'losses/mahalanobis.h')], [], ['returned values and Jacobians']),
 P('C22', 'Distance losses and their Jacobians are exact',
   'The Euclidean, Manhattan, maximum and Mahalanobis distances and the cosine similarity return the documented value and are symmetric in their arguments; the distances are non-negative and vanish for equal arguments. Their exported Jacobians are the exact derivatives with respect to the first and second argument.',
   ['inputs'], 'every pair of vectors of the verified sizes', 'tests evaluate few fixed pairs',
   [I + 'distances.h'], [('distance functions', I + 'distances.h')], [], ['returned values and Jacobians']),
 P('C23', 'Activations and softmax are exact, safe and consistent with their Jacobians',
   'Sigmoid, tanh, ReLU, leaky ReLU and the softmax variants return their documented values; softmax outputs are positive, sum to one, and the safe variant equals the plain one. Exported Jacobians are the exact derivatives of the returned values for scalars and vectors.',
   ['inputs', 'configurations'], 'every input vector of the verified sizes', 'tests use one vector and skip scalars',
   [I + 'losses/activations.h', I + 'losses/classif.h', I + 'losses/helpers.h'], [('loss definitions', I + 'losses/activations.h')], [], ['returned values and Jacobians']),
 P('C24', 'Cost accumulation adds costs, residual counts and inliers exactly',
   'Accumulating costs adds the costs and the residual counts, and the resulting inlier ratio is the ratio of all inliers to all residuals, whatever the order. The derived inlier count recovers the number of inliers exactly, an empty cost is neutral, and comparing or converting a cost uses its value only.',
   ['inputs', 'histories'], 'every pair and sequence of costs, counts and ratios', 'tests never accumulate',
   [I + 'cost.h'], [('Cost operators', I + 'cost.h')], [], ['Cost fields']),
 P('C25', 'The user function signature selects the documented differentiation path',
   'A function returning residuals is differentiated automatically when it accepts differentiation numbers and numerically otherwise, and a function that fills the gradient (and Hessian) is called directly; the result states whether numerical differentiation was used. All entry points give the same steps as the underlying optimizer run with the same options.',
   ['programs', 'configurations'], 'every supported callback signature, parameter type and entry point', 'tests only look at convergence',
   [OPT, I + 'optimize.h', I + 'diff/optimize_autodiff.h'], [('dispatch', OPT + ' Optimize()')], [('num_diff_used', 'numerical differentiation flag', OUT)], ['Output::num_diff_used, values given to the solver']),
 P('C26', 'Time limits and user stop requests end the run at once and safely',
   'When a stop callback asks to stop or the time limit is exceeded, no further iteration is started and the run reports it, unless a failure happened which stays reported. Callbacks receive the cost, squared step norm and squared gradient norm of the iteration just evaluated, and the parameters obey the same roll-back guarantee.',
   ['histories', 'schedules', 'configurations'], H + ' with callback answers and clock readings arbitrary', 'timing and callback answers at each iteration cannot be enumerated by tests',
   [OPT, I + 'optimizers/options.h', I + 'time.h'], [('stop callbacks', OPT + ' Step()'), ('time out', OPT + ' OptimizeAcc()')], [('duration', 'accumulated time', OUT)], ['stop reason, number of evaluations']),
 P('C27', 'Logging never changes the result',
   'For every logging configuration the optimization performs the same evaluations and returns the same parameters, costs, history, Hessian and stop reason as with logging disabled. Enabling any log option never makes a run fail.',
   ['configurations', 'histories'], H + ', with every combination of logging options', 'tests run with one log configuration',
   [OPT, I + 'log.h', I + 'solvers/gn.h'], [('log block', OPT + ' Step()')], [], ['Output and x with logging on and off']),
]

TECH = 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real headers, discharged by z3, cvc5 and a ring normaliser'
LEVELS = {}
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'levels.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'levels.py')) else None


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'specs', p['id'] + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in have: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    for p in have:
        i = p['id']
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': LEVELS.get(i, 'proof'),
                       'level_note': NOTES.get(i, 'every obligation is discharged for all inputs of the listed instantiations; assumptions are listed in the evidence file')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
         'notes': 'See DESIGN.md. Checks compile the harnesses in /verif/harness against /repo/include on every run.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')


main()

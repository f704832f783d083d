"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))
ALLRK = ['extensisq/common.py','extensisq/bogacki.py','extensisq/calvo.py','extensisq/cash.py','extensisq/prince.py',
         'extensisq/merson.py','extensisq/tsitouras.py']
RKN = ['extensisq/fine.py','extensisq/murua.py','extensisq/mikkawy.py']
IMP = ['extensisq/hosea.py','extensisq/kennedy.py','extensisq/kvaerno.py']
MULTI = ['extensisq/shampine.py','extensisq/sommeijer.py']

prop('C01','Every one-step method delivers its advertised order of accuracy',
 "For every smooth right-hand side (autonomous or not), every state and every step size, the new solution that an accepted step of a "
 "Runge-Kutta, Runge-Kutta-Nystrom or ESDIRK method publishes agrees with the Taylor expansion of the exact solution up to and including the "
 "method's advertised order (for Nystrom methods in both position and velocity; for ESDIRK with the stage equations solved). "
 "For CKdisc this includes the lower-order fallback results: the solution accepted at the fallback points is the exact solution there up to the order of the fallback formula (2 at the earlier point, 3 at the later one).",
 ['inputs','programs'],'all smooth ODE right-hand sides, states, step sizes and all step_impl paths that accept a step (including CKdisc fallbacks, with and without interpolant options)',
 'Tests check tables against order conditions only up to order 7 and never the code that applies the tables (overridden _step_impl, fallback solutions, MR6NN, Pr8, Pr9); integrations use a handful of problems with loose tolerances.',
 ALLRK+RKN+IMP,[('Butcher tableaus and _rk_stage/_comp_sol_err','extensisq/common.py'),('CKdisc fallback formulas','extensisq/cash.py'),('stage solve','extensisq/common.py ESDIRK._step_impl')],['solver.y after step()'])
prop('C02','A step is accepted only on a genuine embedded error estimate of the new solution',
 "Every accepted step of a Runge-Kutta, Nystrom or ESDIRK method passed the test that the root-mean-square norm of its local error estimate, each component divided by atol + rtol*max(|y_old|, |y_new|) with the y_new that is published, is below 1. "
 "That estimate is a difference of two solutions: it vanishes identically up to the order of the lower-order embedded formula and is non-zero at the next order, and the exponent used to choose the next step size after a rejection or acceptance is minus one over that next order. "
 "The preliminary estimates with which BS5 and CFMR7osc may reject a step early are likewise scaled error estimates of a consistent embedded formula.",
 ['inputs','programs'],'all right-hand sides, states, step sizes, tolerances and all paths to acceptance',
 'Tests check the B/E tables of some methods up to order 7, not the early-rejection tables, not the code that forms the estimate and scale, and not that each accepting path went through the test.',
 ALLRK+RKN+IMP,[('error test','extensisq/common.py RungeKutta._step_impl'),('_comp_sol_err / _estimate_error','extensisq/common.py'),('early rejection','extensisq/bogacki.py, extensisq/calvo.py')])
prop('C03','Dense output is accurate and continuous for every interpolant option',
 "For every Runge-Kutta, Nystrom and ESDIRK method and every value of its interpolant option, the dense output of a step returns the old solution at the beginning of the step and the new solution at the end (except at the end for Fi5N interpolant 1, which is documented to change the solution at the output point), and inside the step it matches the Taylor expansion of the exact solution at least up to the order documented for that interpolant. "
 "Where the documentation calls the interpolant C1 continuous (and for all Hermite interpolants) its time derivative at both ends equals the derivative f there as well. Evaluating with an array of times gives the same values as evaluating each time separately.",
 ['inputs','programs','configurations'],'all right-hand sides, steps, evaluation points inside the step, and all interpolant options of all methods',
 'Tests check only the default P tables at the step ends plus one plotted problem; the alternative interpolants, extra stages (BS5, Fi5N, Mu5Nmb), the fallback interpolants and their orders are never checked.',
 ALLRK+RKN+IMP,[('_dense_output_impl','all method classes'),('HornerDenseOutput, CubicDenseOutput, HornerDenseOutputNystrom, QuinticHermiteDenseOutput','extensisq/common.py'),('PiecewiseCubicDenseOutput','extensisq/hosea.py')])
prop('C04','Implicit methods have their documented L-/A-stability',
 "Applied with exact stage solves to the test equation y' = lambda*y, the step taken by each implicit method is A-stable (|R(z)| <= 1 for every z in the left half plane), and R(z) tends to 0 for z to infinity (L-stability) for TRBDF2, KC3I, KC4I, KC4Ia and Kv3I; TRX2 is A-stable. "
 "The embedded (secondary) solutions of KC3I, KC4I and KC4Ia are bounded at infinity in the way documented (L- or A-stable), so their error estimates do not blow up on stiff components.",
 ['inputs'],'all lambda with non-positive real part, all step sizes',
 'Tests integrate a few stiff problems; stability holds on an unbounded set of z that no sample settles.',
 IMP+['extensisq/common.py'],[('tableaus','extensisq/hosea.py, kennedy.py, kvaerno.py')])
prop('C05','After every step the published t, y, derivative and step data are consistent',
 "Whenever step() succeeds, for every one-step method: t has advanced from t_old by exactly the step that was taken, y is the solution computed for that t by that step from the old y, y_old is the y that was published before the step, and the derivative carried into the next step and used by the interpolants is fun(t, y) at the published t and y (for implicit methods: the slope satisfying the differential equation there). "
 "The step that dense output and step size control attribute to the last step equals t - t_old. For SSV2stab the derivative carried to the next step is fun at the published t and y and the interpolant uses the values and derivatives at t_old and t; for SWAG the derivative carried on is fun at the published t and y on every full step.",
 ['inputs','histories'],'all right-hand sides, states and step histories (accept, reject, fallback, final step)',
 'Tests observe end results of a few smooth problems; a stale derivative or wrong t only shows after specific accept/reject/fallback histories.',
 ALLRK+RKN+IMP+MULTI,[('end of _step_impl','all solver classes')],['solver.t','solver.y','solver.t_old','solver.dense_output()'])
prop('C06','Rejected and failed attempts leave no trace in the solution',
 "For every one-step method, the solution, derivative and dense output published by an accepted step depend only on the state at the start of the step and on the step size finally used (for implicit methods also on the Jacobian/LU factors used in Newton iteration), not on stage values or results of rejected attempts within that step or on previous dense output evaluations. "
 "A failed step() leaves t, y and t_old as they were before the call, in every solver. After a rejection, the step size for the next step is not increased.",
 ['histories','inputs'],'all sequences of rejected attempts before acceptance or failure, for all methods and options',
 'Rejections occur at a few points in a few tested problems and only final errors with loose bounds are asserted.',
 ALLRK+RKN+IMP+MULTI,[('attempt loop','_step_impl of all solver classes'),('K, K_extended work arrays','extensisq/common.py, bogacki.py, fine.py, murua.py')])
prop('C07','step() always terminates and never accepts a non-finite error estimate',
 "Every call of step() ends: each repeated attempt inside a step of a one-step method (and SSV2stab) either reduces the step size by at least a fixed factor below 1 or performs a one-time Jacobian refresh, and a step size below the minimum step ends the step with a failure. "
 "This also holds if the right-hand side returns NaN or infinity: an attempt whose error estimate is NaN is never accepted, and NaN never becomes the step size of a next attempt.",
 ['inputs','fault_sequences'],'all right-hand side values including NaN and infinities, at any stage, for all rejection sequences',
 'Tests contain one overflow problem for a few methods; NaN at a particular stage, and endless retry loops, need specific inputs.',
 ALLRK+RKN+IMP+['extensisq/sommeijer.py'],[('attempt loop and factor limits','_step_impl of all solver classes'),('ESDIRK._assess_error_and_stepsize','extensisq/common.py')])
prop('C08','Attempted steps respect max_step, t_bound and the minimum step',
 "No attempted step of any solver is larger than max_step or goes beyond t_bound, in either direction of integration, and the last step ends exactly at t_bound so that the integration finishes there. "
 "The initial step size, given or selected automatically, is subject to the same limits.",
 ['inputs','histories'],'all spans, directions, max_step, first_step and step histories',
 'Tests use a few spans with a fixed max_step; overshoot and landing depend on rounding of particular spans and on the step history.',
 ALLRK+RKN+IMP+MULTI,[('_reassess_stepsize','extensisq/common.py'),('step limits','extensisq/shampine.py, extensisq/sommeijer.py')])
prop('C09','Integration is equivariant under time reversal and rescaling of time',
 "Integrating backward is the mirror image of integrating forward: replacing t by -t and fun by -fun gives the same step sizes, solutions and dense output, in every solver. "
 "Likewise a change of the unit of time (t to c*t, fun to fun/c, and step size arguments times c) changes step sizes by c and leaves the solutions unchanged, apart from the smallest-step safeguards that are tied to machine constants and the increments of finite difference approximations. "
 "For the Nystrom methods the change of time unit (which also scales the velocity part of the state and of atol) is considered with the first step given, as the automatic first step takes norms over positions and velocities together.",
 ['inputs'],'all problems, both directions of integration, all time scales',
 'Tests run a few problems backward without comparing with the mirrored run; a lost sign or a missing factor h in step size selection only shows in step patterns.',
 ALLRK+RKN+IMP+MULTI,[('direction handling','_step_impl, h_start of all solvers')])
prop('C10','Error control is equivariant under rescaling and complex rotation of the state',
 "Multiplying the problem (y0, fun and atol) by a positive constant multiplies the solution by that constant and leaves the step sizes unchanged, in every solver. "
 "For complex problems, multiplying the problem by a complex number of modulus one leaves step sizes and acceptance decisions of the one-step methods unchanged: norms and error scales use the modulus of complex components, and step sizes and error norms stay real. "
 "Both are meant with the first step given, since the published algorithm for the automatic first step perturbs the state in a fixed direction and is not homogeneous.",
 ['inputs'],'all state scalings and complex phases, all methods',
 'Tests compare a few complex runs with loose tolerances and never compare scaled runs.',
 ALLRK+RKN+IMP+MULTI,[('norm, calculate_scale, h_start','extensisq/common.py')])
prop('C11','Solvers never modify data that belongs to the caller',
 "No solver or sensitivity function ever writes into an array or container passed in by the caller (y0, atol, jac, M, jac_sparsity, p, dy0dp, ...), or into an array returned by the user's functions (which may be the very array that was passed to them). "
 "The state arrays that a solver has published (solver.y, and hence the solution stored by solve_ivp) are not changed by later steps.",
 ['inputs','histories','programs'],'all user functions including ones that return their argument or a stored array, all methods and options',
 'The tests use right-hand sides that build fresh arrays and do not look at their inputs afterwards.',
 ALLRK+RKN+IMP+MULTI+['extensisq/sensitivity.py'],[('in-place operations','all modules')])
prop('C12','Solver instances are independent of each other',
 "Creating or using a solver never changes anything that another solver instance, or a later one, depends on: method coefficient tables and other class attributes and module-level data stay as they are after import (except for the documented statistics counters NFS, NFI, NLS, nfesig, maxm). "
 "No solver result or step size depends on those counters, and creating the same solver twice gives the same behaviour.",
 ['histories','configurations'],'all sequences of solver constructions and steps',
 'Each test builds solvers in isolation and checks error bounds, so coefficient drift between instances passes.',
 ALLRK+RKN+IMP+MULTI,[('class tables','all method classes'),('counters','extensisq/common.py, extensisq/sommeijer.py')])
prop('C13','Dense outputs are immutable snapshots and do not influence the integration',
 "A dense output object keeps returning the same values whatever the solver does afterwards: later steps, later dense outputs and evaluations of it never change the data it holds. "
 "Requesting or evaluating dense output does not change t, y, t_old, the step size, the carried derivative or anything else that influences later steps; only the count of function evaluations may change, and requesting dense output twice for the same step gives the same interpolant.",
 ['histories','configurations'],'all interleavings of step(), dense_output() and evaluations, for all interpolant options',
 'solve_ivp tests evaluate an interpolant directly after its step; nothing re-evaluates old interpolants after later steps of different kinds.',
 ALLRK+RKN+IMP+MULTI,[('_dense_output_impl and DenseOutput constructors','all solver classes')])
prop('C14','Evaluation and event counters are exact',
 "The user's right-hand side is only called through the solver's own wrapper (with the solver's dtype and vectorized handling applied); nfev increases by exactly one for every such evaluation other than those made to approximate a Jacobian, a spectral radius or consistent initial conditions (or, in the implicit methods, to select the first step), and by nothing else; njev and nlu count every Jacobian evaluation and LU factorisation. "
 "NFS counts every attempt rejected by the error test, NFI every attempt abandoned by failed stage iterations and NLS every linear solve, and each of these statistics (and nfesig and maxm of SSV2stab) starts at zero for each new solver that uses it.",
 ['histories','inputs'],'all step histories and options',
 'Tests assert nfev bounds for few runs; a counter that is off in one rejection path or a second instance is invisible.',
 ALLRK+RKN+IMP+MULTI,[('OdeSolver.fun wrapper','scipy base'),('NFS/NFI/NLS','extensisq/common.py')])
prop('C15','Documented options are accepted, validated and effective',
 "Every option documented for a solver class is accepted by it (no 'no effect' warning) and reaches the behaviour it controls, also through subclasses that forward options; omitting an option gives the documented default. "
 "Documented string choices are all accepted, invalid values (unknown interpolant or sc_params, out-of-range k_max, negative nfev_stiff_detect, non-boolean const_jac, non-positive max_step or first_step, wrong shape jac or M) raise an error, and unknown option names are reported with a warning.",
 ['configurations'],'all solver classes, all documented options and option values, alone and combined',
 'Tests set only a few options on a few classes.',
 ALLRK+RKN+IMP+MULTI,[('__init__ chains','all solver classes')])
prop('C16','Implicit stages are solved with a Newton matrix consistent with the equations',
 "In every ESDIRK method the stage solution satisfies M*z = h*f(t_stage, psi + d*z) when the iteration has converged: the residual includes the mass matrix, the iteration matrix is the derivative M - h*d*J of that residual for the step size in use (with the same row scaling applied to matrix and residual for DAEs), and for a problem with a constant Jacobian the factors in use always belong to the current step size. "
 "A step is never completed with a stage whose iteration did not converge, and after a failed iteration with an outdated Jacobian it is evaluated at the current point and factorised before trying again.",
 ['inputs','histories'],'all right-hand sides, mass matrices, Jacobians, step size histories and Newton outcomes',
 'Tests integrate a handful of stiff problems and DAEs; a stale factorisation or inconsistent matrix mostly costs efficiency or fails on particular histories.',
 ['extensisq/common.py']+IMP,[('ESDIRK._step_impl, _solve_implicit_stage, _preemptive_lu_and_jac','extensisq/common.py')])
prop('C17','Sensitivity functions integrate the correct variational and adjoint equations',
 "sens_forward integrates s' = J(t,y) s + df/dp with initial value dy0/dp next to y' = f; the adjoint functions integrate lambda' = -J^T lambda (minus dg/dy for the integral form) and the parameter quadrature backward along the forward solution with the right end conditions, and combine them into the gradient of the objective with respect to p, for every method choice; each analytic Jacobian they hand to an implicit method is the derivative of the system it accompanies. "
 "Documented argument forms (scalar or sequence tolerances, defaults) are handled: the tolerances of states, sensitivities, adjoint and integral components are the documented ones, every failed solver run raises RuntimeError, and results are returned in the documented order and shape.",
 ['inputs','configurations'],'all models, parameter vectors, objectives and method choices',
 'Tests use two small models with a few methods; terms that vanish there (time dependence, several parameters, the method-specific branches) are not exercised.',
 ['extensisq/sensitivity.py'],[('total_fun, fun_bw, jac_bw','extensisq/sensitivity.py')])
prop('C18','Stiffness detection never influences the computed solution',
 "Switching stiffness detection on or off, or changing nfev_stiff_detect, changes neither t, y, step sizes, acceptance decisions nor dense output of any explicit method: it may only cost function evaluations, and emit warnings or log messages. "
 "With nfev_stiff_detect=0 no function evaluations are spent on it.",
 ['inputs','histories'],'all problems, step histories and nfev_stiff_detect values',
 'The tests check warnings of stiff problems, not that the trajectory is unaffected.',
 ['extensisq/common.py','extensisq/bogacki.py','extensisq/calvo.py'],[('_diagnose_stiffness, stiff_a','extensisq/common.py')])
prop('C19','The tolerances in use are the requested ones, within documented bounds',
 "For every solver the relative tolerance used is the requested rtol limited to the interval from 10*epsneg to 0.1 and the absolute tolerance is the requested atol (scalar or per component) limited from below by the square root of the smallest number, in both cases of the dtype of the problem. "
 "A negative rtol or atol, an rtol that is not a float or an atol of wrong shape is rejected with ValueError in every solver, and both tolerances enter every error test.",
 ['inputs','configurations'],'all rtol and atol values and shapes, all solver classes',
 'Tests only use ordinary tolerances.',
 ['extensisq/common.py']+MULTI,[('validate_tol','extensisq/common.py')])
# not claimed
prop('C20','The global error of an integration is commensurate with the tolerances',
 "Integrating with rtol and atol gives a global error of the order of the tolerances for well-conditioned problems.",
 ['inputs'],'all well-conditioned problems and tolerances','Only sampled problems can be run.',
 ALLRK+RKN+IMP+MULTI,[('error control as a whole','all solvers')])
prop('C21','SWAG is a variable order Adams method with orders up to k_max',
 "Each step of SWAG with order k reproduces polynomials of degree k exactly, for every history of orders and step sizes, and its dense output has the matching order.",
 ['histories','inputs'],'all histories of order and step size changes','The coefficients depend on the whole history of step sizes and orders.',
 ['extensisq/shampine.py'],[('divided difference recurrences','extensisq/shampine.py')])
prop('C22','SSV2stab is second order accurate and stable on the negative real axis',
 "For every number of stages the Chebyshev recurrence gives a second order solution that is stable on an interval of the negative real axis growing with the square of the number of stages.",
 ['inputs'],'all stage counts and spectra','Only a few stage counts occur in tests.',
 ['extensisq/sommeijer.py'],[('_stages','extensisq/sommeijer.py')])
prop('C23','Stiffness is diagnosed correctly',
 "A warning is given if and only if the problem is stiff for the method (dominant eigenvalue outside the stability region).",
 ['inputs'],'all problems','Needs a power iteration on runtime data.',
 ['extensisq/common.py'],[('stiff_a','extensisq/common.py')])
prop('C24','The automatic initial step size gives a first step of suitable size',
 "The initial step selected is neither so large that important features are skipped nor needlessly small.",
 ['inputs'],'all problems','A quality statement about runtime values.',
 ['extensisq/common.py'],[('h_start','extensisq/common.py')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
    print(len(P))

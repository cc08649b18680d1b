#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place: python3 props.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
H = 'include/smooth/feedback/'
L = []


def p(id, title, statement, over, text, why, *mech, state=None):
    files = sorted({H + m[1].split(':')[0] for m in mech})
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=m[0], where=H + m[1]) for m in mech], hook_needed=None))
    assert len(title) <= 80, title
    L.append(d)


QPT = 'test_qp compares against a handful of fixed problems (and random ones with one seed); '

p('Q01', 'A solution reported Optimal satisfies the KKT conditions',
  'Whenever the QP solver reports Optimal, the returned primal-dual pair satisfies the constraints, stationarity and complementarity of '
  'the given (unscaled) problem within the requested absolute and relative tolerances. The same holds for the point returned with PolishFailed.',
  ['inputs', 'configurations'], 'every cost vector, every bound vector (two-sided, one-sided, free, equality), every warm start, every iteration count, '
  'scaling on or off, polishing on or off, static, dynamic and sparse problem types',
  QPT + 'the claim quantifies over a continuum of data and starting points, and over when the stopping test fires.',
  ('stopping criteria', 'qp_solver.hpp:check_stopping'), ('ADMM step', 'qp_solver.hpp:QPSolver::solve'), ('polishing', 'qp_solver.hpp:polish_qp'))
p('Q02', 'Infeasibility verdicts are sound',
  'The QP solver never reports PrimalInfeasible for a problem that has a feasible point of moderate size, and never reports DualInfeasible for a problem '
  'whose dual has a feasible point of moderate size (so that the objective is bounded below).',
  ['inputs', 'configurations'], 'every cost and bound vector consistent with a feasible primal (dual) point of 1-norm at most 1, every warm start, every number of iterations, tolerances at most 2^-12',
  QPT + 'no test asks for the absence of an infeasibility verdict over all starting points, and false certificates appear only for particular differences of consecutive iterates.',
  ('infeasibility certificates', 'qp_solver.hpp:check_stopping'))
p('Q03', 'Contradictory bounds are reported without iterating',
  'If some lower bound exceeds the corresponding upper bound, or a lower bound is +infinity, or an upper bound is -infinity, the solver reports PrimalInfeasible with zero iterations, whatever the rest of the problem and the parameters are.',
  ['inputs', 'configurations'], 'every position and kind of the contradiction, every other datum, every limit on iterations and time',
  'tests contain one infeasible problem; the claim is over every position of the contradiction.',
  ('bound validation', 'qp_solver.hpp:analyze'), ('early exit', 'qp_solver.hpp:QPSolver::solve'))
p('Q04', 'Iteration and time limits and exit codes are honoured',
  'The solver never performs more than the configured maximum number of iterations, reports MaxIterations only when exactly that number was used without a verdict, and reports MaxTime only when the configured time has passed. '
  'With a time limit only, it terminates at the first stopping check after that time. Other verdicts are given only at the configured check interval, and the code Unknown is never returned.',
  ['inputs', 'configurations', 'schedules'], 'every problem datum and warm start, max_iter 0..4, stop_check_iter 1..3, every sequence of clock readings',
  'tests run with one limit and a real clock; the behaviour depends on arbitrary clock instants relative to the check interval.',
  ('iteration loop', 'qp_solver.hpp:QPSolver::solve'), ('time limit', 'qp_solver.hpp:check_stopping'))
p('Q05', 'The reported objective and sizes belong to the returned point',
  'The objective value in the solution equals one half x\'Px plus q\'x at the returned primal point, with P the symmetric matrix given by its upper triangle; primal and dual vectors have the dimensions of the problem.',
  ['inputs', 'configurations'], 'every cost vector, bounds and warm start, every exit code that comes from iterating, scaling and polishing on or off, all problem types',
  QPT + 'the objective is checked for fixed problems only.',
  ('objective', 'qp_solver.hpp:QPSolver::solve'))
p('Q06', 'Warm starts are used faithfully',
  'Solving with zero iterations from a warm start returns that warm start, and warm starting at an exact optimum stays there and reports Optimal at the first check. Passing the solver its own previous solution as warm start gives the same result as passing a copy of it.',
  ['inputs', 'histories'], 'every warm start and every problem of which it is an optimum, scaling on or off',
  'the tests never compare a warm-started run with its starting point, nor alias the solver state.',
  ('warm start', 'qp_solver.hpp:QPSolver::solve'))
p('Q07', 'A solve does not depend on what the solver did before',
  'A solver object that was used for other problems, re-analyzed, copied, moved or assigned returns bit for bit the same solution, iteration count and exit code as a fresh solver given the same problem and warm start.',
  ['histories', 'inputs'], 'every pair of consecutive problems (different data, different sparsity pattern after re-analysis), every warm start, copies and moves at every point between',
  'tests reuse a solver on equal problems at most.',
  ('analysis and factorization reuse', 'qp_solver.hpp:analyze'), ('working memory', 'qp_solver.hpp:QPSolver::solve'))
p('Q08', 'All problem representations give the same answer',
  'The same problem stated with static, dynamic or sparse matrices, and with the full matrix P or only its upper triangle, leads to the same exit code, iteration count and (up to rounding) the same iterates. The convenience function agrees with the solver object.',
  ['inputs', 'configurations'], 'every cost, bounds and warm start within the stated boxes', 'tests compare representations for fixed data only.',
  ('dense and sparse assembly', 'qp_solver.hpp:QPSolver::solve'), ('scaling', 'qp_solver.hpp:scale'))
p('Q09', 'Scaling only changes conditioning',
  'With scaling enabled the solver still works on the stated problem: optimal points of the problem are fixed points of the iteration and are recognised as Optimal, zero rows or columns of the data never produce non-finite values, and tolerances refer to the unscaled problem.',
  ['inputs', 'configurations'], 'every optimum and multiplier as starting point for menus of badly scaled and degenerate (zero row, zero column, zero P, zero q) data',
  'tests run a few scaled problems.', ('scaling', 'qp_solver.hpp:scale'), ('unscaling', 'qp_solver.hpp:check_stopping'))
p('Q10', 'Polishing never makes a solution worse than what was verified',
  'Polishing an optimal solution yields either Optimal with a point that still satisfies the optimality conditions within tolerance, or PolishFailed with the point found before polishing. Polishing does not change the iteration count.',
  ['inputs', 'configurations'], 'every cost, bounds and warm start, every active set, 0..3 refinement steps, dense and sparse', 'tests polish a few well-conditioned problems.',
  ('polishing', 'qp_solver.hpp:polish_qp'), ('acceptance', 'qp_solver.hpp:polished_optimal'))

p('Q11', 'Diagnostic output does not change the result',
  'With diagnostic output enabled and no time limit the solver returns bit for bit the same solution, iteration count and exit code as without it, also in later calls.',
  ['inputs', 'configurations', 'histories'], 'every problem, start and exit code, with polishing and scaling', 'No test enables output; the output branches run on the working variables of the solver.', ('qp', 'qp_solver.hpp:QPSolver::solve'))
p('S01', 'Adding and writing blocks changes exactly the addressed entries',
  'Adding (writing) a scaled block at an offset changes (sets) exactly the addressed entries of the destination, only those on or above its diagonal when restricted to the upper triangle, for dense and sparse sources and row- or column-major destinations; all other entries keep their values.',
  ['inputs', 'configurations'], 'every value of destination, source and scale (as doubles), every offset and restriction flag, every storage order, compressed or not', 'tests use one block each.',
  ('block_add', 'utils/sparse.hpp:block_add'), ('block_write', 'utils/sparse.hpp:block_write'))
p('S02', 'Identity blocks, zeroing and zero marking act on the stored entries',
  'Identity blocks are added (written) on exactly the addressed diagonal; zeroing sets every stored entry to zero and keeps the pattern, for whole matrices and for compressed or uncompressed storage; counting and marking of explicit zeros agree with the stored entries.',
  ['inputs', 'configurations'], 'every stored value (as doubles, zeros included), every offset, both storage orders, both compression states, blocks of a matrix', 'tests use one matrix each.',
  ('identity', 'utils/sparse.hpp:block_add_identity'), ('zeroing', 'utils/sparse.hpp:set_zero'), ('zeros', 'utils/sparse.hpp:count_explicit_zeros'))
p('S03', 'The Hessian of a composed function follows the second-order chain rule',
  'Given first and second derivatives of two functions, the accumulated result equals the second derivative of their composition for every output, placed at the requested offset and added to what was there.',
  ['inputs'], 'every value of the four derivative arrays, dense and sparse, offsets', 'the test compares one composition against numerical derivatives.',
  ('d2r_fog', 'utils/sparse.hpp:d2r_fog'))
p('T01', 'Time types obey the arithmetic of a time line',
  'For floating-point times, durations and time points, adding a number of seconds and subtracting the original time gives that number back up to the resolution of the type, differences are signed seconds whatever the tick ratio, and adding zero changes nothing.',
  ['inputs'], 'every instant and offset in the stated ranges, tick ratios from nanoseconds to minutes, integer and floating representation', 'only compilation is tested.',
  ('time_trait', 'time.hpp:time_trait'))
p('I01', 'The Ipopt interface hands over the problem it was given',
  'The callbacks given to Ipopt describe exactly the wrapped nonlinear program: sizes, finite and infinite bounds, objective, gradient, constraints, Jacobian entries at their declared positions, and the lower-triangular Hessian of sigma f plus lambda\'g, independently of earlier calls; the final point, multipliers and status are stored unchanged and returned as the next starting point.',
  ['inputs', 'histories'], 'every point, multiplier, bound and sigma; repeated evaluation in any order; with and without Hessian', 'only compilation is tested.',
  ('adapter', 'compat/ipopt.hpp:IpoptNLP'))

p('I02', 'Ipopt solves honour start, options and available derivatives',
  'solve_nlp_ipopt starts Ipopt from the given primal and dual point if there is one and from zero otherwise, passes on every integer, string and numeric option with the options of the user winning over its own, has Ipopt use exact second derivatives only if asked to and available and a quasi-Newton approximation otherwise (never second derivatives the program or the adapter does not supply), works with programs without second derivatives, and returns the final point, multipliers, objective, iteration count and status of Ipopt unchanged.',
  ['inputs', 'faults'], 'every start, option value, final point and status; programs with and without second derivatives; given by value or reference', 'only compilation is tested.',
  ('solve', 'compat/ipopt.hpp:solve_nlp_ipopt'))

p('C01', 'The PID law is the documented one and its integral state is bounded',
  'The controller returns desired acceleration plus proportional, derivative and integral terms with the configured gains; the integral accumulates error times elapsed time between calls, ignores calls that do not advance time, never leaves the windup limit, and is zero after a reset.',
  ['inputs', 'histories'], 'every sequence of up to four calls with arbitrary times, states, velocities, references, gains and windup limits', 'test_pid runs two fixed scenarios; the integral state depends on the whole history of call times, errors and resets, and on saturation reached from either side.',
  ('control law', 'pid.hpp:PID::operator()'))
p('E01', 'EKF prediction integrates mean and covariance over exactly the given time',
  'Prediction over a time span with a maximal step covers exactly that span in steps not longer than the maximum, evaluates the dynamics and their Jacobian at the right times and states, keeps the covariance symmetric, uses only the upper triangle of the process covariance, and for one Euler step gives P + tau(AP + PA\' + Q).',
  ['inputs', 'configurations'], 'every state, covariance, process noise; every time span and step with at most four steps; Euler and Runge-Kutta steppers', 'test_ekf integrates a few fixed systems and compares with loose tolerances; wrong evaluation times, a short last step or use of the lower triangle change the result only for particular spans, steps and covariances.',
  ('prediction', 'ekf.hpp:EKF::predict'))
p('E02', 'EKF update is the Bayesian measurement update',
  'A measurement update yields the covariance (P^-1 + H\'R^-1H)^-1 and the corresponding mean; the covariance stays symmetric and does not grow, only upper triangles of covariances are used, and a measurement equal to its prediction does not move the mean.',
  ['inputs'], 'every state, covariance, measurement and noise within boxes that keep them positive definite; scalar and vector measurements', 'test_ekf uses a few fixed covariances; the claim is an identity between rational functions of all covariance, noise and measurement entries.',
  ('update', 'ekf.hpp:EKF::update'))
p('M01', 'A mesh partitions the unit interval',
  'Whatever sequence of construction and refinement produced it, the intervals of a mesh cover [0,1] without gaps or overlap; the nodes are strictly increasing from 0 to 1, one more than the number of collocation points; every time in [0,1] is located in the interval that contains it.',
  ['histories', 'inputs'], 'every sequence of up to three refinements, every number of intervals up to 4 and every degree, every time', 'test_collocation_mesh refines a few meshes in a fixed order; the partition has to survive every sequence of splits and degree changes.',
  ('mesh', 'collocation/mesh.hpp:Mesh'), ('lookup', 'collocation/mesh.hpp:interval_find'))
p('M02', 'Quadrature, differentiation and interpolation are exact for polynomials',
  'On every interval and after any refinement, the weights integrate, the differentiation matrix differentiates, the integration matrix integrates and the evaluation interpolates (with derivatives) every polynomial up to the degree the collocation points support.',
  ['inputs', 'histories'], 'every polynomial with coefficients in [-1,1], every degree of the mesh, every time', 'test_collocation_mesh evaluates a handful of polynomials on equal intervals; exactness is a statement about all polynomials up to a degree on intervals of every length.',
  ('weights', 'collocation/mesh.hpp:interval_weights'), ('differentiation', 'collocation/mesh.hpp:interval_diffmat'), ('evaluation', 'collocation/mesh.hpp:eval'))
p('M03', 'Refinement does what it promises and nothing else',
  'Refining an interval raises its degree to the target when that is permitted, otherwise splits it into equally long intervals of minimal degree, and never lowers a degree or touches another interval; error-driven refinement changes exactly the intervals whose error exceeds the target; degrees always stay within their limits.',
  ['histories', 'inputs'], 'every interval, target degree and error vector; sequences of refinements', 'test_collocation_mesh uses a few fixed error vectors; the rule branches on degree, limits and error in every interval.',
  ('refinement', 'collocation/mesh.hpp:refine_ph'), ('error driven', 'collocation/mesh.hpp:refine_errors'), ('degrees', 'collocation/mesh.hpp:decrease_degrees'))
p('F01', 'Mesh evaluation and its derivatives are consistent',
  'Evaluating a function on the mesh stacks its values at the collocation times (optionally weighted); the returned first derivative is the derivative of that value with respect to all variables, and the returned second derivative is the upper triangle of that of the multiplier-weighted value, also when result storage is reused.',
  ['inputs', 'histories'], 'every time span, state, input and multiplier; a family of nonlinear functions; several meshes; repeated calls', 'test_collocation_mesh_function compares with numerical derivatives at fixed points with loose tolerances; entries that vanish there, or stale entries of reused storage, go unnoticed.',
  ('mesh_eval', 'collocation/mesh_function.hpp:mesh_eval'))
p('F02', 'Mesh integration and its derivatives are consistent',
  'The integral over the mesh is the quadrature of the integrand over the time span; its first derivative is the derivative of that value with respect to all variables and its second derivative the upper triangle of that of the multiplier-weighted value, for any number of integrands and also when result storage is reused.',
  ['inputs', 'histories'], 'as for mesh evaluation', 'test_collocation_mesh_function compares with numerical derivatives at fixed points with loose tolerances and one integrand mostly.', ('mesh_integrate', 'collocation/mesh_function.hpp:mesh_integrate'))
p('F03', 'Collocation defects and their derivatives are consistent',
  'The defects vanish exactly when the interpolating polynomial satisfies the dynamics at the collocation points, for trajectories spanning several intervals; first and second derivatives are those of the defect, also when result storage is reused.',
  ['inputs', 'histories'], 'as for mesh evaluation, plus all polynomial trajectories of the supported degree', 'test_collocation_mesh_function compares with numerical derivatives at fixed points on equal intervals.', ('mesh_dyn', 'collocation/mesh_function.hpp:mesh_dyn'))
p('F04', 'The dynamics error estimate is zero for exact solutions and localises errors',
  'For trajectories that satisfy the dynamics and are polynomial of the supported degree, the estimated relative error of every interval is zero; the estimates are never negative, there is one per interval, and a perturbation confined to one interval changes only its estimate.',
  ['inputs'], 'every polynomial trajectory and time span', 'test_collocation_dyn_error has two fixed trajectories.', ('mesh_dyn_error', 'collocation/dyn_error.hpp:mesh_dyn_error'))
p('O01', 'The nonlinear program of an optimal control problem states that problem',
  'A discretized trajectory satisfies the constraints of the generated nonlinear program exactly when it satisfies the collocated dynamics, the integral definitions, the running constraints at every node and the end constraints; objective, sizes and bounds agree with the optimal control problem.',
  ['inputs', 'configurations'], 'every trajectory, duration and bound; several meshes', 'test_ocp_to_nlp compares derivatives of one program with numerical ones at one point; what the program states is not compared with the problem.', ('transcription', 'ocp_to_nlp.hpp:OCPNLP'))
p('O02', 'Derivatives of the generated nonlinear program match its functions',
  'Objective gradient and Hessian, constraint Jacobian and the Hessian of the multiplier-weighted constraints equal the derivatives of the returned objective and constraint values at every point, also on repeated evaluation.',
  ['inputs', 'histories'], 'every point and multiplier, repeated calls', 'test_ocp_to_nlp compares with numerical derivatives at one point; blocks that are dropped by the upper-triangle rule or vanish there go unnoticed.', ('derivatives', 'ocp_to_nlp.hpp:OCPNLP'))
p('O03', 'Converting between trajectories and program variables round-trips',
  'Converting an optimal control solution to program variables and back reproduces states and inputs at the nodes, duration, integrals and multipliers, for every mesh.',
  ['inputs', 'configurations'], 'every solution vector', 'conversions are only used on the way in one test that solves a problem.', ('conversion', 'ocp_to_nlp.hpp:nlpsol_to_ocpsol'))
p('O04', 'Flattening an optimal control problem preserves it',
  'The flattened problem evaluates to the original one at the lifted points, its dynamics are the error dynamics of the original, its derivatives match its values, and unflattening a solution gives the lifted trajectory.',
  ['inputs'], 'every nominal trajectory, deviation and time (vector spaces and a matrix group)', 'test_ocp_flatten compares with numerical derivatives at random points with loose tolerances; errors in high-order terms of the series are below those.', ('flattening', 'ocp_flatten.hpp:flatten_ocp'))
p('O05', 'The quadratic program of an optimal control problem is its linearization',
  'The generated quadratic program has the linearized collocated dynamics, running and end constraints and the second-order model of the objective around the given trajectory; partial updates give the same program as a full update.',
  ['inputs', 'histories'], 'every nominal trajectory, duration and problem data; updates in any order', 'test_ocp_to_qp has one problem on a vector space; terms for non-commutative spaces, several intervals and partial updates are never compared.', ('transcription', 'ocp_to_qp.hpp:ocp_to_qp_update'))
p('O06', 'Quadratic program solutions convert to the trajectory they describe',
  'The trajectory obtained from a solution of the generated quadratic program passes through the nominal trajectory plus the deviations at the nodes, with the given duration, and its type has the constraint dimensions of the problem.',
  ['inputs'], 'every solution vector, several meshes', 'test_ocp_to_qp looks at one solution.', ('conversion', 'ocp_to_qp.hpp:qpsol_to_ocpsol'))
p('O07', 'The derivative tester accepts exactly the problems whose derivatives agree',
  'Testing an optimal control problem reports success exactly when every given first and second derivative of every one of its functions agrees with the reference derivative within the tolerance at every trial point; derivatives that are not numbers are rejected.',
  ['inputs', 'configurations'], 'every trial point, every size and place of an error, in any trial', 'Tests use the tester as an oracle for correct problems; they never show that it rejects a wrong one.', ('ocp', 'ocp.hpp:test_ocp_derivatives'))
p('A01', 'The safety filter program enforces the barrier condition along the backup path',
  'Each barrier row of the generated program states the barrier decrease condition for the stated look-ahead time along the simulated backup trajectory with its sensitivity; input bounds and slack are stated as given, and the simulation reaches every look-ahead time in steps no longer than the maximum.',
  ['inputs', 'configurations'], 'every state, desired input, horizon, step and gain with up to three look-ahead times', 'test_asif checks that the filter runs for fixed states; the rows are never compared with the condition they should state.', ('assembly', 'asif_func.hpp:asif_to_qp_update'))
p('A02', 'The safety filter returns the filtered input of the current call only',
  'The filter returns the desired input plus the program\'s solution and its exit code; a desired input that satisfies all conditions is returned unchanged, and reusing a filter gives the program of the current call only.',
  ['inputs', 'histories'], 'every state and desired input, two consecutive calls', 'test_asif calls filters a few times with fixed data.', ('filter', 'asif.hpp:ASIFilter'))
p('X01', 'Model predictive control uses the current time, state, weights and warm start',
  'Each call linearizes around the desired trajectory at the given time, constrains the initial state to the given state, uses the weights set last, and returns desired input plus the first input deviation; resetting the warm start makes the next call independent of earlier ones.',
  ['inputs', 'histories'], 'every time, state, weight matrices; two consecutive calls', 'test_mpc exercises the interface; the program depends on time, weights, desired trajectory and the history of calls.', ('controller', 'mpc.hpp:MPC'))
p('X02', 'Predictive control cost functors report derivatives of the documented cost',
  'The Hessians of the tracking integrand and of the final cost are those of the documented quadratic cost for every symmetric weight matrix, in the positions of the variables they refer to.',
  ['inputs'], 'every symmetric weight matrix, including singular and non-diagonal ones', 'test_mpc does not look at the costs, and weights with zeros or unequal dimensions are never used.', ('functors', 'mpc.hpp:MPCIntegrand'), ('final cost', 'mpc.hpp:MPCObj'))
p('K01', 'The OSQP interface hands over the same problem and reports its result',
  'The OSQP wrapper passes exactly the given problem, parameters and warm start to the library and maps its status and solution back unchanged.',
  ['inputs'], 'every problem and library outcome', 'OSQP is not available to the tests.', ('adapter', 'compat/osqp.hpp:solve_qp_osqp'))
p('K02', 'ROS time obeys the arithmetic of a time line',
  'Adding seconds to a ROS time and subtracting the original gives those seconds back.', ['inputs'], 'every time and offset', 'ROS is not available to the tests.',
  ('time trait', 'compat/ros.hpp:time_trait'))

TODO = 'no check built yet'
NOT_APPLICABLE = {
}
TECH = 'symbolic execution of the compiled IR, Z3/cvc5 decide'


def main():
    import registry
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in L:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d in L:
        i = d['id']
        if i in registry.PROPS:
            checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                               technique=registry.PROPS[i].get('technique', TECH), level='model_checking', evidence_file='evidence/%s.json' % i,
                               level_note=registry.PROPS[i]['note']))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, TODO)))
    m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
             notes='Every check executes the LLVM IR of the repository\'s own functions symbolically (engine/), see DESIGN.md. No hooks in /repo are needed.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    print(len(L), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Rewrites the section "Properties" of DESIGN.md from properties.jsonl, registry.py and the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
P={json.loads(l)['id']:json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
T={}
def D(id,spec,oracle,cost): T[id]=(spec,oracle,cost)
D('Q01','KKT residuals of the returned pair, recomputed by the harness in plain loops from the unscaled data (primal violation, stationarity with P taken from its upper triangle, sign and complementarity of each multiplier), must lie within eps_abs + eps_rel * (largest term) whenever the code is Optimal or PolishFailed.','The solver runs symbolically from an arbitrary warm start for 1 to 10 (thorough 30) iterations with one check of the stopping test placed anywhere; the branch "all residual tests passed" becomes a path condition and the KKT claim is decided under it.','about 40 s; polishing and scaling configurations dominate')
D('Q02','A problem is built around a symbolic feasible point (or dual feasible pair) of 1-norm at most 1; the code must not be PrimalInfeasible (DualInfeasible).','The certificate tests are path conditions over consecutive iterates from arbitrary warm starts; eps_abs = eps_rel = 0 in most configurations so that optimality never hides a verdict. All kinds of rows (lower, upper, both, free, equality, fixed).','about 60-80 s')
D('Q03','Contradictory bounds (l > u, l = +inf, u = -inf, in any row, with any other rows) give PrimalInfeasible with iter = 0 and no iteration.','Position and kind are symbolic choices; all paths.','5 s')
D('Q04','iter <= max_iter; MaxIterations iff exactly that many; MaxTime only when the modelled clock has passed the limit; termination at the first check after it; verdicts only at checks; never Unknown.','The clock is a symbolic nondecreasing sequence (sx_clock), so every relation between instants, limit and check interval is covered.','20 s')
D('Q05','Objective equals 1/2 x\'Px + q\'x at the returned point with P read from its upper triangle; sizes.','Polynomial identity decided per path.','15 s')
D('Q06','Zero iterations return the warm start; an exact optimum (constructed from symbolic primal and dual points) is a fixed point recognised at the first check; aliasing the warm start with the solver\'s own solution equals passing a copy.','Two runs in one harness, compared term by term.','40 s')
D('Q07','Bit-for-bit equality with a fresh solver after histories of solve / analyze / copy / move / assign with other problems (other sizes and patterns).','Two executions in one path; equal terms are identified structurally, differing ones go to the solver; memory errors are reported as well.','45 s')
D('Q08','Same code, iteration count and iterates for static / dynamic / sparse, full P / upper triangle, solve_qp / QPSolver, row/column storage.','Two executions compared.','45 s')
D('Q09','With scaling on: optimal points stay optimal, returned points verified against the unscaled problem, no division by zero for zero rows/columns.','As Q01/Q06 with scaling = true, on badly scaled menus.','60 s')
D('Q10','After polishing: Optimal => KKT within tolerance; PolishFailed => the point before polishing; iter unchanged.','Polish of a symbolic optimum; two executions with and without polish.','15 s')
D('S01','Entry-wise effect of block_add / block_write against a dense copy.','Offsets and patterns are symbolic choices, values and scale symbolic; the whole destination is compared.','10 s')
D('S02','Same for identity blocks, set_zero, explicit-zero counting and marking (the marking is compared with the definition for each symbolic zero pattern).','Values symbolic in IEEE or real theory including zero.','5 s')
D('S03','d2r_fog output equals sum of chain-rule terms written out in loops.','Polynomial identity in all entries of the given derivatives.','10 s')
D('T01','plus/minus round trip, sign and zero law of time_trait for float, double, durations and time points of several tick ratios.','Integers are 64-bit vectors, doubles are reals for chrono types; conversions to single precision and of integers beyond 2^53 to double are modelled with their rounding error (an arbitrary one within half an ulp); IEEE bit-exact for the floating-point traits.','30 s')
D('I01','Each Ipopt callback against the wrapped NLP: sizes, bounds, objective, gradient, Jacobian/Hessian structure and values at their declared positions, in every call order listed; finalize stores everything, next start uses it.','The real class compiled against the installed Ipopt headers; x, lambda, sigma symbolic.','10 s')
D('C01','Control law recomputed by the harness from the documented formula; integral state observed through the output; histories of calls, resets, copies, moves.','Instants symbolic (also equal or decreasing).','30 s')
D('E01','The right-hand side is instrumented: every evaluation must be at a time inside the span and every step not longer than the maximum; final mean and covariance are compared with an explicit Euler / Runge-Kutta reference.','Step count branches symbolically; the upper triangle of Q only.','30 s')
D('E02','Information form: P+ (P^-1 + H\'R^-1H) = I, mean moves by P+ H\'R^-1 (y - h), symmetry, P - P+ positive semidefinite (all minors).','P = LL\' with symbolic L; rational identities decided by the nonlinear solver; larger cases with part of the data fixed.','50 s')
D('M01','Nodes, intervals, weights after histories of construction and refinement: partition of [0,1], strictly increasing nodes, interval_find for a symbolic t.','History choices symbolic; t symbolic.','15 s')
D('M02','Integration, differentiation, evaluation of p(t) = sum c_k t^k with symbolic c_k against the exact result.','Linear in c_k: decided for all coefficients at once.','20 s')
D('M03','Interval count, degrees, positions after refinement against the documented rule.','as M01.','15 s')
D('Q11','With verbose output the returned code, iteration count, point, multipliers and objective equal those without.','Two executions in one path, one with output (std::cout replaced by an object that ignores its input); one or two consecutive calls, with and without polishing and scaling.','55 s')
D('I02','The whole of solve_nlp_ipopt: start point, options in effect, use of second derivatives, the program as seen by Ipopt, and the returned solution.',"Ipopt's application object is replaced by a stand-in that records options, asks for the start and the derivatives as the documentation of Ipopt says (exact Hessian unless told otherwise), and returns an arbitrary final point. A unit that uses a program without second derivatives must compile.",'8 s')
D('O07','test_ocp_derivatives: true exactly when all given derivatives agree with the reference ones at all trial points, for errors at least 1/8 and below the tolerance, and for values that are not numbers; no calls without trials.','The claimed derivatives are polynomials with exact members; an error of symbolic size is planted at one entry of one derivative; std::rand is symbolic.','25 s')
for k,w in (('F01','MeshValue of mesh_eval'),('F02','mesh_integrate'),('F03','mesh_dyn')):
    D(k,w+': value against loops over nodes and the mesh\'s weights / differentiation matrix; dF and d2F against symbolic derivatives of the executed value and of lambda\'dF (upper triangle); storage fresh, reused, recompressed.','All variables symbolic; polynomial identities. Derivatives of polynomials of degree 3 in (t,x,u) with all cross terms.','20-30 s')
D('F04','mesh_dyn_error: zero for exact polynomial trajectories, one nonnegative value per interval, locality of a perturbation.','Polynomial coefficients and perturbation symbolic.','15 s')
D('O01','Each row of g with its bounds against the collocated dynamics, quadratures, running and end constraints recomputed from the OCP; objective; bounds on the variables.','Whole variable vector symbolic, meshes and shapes listed.','40 s')
D('O02','df, dg, d2f, d2g against symbolic derivatives of the executed f and g; repeated evaluation.','as O01.','40 s')
D('O03','nlpsol_to_ocpsol / ocpsol_to_nlpsol round trips, interpolants at nodes, multipliers.','as O01.','40 s')
D('O04','flatten_ocp: values at lifted points, error dynamics via dr_exp(e) de = f - Ad(exp(-e)) dxl, all Jacobians/Hessians against symbolic derivatives of the executed values; unflatten.','Nilpotent groups have polynomial exp/log/Ad, so that all claims are polynomial identities; filiform groups up to dimension 14 exercise the Bernoulli series up to order 12.','60-130 s')
D('O05','Every entry of P, q, A, l, u of ocp_to_qp against a direct linearization; partial updates (allocate/update with flags) against a full one.','as O04.','30 s')
D('O06','qpsol_to_ocpsol: trajectory through nominal plus deviation at the nodes.','as O04.','30 s')
D('A01','Rows of asif_to_qp against the decrease condition along the reference simulation (harness loop with steps min(dt, remaining)), sensitivity rows as symbolic derivative of the simulated path, bounds, slack column, cost.','Simulation step counts branch symbolically; sensitivities are identities.','25 s')
D('A02','ASIFilter: output, code, program of this call only; the real solver is replaced by a recording one that returns arbitrary values; and with the real solver: a safe desired input is returned unchanged.','histories of one to three calls.','20 s')
D('X01','MPC: the program handed to the solver against the linearization at the given instant with current weights, desired trajectory, warm start; output; histories.','recording solver; every instant, state, outcome symbolic.','30 s')
D('X02','MPC cost functors: value, Jacobian, Hessian against the documented quadratic cost.','identities for every symmetric weight pattern.','15 s')
D('K01','compat/osqp.hpp against a recording stand-in of the OSQP C API (stubs/osqp): CSC arrays, settings, warm start, status mapping, result, ownership (every setup cleaned up once).','every status symbolic.','30 s')
D('K02','compat/ros.hpp against stand-ins of rclcpp::Time/Duration with the documented int64 arithmetic.','64-bit integers as bit vectors.','5 s')
out=[]
for id in P:
    s,o,c=T[id]; r=registry.PROPS[id]
    out.append(f"### {id} - {P[id]['title']}\n\n* Specified: {s}\n* How: {o}\n* Bounds: {r['bounds']}. Outside: {r['outside']}.\n* Cost (quick, 8 cores): {c}. {len([j for j in r['jobs'] if j.get('tier')!='thorough'])} quick and {len(r['jobs'])} thorough configurations.\n")
p = os.path.join(V, 'DESIGN.md')
d = open(p).read()
i = d.index('## Properties\n')
j = d.index('## Defects found')
open(p, 'w').write(d[:i] + '## Properties\n\n' + '\n'.join(out) + '\n' + d[j:])

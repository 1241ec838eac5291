"""writes properties.jsonl (kept as code so that the statements stay reviewable)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})
M = "yaocptool/modelling/"
prop("C01", "A model is exactly what its history of declarations says",
     "After any sequence of create/include/remove/replace/parametrize/equation calls on a system model, its variable vectors hold exactly the declared and not removed variables in declaration order, each state keeps its own initial-condition symbol and the last right-hand side given for it (in whatever form it was given, also with structurally zero rows), and algebraic equations and control expressions are those declared with every replacement applied. A refused call (state declared twice, unknown variable removed, mismatched sizes, control parametrized twice) leaves the model as it was.",
     ["histories", "inputs"], "all call histories on a model, all variable shapes and equation forms",
     "The tests call each mixin method once or twice on tiny models; they never interleave removals, replacements and equations, nor look at the whole model afterwards.",
     [M + "system_model.py", M + "mixins/continuous_states_mixin.py", M + "mixins/algebraic_mixin.py", M + "mixins/control_mixin.py", M + "mixins/parameter_mixin.py", M + "utils.py", "yaocptool/util/util.py"],
     [("per-state equation table", M + "mixins/continuous_states_mixin.py"), ("vector removal by identity", "yaocptool/util/util.py remove_variables_from_vector")],
     ["model.x, y, u, p, theta, x_0, ode, alg, u_par, u_expr, *_names, has_variable, get_variable(s)_by_name(s), get_dae_system"])
prop("C02", "Copies of a model are equivalent and independent",
     "A copy of a model (shallow copy, deep copy, or the working model an optimal control problem makes of it) has the same equations, names and simulations as the original, and no later change to one is visible in the other. A deep copy shares no symbol with the original.",
     ["histories", "inputs"], "all models, all later edits of either side",
     "Tests compare shapes of a few copies; none edits one side through every kind of call and looks at the other.",
     [M + "system_model.py", M + "ocp.py"], [("get_copy / get_deepcopy", M + "system_model.py"), ("working copy", M + "ocp.py __init__, reset_working_model")])
prop("C03", "Simulation returns the solution of the declared equations",
     "For every well-posed model, SystemModel.simulate and DAESystem.simulate return at each requested time the solution of the declared differential-algebraic equations started at x_0 at time t_0 (to integration accuracy), with the parameters, per-element theta and per-element controls given, whatever integrator is chosen, and the reported times, algebraic values and controls belong to those instants. Splitting an interval or shifting the start of a time-invariant system does not change the trajectory.",
     ["inputs", "configurations"], "all models, initial values, time grids, parameter/theta/control values, integrators",
     "Tests run a handful of scalar systems from t_0=0 and compare with one number.",
     [M + "system_model.py", M + "dae_system.py", M + "simulation_result.py", M + "ocp.py"], [("element-wise integration loop", M + "system_model.py simulate"), ("integrator creation", M + "dae_system.py simulate")])
prop("C04", "DAE system transformations preserve the system's behaviour",
     "Joining two DAE systems, substituting a variable, and converting element time tau into time each give a system whose equations evaluate exactly as the combination, the renaming, or tau=(t-t_k)/(t_kp1-t_k) prescribe, and whose simulation equals that of the parts. Variable membership and dependence queries answer according to the current equations.",
     ["inputs", "histories"], "all DAE systems, all intervals and renamings", "Tests check one fixed example per method.",
     [M + "dae_system.py", "yaocptool/util/util.py", M + "system_model.py"], [("join/substitute/convert", M + "dae_system.py")])
O = "yaocptool/optimization/"
prop("C05", "An optimization problem contains exactly what was included in it",
     "After any sequence of create/include/set calls, the problem's variables, parameters, objective, constraints and bounds are those given, aligned element by element and in order; a relational constraint means the same as the explicit bound form, whichever side the constant is on. Ill-formed items (crossing bounds, wrong sizes, bounds depending on the problem's symbols, non-relational or doubly dependent constraints) are refused and leave the problem unchanged.",
     ["histories", "inputs"], "all construction histories, vector sizes, bound forms",
     "Tests sample single calls with one or two sizes and never check alignment of the whole problem after a history or after a refusal.",
     [O + "abstract_optimization_problem.py", "yaocptool/util/util.py"], [("include_* methods", O + "abstract_optimization_problem.py")])
prop("C06", "Solving an optimization problem returns its constrained minimiser",
     "For convex programs, solving the nonlinear or quadratic problem object returns the constrained minimiser with matching objective and constraint values for the given parameters and bounds. Solving again - after other parameters, other bounds, or after the problem was extended - gives the solution of the problem as it then stands. The solver options given to a problem are the ones it is solved with and affect no other problem.",
     ["inputs", "histories"], "all strictly convex quadratic programs with linear constraints, parameters, repeated solves",
     "Solving is not exercised by the passing tests at all.", [O + "abstract_optimization_problem.py", O + "nonlinear_problem.py", O + "quadratic_problem.py"],
     [("solver call arguments", O + "abstract_optimization_problem.py solve")])
S = "yaocptool/methods/"
prop("C07", "The discretized program is the optimal control problem on the grid",
     "For every optimal control problem, scheme, number of elements and degrees, the program built by the direct method has as feasible points exactly the trajectories that satisfy, on the chosen grid, the initial condition, the dynamics and algebraic equations, continuity, the variable and control-move bounds, and every path, initial, final and parameter constraint at the instants its declaration names; and its objective is the final cost plus the integral cost plus the element costs of that trajectory.",
     ["inputs", "configurations"], "all problems, both schemes, degrees, element counts, time intervals",
     "No passing test builds a discretized program.", [S + "classic/collocationscheme.py", S + "classic/multipleshooting.py", S + "base/discretizationschemebase.py", S + "classic/directmethod.py", S + "base/solutionmethodsbase.py"],
     [("discretize", S + "classic/collocationscheme.py, multipleshooting.py")])
prop("C08", "A direct solution is feasible and optimal for the original problem",
     "Solving a (convex) optimal control problem returns trajectories that satisfy the problem's dynamics and every declared constraint and bound, with a reported objective equal to the cost of those trajectories and equal, up to discretization accuracy, to the true optimum, for every scheme, degree, integrator, initial-guess heuristic, initial state, parameter and theta value. The optimum does not depend on the choice of scheme, nor, for time-invariant problems, on a shift of the time interval.",
     ["inputs", "configurations"], "all linear-quadratic problems with constraints, all configurations",
     "All solving tests fail offline; even where they run they compare one number for one configuration.", [S + "base/solutionmethodsbase.py", S + "classic/directmethod.py", S + "classic/collocationscheme.py", S + "classic/multipleshooting.py", M + "ocp.py"],
     [("solve pipeline", S + "base/solutionmethodsbase.py")])
prop("C09", "The indirect method agrees with the minimum principle and the direct method",
     "For unconstrained smooth convex problems the indirect method returns the trajectories, control and cost that the minimum principle (and the direct method) give: states obey the dynamics, adjoints obey the adjoint equations and transversality conditions, and the control is stationary for the Hamiltonian. Final equalities hold with their multipliers in the transversality condition, a state that accumulates the cost reports it, and a bounded control is the stationary one clipped to its bounds.",
     ["inputs", "configurations"], "all linear-quadratic problems, both schemes", "No passing test reaches the indirect method.",
     [S + "classic/indirectmethod.py", M + "ocp.py"], [("create_adjoint_states", M + "ocp.py"), ("optimal control substitution", S + "classic/indirectmethod.py")])
prop("C10", "Solution methods are repeatable and leave their inputs alone",
     "Solving is a function of its arguments: solving again with the same arguments, with other solves, other arguments or other solver objects in between, gives the same result as the first time and as a new method on the same problem declared anew. Building a method and solving leave unaltered the model the problem was made from, the option dictionaries and defaults, the guess, parameter, theta, initial-state and last-control arguments, and the results returned before; once prepared, the problem itself is not altered by further solves. Options given to one solver never influence another. A solve with missing or wrongly sized initial state, parameters or thetas is refused and changes nothing.",
     ["histories", "configurations"], "all interleavings of solver construction and solves", "Every test builds one solver and solves once.",
     [S + "base/solutionmethodsbase.py", S + "classic/directmethod.py", S + "augmented_lagrangian.py", M + "ocp.py"], [("options merge, call argument preparation", S + "base/solutionmethodsbase.py")])
prop("C11", "Results report the solution they were made from",
     "The trajectories, times, parameters, costs and dataset exposed by an optimization result agree with one another and with the decision vector of the solved program: each variable found by name or index is that variable's row, optimised parameters and thetas replace the given values, times start at t_0, end at t_f and increase, the first control is the first reported value of the control, the objective is the cost of the reported trajectory, and the dataset contains every reported point once, in order.",
     ["inputs", "configurations"], "all problems, schemes and degrees", "No passing test looks at a result object.",
     [S + "base/optimizationresult.py", S + "base/solutionmethodsbase.py", S + "base/discretizationschemebase.py", S + "classic/collocationscheme.py", S + "classic/multipleshooting.py", S + "classic/directmethod.py"], [("result filling", S + "base/solutionmethodsbase.py create_optimization_result")])
prop("C12", "Data sets keep every inserted point, aligned and in time order",
     "For any sequence of create-entry, insert, extend, sort and copy operations, each entry holds exactly the inserted (time, value) columns, sorted stably where sorting was asked, other entries and copies stay untouched, and the dataframe, the plot selection and a save/load round trip reproduce the same data. Inconsistent insertions or extensions are refused.",
     ["histories", "inputs"], "all operation histories on data sets and simulation results", "There is no test of data sets.",
     [M + "dataset.py", M + "simulation_result.py"], [("insert/extend/sort", M + "dataset.py")])
prop("C13", "Bounds and guesses follow their variables through problem editing",
     "After any sequence of create/include/remove/connect/optimization-parameter/replace calls on an optimal control problem, each variable has exactly the bounds, move bounds, guess and initial value declared for it (infinite when none), constraints (with the instants each one was declared for) and costs are those declared with every replacement applied, and the pre-solve check accepts exactly the consistently sized problems. Argument lists and dictionaries given by the user are left as they were.",
     ["histories", "inputs"], "all edit histories of an optimal control problem", "No test edits an optimal control problem.",
     [M + "ocp.py", M + "stochastic_ocp.py"], [("include_/remove_/connect", M + "ocp.py")])
prop("C14", "Composing models and problems preserves each part",
     "Including, merging or connecting models, merging optimal control problems, and building the composed problem of a network gives a system whose trajectories, costs, constraints and bounds restricted to each part are those of the part with the connections applied (u equal to the connected y), sharing one time variable; the parts themselves are not changed. With no connections the optimum is the sum of the parts' optima.",
     ["inputs", "histories"], "all sets of models/problems and connection patterns", "Tests merge two trivial models and compare sizes.",
     [M + "system_model.py", M + "ocp.py", M + "network/network.py", M + "network/node.py"], [("include_models/connect/merge", M + "system_model.py, ocp.py"), ("composed problem", M + "network/network.py")])
prop("C15", "The augmented Lagrangian method follows its multiplier laws and converges",
     "For every problem with relaxed algebraic equations, time equalities or state bounds, the method (with its updates enabled) changes the multipliers between iterations by the penalty times the violation of their own equation at their own point, and the penalties by the chosen rule (constant, bounded increase, primal), and when it reports convergence the relaxed constraints hold to its tolerance and the trajectory, cost and constraint set agree with solving the unrelaxed problem directly. The arrays of bounds the user gave are left as they were.",
     ["inputs", "configurations"], "all linear-quadratic DAE problems and relaxation choices", "No passing test reaches the method.",
     [S + "augmented_lagrangian.py"], [("multiplier and penalty update", S + "augmented_lagrangian.py")])
prop("C16", "Control parametrization changes the representation, not the meaning",
     "Replacing a control by an expression of parameters, thetas, states, other controls or time makes model, problem, simulation and direct optimization (objective, trajectories, remaining free controls, optimized gains) behave exactly as if the expression had been written in its place; in simulation the reported control is the expression's value; a refused parametrization (already parametrized, other size) changes nothing; the piecewise constant and piecewise polynomial controls of the direct methods are the polynomials through their reported values, as functions of tau and of time.",
     ["inputs", "configurations"], "all parametrizations and degrees", "Tests check that a flag is set.",
     [M + "mixins/control_mixin.py", M + "ocp.py", S + "base/solutionmethodsbase.py", "yaocptool/util/util.py"], [("parametrize_control", M + "mixins/control_mixin.py"), ("create_control_approximation", S + "base/solutionmethodsbase.py")])
prop("C17", "Vector, theta and polynomial utilities obey their algebraic definitions",
     "Finding and removing variables by symbol, name or index, building and joining theta dictionaries, recognising equalities and inequalities, matrix exponentials, tau/time conversion and polynomial approximations give, for every input, the values of their set-theoretic or mathematical definition, and out-of-range or inconsistent arguments are refused.",
     ["inputs"], "all vectors, index sets, theta dictionaries, matrices, degrees", "Tests use one or two literals per function.",
     ["yaocptool/util/util.py"], [("utilities", "yaocptool/util/util.py")])
prop("C18", "Sampling and surrogate fitting reproduce the distributions they are asked for",
     "The sampling helpers return the requested number of well spread points, mean + Cholesky factor of the covariance times standard normal points (log-normal: the exponential of the normal points around log(mean)); the polynomial-chaos basis is made of products of Hermite polynomials with their exact second moments, and its least-squares factor is that of the regression on the sampled basis, so that every polynomial of the basis degree is reproduced from its samples. A stochastic problem holds exactly the uncertain parameters, uncertain initial conditions (means, block covariances, distributions) and chance constraints declared, in order, and refuses inconsistent sizes.",
     ["inputs"], "all means, covariances, sample counts, polynomial degrees", "There is no test of this code.",
     ["yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py", M + "stochastic_ocp.py"], [("sampling, ls factor", "yaocptool/stochastic/pce.py"), ("declarations", M + "stochastic_ocp.py")])
prop("C19", "The closed loop applies each control once and keeps a faithful record",
     "A simulated plant advances exactly from its current time by the sampling interval under the control it was given, and the recorded closed-loop trajectory of plant and controller equals simulating the model element by element with the applied controls; each step's control is the first control of the optimal solution for the measured (or estimated) state, parameters and thetas. Measurements are the measurement matrix times the plant's state and algebraic values, plus noise of the declared covariances when switched on; every applied control and measurement is recorded once, at its time.",
     ["histories", "inputs"], "all plants, sampling times, control sequences and numbers of iterations", "There is no test of the closed loop.",
     ["yaocptool/mpc/plant.py", "yaocptool/mpc/mpc.py"], [("plant step", "yaocptool/mpc/plant.py"), ("mpc loop", "yaocptool/mpc/mpc.py")])
prop("C20", "Symbols survive transport between processes and time limits are honoured",
     "Symbolic values sent through the library's serializer (also many in a row, also through a process pool) come out equal in value and structure. A time limit interrupts only code that exceeds it, reports whether it fired, never leaves an alarm or handler behind (a limit or timer of the caller stays in force), and lets every other exception through, also one raised while the interruption is being handled.",
     ["inputs", "fault_sequences"], "all symbolic expressions and sequences of them; all positions of an exception or timeout", "There is no test of this code.",
     ["yaocptool/util/serializer.py", "yaocptool/util/timeout.py"], [("pickler", "yaocptool/util/serializer.py"), ("alarm", "yaocptool/util/timeout.py")])
prop("C21", "Equilibria, algebraic values and linearizations satisfy their equations",
     "find_equilibrium returns states, algebraic variables and inputs at which the derivatives, the algebraic equations and the additional equations vanish; find_algebraic_variable returns algebraic values that satisfy the algebraic equations at the given state, input, time and parameters; linearize returns the first-order model of the dynamics at the given point.",
     ["inputs"], "all well-posed models and points", "Tests do not call them with parameters, time or several variables.",
     [M + "system_model.py", M + "mixins/algebraic_mixin.py"], [("rootfinder set-up", M + "system_model.py find_equilibrium"), ("", M + "mixins/algebraic_mixin.py find_algebraic_variable")])
prop("C22", "Kalman filters give the exact estimate on models linear in the states",
     "For models linear in the states (also with parameters, thetas, bilinear inputs, time-varying terms) and every history of measurements and controls, the extended filter (without algebraic variables), the unscented and the polynomial-chaos filter return and keep the mean and covariance of the Kalman recursion: prediction of the model over one sampling interval, correction with the measurement (matrix with feedthrough, or function; the extended filter linearizes it at the prediction, the polynomial-chaos filter uses its exact moments for quadratic functions); the unscented and polynomial-chaos filters form the measurement covariance from the propagated samples, without the process noise, as their references do. The data set records each estimate at its measurement time, and the filter's own time advances by one interval per estimate. The rank-one update of a triangular factor gives the factor of the updated (or downdated) matrix.",
     ["histories", "inputs"], "all linear models, noise covariances, measurement functions and histories", "There is no test of the estimators.",
     ["yaocptool/estimation/extended_kalman_filter.py", "yaocptool/estimation/unscented_kalman_filter.py", "yaocptool/estimation/pce_kalman_filter.py"],
     [("update", "yaocptool/estimation/extended_kalman_filter.py estimate"), ("sigma points", "yaocptool/estimation/unscented_kalman_filter.py"), ("coefficients", "yaocptool/estimation/pce_kalman_filter.py _priori_update")])
prop("C23", "The polynomial-chaos conversion optimizes the expansion over the samples",
     "The deterministic problem PCEConverter makes of a stochastic problem has, for every sample of the uncertain parameters and initial conditions (numeric or symbolic means), a copy of the states and of the running cost, all under the same control, ordinary parameters, thetas, time window, bounds, inequalities and optimized parameters of the original; its optimum is that of the mean of the expansion of the costs; the reported coefficients, means and variances (of the cost, of requested expressions and of chance constraints) are those of the least-squares expansion, and chance constraints hold in the one-sided Chebyshev form. Final and initial-time costs and constraints on states or algebraic variables, which the conversion does not support, are refused. The stochastic problem is left as it was: it can be converted again.",
     ["inputs", "configurations"], "all stochastic problems with linear dynamics per sample, orders and sample counts", "There is no test of this code.",
     ["yaocptool/stochastic/pce.py", M + "stochastic_ocp.py"], [("model of the samples", "yaocptool/stochastic/pce.py _create_model"), ("problem", "yaocptool/stochastic/pce.py _create_problem"), ("statistics", "yaocptool/stochastic/pce.py _include_statistics_of_expression")])
N = S + "network/"
prop("C24", "Distributed solution of a network converges to the composed optimum",
     "Solving a network of optimal control problems by DistributedAugmentedLagrangian (nodes in turn, or each against the others' last values) or BipartiteJacobiADMM, with direct connections of one or several variables or intermediary nodes, follows its algorithm for any network, order of blocks, grid and penalty rule: each node minimises its cost plus multiplier and penalty terms of its own connections with the last values of the other side (the problem's guess at first, the mean of both sides in the bipartite form), each connection's multiplier moves by the penalty times its violation, both ends alike, and the loops end at their tolerance or iteration limits. The results, objective, iteration numbers and connection violations reported are those of the last iterates, and when the violations vanish with the inner loop converged, trajectories and objective are those of the composed problem.",
     ["inputs", "configurations"], "all networks of linear-quadratic problems in which every node is connected, all options", "There is no test of the distributed methods.",
     [N + "distributedaugmetedlagrangian.py", N + "bipartite_jacobi_admm.py", N + "intermediary_node_solution_method.py", S + "augmented_lagrangian.py", S + "base/distributed_optimization_result.py", M + "network/network.py"],
     [("outer and inner loop, exchange of values", N + "distributedaugmetedlagrangian.py"), ("averaged exchange", N + "bipartite_jacobi_admm.py"), ("closed-form intermediary", N + "intermediary_node_solution_method.py")])
prop("C25", "The solver starts from the declared, given or simulated point",
     "For every problem, scheme, grid and heuristic, the starting point of the solver is: with 'problem_info', the guess (or initial state) declared for each variable at every point of the grid, zero where none is declared; with 'simulation', the trajectory of the initial guess model (or the problem's own, with the given transforms of the result and the state) from x_0 under the given or guessed control, parameters and thetas, zeros where none is given; with a given vector or solution dictionary, exactly that. Optimization parameters and thetas start at the values given for them in the call, zero when none are given, and packing and unpacking a point of the grid are inverse to each other. With the indirect method the adjoint states, the multipliers of algebraic equations and of final equalities and the cost start at zero.",
     ["inputs", "configurations"], "all problems, grids, guesses and ways of passing them", "Tests only check that a solve from the default guess succeeds.",
     [S + "classic/collocationscheme.py", S + "classic/multipleshooting.py", S + "base/solutionmethodsbase.py", S + "base/discretizationschemebase.py"],
     [("create_initial_guess, create_initial_guess_with_simulation", S + "classic/collocationscheme.py, multipleshooting.py"), ("choice of the start", S + "base/solutionmethodsbase.py _get_solver_call_args")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

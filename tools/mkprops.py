"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NLP = "the NLP handed to casadi.nlpsol (f, g, x, p) and the bounds/parameters of every NLP call"

prop("C01", "The transcription selects exactly the vector field of the active region",
 "At any state off all region boundaries the algebraic equations and bounds posed to the NLP (relaxation at zero) are satisfied only by multipliers that put all weight on the region whose sign pattern (row of S, or smallest Stewart indicator) matches the state, and the state derivative admitted there is the sum over the subsystems of that region's column of F; on a boundary exactly the convex combinations of the adjacent regions are admitted. This holds for the Stewart representation (dense S or user indicators), for the Step representation (any S, subsystems with different numbers of regions, general inclusions with user-provided alpha). The initial multipliers passed as NLP parameters are those of the current initial state, each in the slot of the subsystem and sign it belongs to.",
 ["programs", "inputs"], "all piecewise smooth models (number of subsystems, regions, S patterns), both representations, all states",
 "The tests use one- or two-region toy systems and only look at the end state of a solved trajectory; a wrong region product, a swapped column or a mis-ordered initial multiplier for a second subsystem is never exercised.",
 ["nosnoc/model.py", "nosnoc/problem.py"],
 [("preprocess_model: upsilon products, g_switching, g_convex, f_x, lambda00 expression", "nosnoc/model.py"),
  ("FiniteElementBase.Lambda / NosnocSolverBase.setup_p_val: order of the initial multipliers", "nosnoc/problem.py, nosnoc/solver.py")],
 observe=[NLP])

prop("C02", "Switches cannot happen in the interior of a finite element (FESD)",
 "With FESD on and the relaxation at zero, a point is feasible for the NLP only if, for every subsystem, no region (or step variable value) with positive weight at any integration stage of a finite element has a positive multiplier at any integration stage of that element, at its right boundary, or at the right boundary of its predecessor (for the first element: at the initial state). Consequently the active set changes only at element boundaries where the switching function is zero, for every cross complementarity mode, integration scheme, representation, control stage layout and number of subsystems. With FESD off only the same-stage pairs are required.",
 ["programs", "configurations", "inputs"], "all assignments of signs and weights to the stage and boundary points, all option combinations",
 "The tests check a final state or one switch time to 1e-5 on a scalar example; a missing stage pair, a missing boundary multiplier or a pair dropped for the second subsystem or second control stage leaves those numbers unchanged.",
 ["nosnoc/problem.py"],
 [("create_complementarity_constraints (both cross complementarity modes)", "nosnoc/problem.py"),
  ("right boundary multipliers and their switching constraint", "nosnoc/problem.py"),
  ("Theta / Lambda / get_Lambdas_incl_last_prev_fe", "nosnoc/problem.py")], observe=[NLP])

prop("C03", "Every exact trajectory that switches at element boundaries is feasible",
 "Every exact solution of the piecewise smooth system whose switches coincide with finite element boundaries (crossing, sliding, leaving a sliding mode, several switches, switches at control stage boundaries, zero-length elements), together with its natural multipliers, satisfies all constraints of the NLP at zero relaxation; a trajectory that follows the wrong region, jumps between elements, uses another stage's control or parameter, or does not start at the given initial state is infeasible. This holds for every integration scheme, IRK representation, Stewart/Step, cross complementarity mode, FESD on or off.",
 ["programs", "configurations", "inputs"], "all piecewise linear trajectories of the model family, all option combinations",
 "A solver test only finds one solution; that legal trajectories are not cut off (e.g. a degenerate last element, a forbidden switch at a control stage boundary) and that illegal ones are is never tested.",
 ["nosnoc/problem.py", "nosnoc/model.py"],
 [("FiniteElement.forward_simulation, step chaining through prev_fe", "nosnoc/problem.py"),
  ("right boundary point handling", "nosnoc/problem.py"),
  ("per stage controls, parameters, global variables and speed of time in the dynamics", "nosnoc/problem.py")], observe=[NLP])

prop("C04", "The integration scheme is an exact collocation of its declared order",
 "For every scheme, number of stages and IRK representation the discretized dynamics are satisfied by the exact stage values, stage derivatives and end state of every polynomial solution of degree up to the number of stages, and by nothing else (moving any single stage value, stage derivative or end state makes the NLP infeasible). The nodes are the Radau IIA / Gauss-Legendre nodes, the tabulated coefficients satisfy the order conditions of the declared order, and the representations describe the same method.",
 ["configurations", "inputs"], "all schemes, stage counts offered (1..9), representations, element positions, polynomial solutions",
 "Tests use 1-3 stages (4 in a dimension count) and mostly Radau in one representation; a wrong digit in one of the large tables or a wrong collocation row is invisible.",
 ["nosnoc/rk_utils.py", "nosnoc/problem.py", "nosnoc/nosnoc_opts.py"],
 [("generate_butcher_tableu, generate_butcher_tableu_integral", "nosnoc/rk_utils.py"),
  ("forward_simulation / X_fe", "nosnoc/problem.py")], observe=[NLP, "generate_butcher_tableu*, rk4"])

prop("C05", "Step sizes always partition the prescribed horizon",
 "With FESD on, every feasible point has element lengths within (1 -/+ gamma_h) times the nominal length of their control stage; with an equidistant control grid the lengths of each control stage add up to terminal_time/N_stages, otherwise all lengths add up to terminal_time, and every such choice of lengths is feasible; with FESD off all elements of a stage have the nominal length. Speed-of-time variables (one per control stage or one global) lie within their bounds and scale dynamics and running cost of their own stage(s); with time freezing and an equidistant grid the clock state at the end of each control stage equals the initial clock plus the elapsed time up to the tolerance.",
 ["configurations", "inputs"], "all stage/element layouts (also different numbers of elements per stage), grid modes, gamma_h, speed-of-time modes, step size vectors",
 "Tests only look at the last grid time of one solution per configuration, never at infeasible lengths, uneven element counts, global speed of time or a non-zero initial clock.",
 ["nosnoc/problem.py"],
 [("add_step_size_variable bounds, equidistant grid constraint, terminal numerical time", "nosnoc/problem.py"),
  ("speed of time variables", "nosnoc/problem.py"), ("time freezing clock constraint", "nosnoc/problem.py")], observe=[NLP])

prop("C06", "The objective is the integral of the stage cost plus terminal cost and penalties",
 "At every point the NLP objective equals the quadrature of the running cost over all elements (exact for the polynomial degrees of the scheme, scaled by the speed of time, with each stage's own control and parameters), plus the terminal cost at the final state with the last stage's parameters, plus the selected step equilibration penalty over exactly the adjacent element pairs of each control stage, plus in the elastic modes the elastic slack weighted as the objective scaling option says; in least-squares mode plus the sum of squared constraint residuals.",
 ["configurations", "inputs"], "all primal points, all scheme/representation/step equilibration/elastic/speed-of-time combinations",
 "No test evaluates the objective; solutions of the tested OCPs are insensitive to dropped or doubled contributions of single stages or elements.",
 ["nosnoc/problem.py", "nosnoc/ocp.py", "nosnoc/rk_utils.py"],
 [("cost accumulation in forward_simulation", "nosnoc/problem.py"), ("step_equilibration", "nosnoc/problem.py"),
  ("NosnocProblem.__init__ terminal cost, elastic cost, least squares", "nosnoc/problem.py")], observe=[NLP])

prop("C07", "User constraints hold exactly at the points the options promise",
 "A point is feasible only if the user's box bounds hold for every state, control, algebraic and global variable of the NLP, the terminal constraint is zero at the final state, and the path constraint lies within lbg/ubg at the end of every control stage, additionally at the end of every finite element if g_path_at_fe, and additionally at every integration stage if g_path_at_stg; each evaluated with the control and parameters of its own control stage and the global variables. The path and terminal constraints restrict no other point.",
 ["configurations", "inputs"], "all option combinations, stage layouts (uneven element counts), evaluation points, constraint kinds",
 "Tests with path constraints only check that a solve succeeds; which points are constrained, and with which stage's data, is never observed.",
 ["nosnoc/problem.py", "nosnoc/ocp.py"],
 [("forward_simulation generic path constraints", "nosnoc/problem.py"), ("NosnocOcp.preprocess_ocp bounds", "nosnoc/ocp.py"),
  ("terminal constraint in NosnocProblem.__init__", "nosnoc/problem.py")], observe=[NLP])

prop("C08", "User complementarity constraints are enforced at their own granularity",
 "Every user path complementarity pair (a, b) is enforced in the selected MPCC relaxation: pairs depending on states, user algebraic variables or weights the user names (theta, alpha of the model) at every integration stage of every element, pairs depending only on controls or time-varying parameters once in every control stage with that stage's values, and all other pairs once globally with the global parameters and variables; no pair is dropped or enforced with another stage's data, whatever the number of elements per stage. The complementarity residual that lets the homotopy stop covers these pairs as well.",
 ["configurations", "programs"], "all kinds of dependence, stage layouts, relaxations",
 "Only two examples outside the tests use path complementarities; placement and stage data are never asserted.",
 ["nosnoc/ocp.py", "nosnoc/problem.py"],
 [("classification in preprocess_ocp", "nosnoc/ocp.py"),
  ("create_complementarity_constraints, create_global_compl_constraints", "nosnoc/problem.py")], observe=[NLP])

prop("C09", "Each MPCC mode poses the relaxation it documents, exact at zero",
 "For each complementarity pair, with relaxation parameter sigma (or elastic slack s) the accepted pairs (a, b) are exactly: SCHOLTES_INEQ a*b<=sigma, SCHOLTES_EQ a*b=sigma, ELASTIC_INEQ a*b<=s, ELASTIC_EQ a*b=s, ELASTIC_TWO_SIDED -s<=a*b<=s, FISCHER_BURMEISTER a+b=sqrt(a^2+b^2+sigma^2) (FISCHER_BURMEISTER_IP_AUG the same at sigma=0; its residual vector additionally has w1*sqrt(tau)*(a-sigma), w1*sqrt(tau)*(b-sigma) and w2*sqrt(1+(a-b)^2) times the function, which enter the least-squares objective squared), BOOLEAN a=0 or b=0 according to the binary; and the solver's own multipliers and weights (theta, alpha, lambda) are bounded non-negative in every mode except the Fischer-Burmeister ones, which imply it. Least-squares handling is accepted only for problems in which every constraint is an equality with zero bounds, otherwise construction fails.",
 ["configurations", "inputs"], "all modes, relaxation parameters, sign patterns of the pair, constraint handling modes",
 "Tests run four of the eight modes to convergence on one OCP; they cannot see the accepted set at intermediate relaxation or a missing sign bound.",
 ["nosnoc/problem.py"],
 [("create_complementarity", "nosnoc/problem.py"), ("lb_dual bounds in FiniteElement", "nosnoc/problem.py"),
  ("least squares reformulation", "nosnoc/problem.py")], observe=[NLP])

prop("C10", "Index lists partition the primal vector and carry the right bounds and guesses",
 "For every configuration each entry of the primal vector belongs to exactly one block of exactly one public index list (states, stage derivatives, controls, step sizes, weights, multipliers, algebraic, global, speed-of-time, elastic, boolean), each control stage / element / stage / subsystem has its block with the dimension the model dictates, and the lower bound, upper bound and initial value stored at those indices are the ones the user or the options prescribe for that quantity (with lower <= upper).",
 ["configurations", "programs"], "all option combinations, stage layouts, model dimensions",
 "One test compares the total length of w for single-stage one-system problems; contents, several stages, several subsystems and bounds are never compared.",
 ["nosnoc/problem.py", "nosnoc/utils.py"],
 [("add_variable, __collect_final_element, increment_indices", "nosnoc/problem.py, nosnoc/utils.py")],
 state=[("ind_* lists, w, w0, lbw, ubw", "layout of the primal vector", "NosnocProblem")],
 observe=["NosnocProblem.w/w0/lbw/ubw and ind_* after construction"])

prop("C11", "The homotopy follows the prescribed schedule and stops for the right reason",
 "solve() poses a sequence of NLPs whose relaxation parameter starts at sigma_0 and follows the chosen update rule (linear: slope times previous; superlinear: max(sigma_N, min(slope*sigma, sigma^exponent))), with tau = min(sigma^1.5, sigma); it stops after the first NLP whose complementarity residual is below comp_tol or whose sigma is at most sigma_N, and never poses more than max_iter_homotopy NLPs (plus one polishing NLP if requested). The automatic max_iter_homotopy is the number of linear reductions from sigma_0 to comp_tol, plus one. No NLP failure status stops or prolongs the loop.",
 ["histories", "fault_sequences", "configurations"], "all sequences of NLP outcomes (residual, return status) and all schedule options",
 "Tests see only the outcome of runs with a real solver and default schedules; early stop, exhausted iterations and failing intermediate NLPs are not steered.",
 ["nosnoc/solver.py", "nosnoc/nosnoc_opts.py"],
 [("NosnocSolver.solve homotopy loop, homotopy_sigma_update, setup_p_val", "nosnoc/solver.py")],
 observe=["sequence of NLP solver calls and their arguments (scripted nlpsol)"])

prop("C12", "Warm starts, reported solution, statistics and status match the last NLP",
 "Every homotopy NLP starts at the solution of the previous one (the first at the stored initial guess) and all use the problem's variable and constraint bounds; the returned primal vector, objective value and status are those of the last NLP solved, the iterate list is the initial guess followed by the solution of each homotopy NLP in order, and the iteration and time statistics hold one entry per NLP in order and are empty for NLPs not solved. The status is SUCCESS exactly if the last NLP reported a successful return status. Only the WOPT_PREV strategy carries the solution over as next initial guess.",
 ["histories", "fault_sequences"], "all sequences of NLP outcomes, with and without polishing, repeated solves",
 "Tests compare iteration counts of two real runs once; failing statuses, negative objectives, unequal iterates and repeated solves are not exercised.",
 ["nosnoc/solver.py", "nosnoc/utils.py"],
 [("NosnocSolver.solve", "nosnoc/solver.py"), ("check_ipopt_success", "nosnoc/utils.py")],
 observe=["NLP solver calls, dictionary returned by solve()"])

prop("C13", "Active set fixing and polishing pin only variables whose value is implied",
 "With fix_active_set_fe0 the solver pins to zero exactly the weights, in the first element, of regions whose initial multiplier is positive, and no other variable; the polishing step poses one extra NLP at zero relaxation, started at the last solution, pinning to zero exactly the region weights, step variables and complementarity multipliers that are below the threshold and to one exactly the weights and step variables that are one up to the threshold. Free variables (states, derivatives, controls, step sizes, speed of time, algebraic, global and the sign-free multiplier) keep their bounds, the stored bounds of the problem are not modified, and both features work for every layout of subsystems, stages and options.",
 ["configurations", "inputs", "histories"], "all layouts, all solutions entering the polishing step, repeated solves",
 "Two tests polish a converged one-subsystem solution; pinned sets are never inspected and speed of time, several stages or uneven subsystems are never polished.",
 ["nosnoc/solver.py"],
 [("polish_solution; fix_active_set_fe0 branch of solve", "nosnoc/solver.py")],
 observe=["bounds, start point and parameters of the NLP calls"])

prop("C14", "The NLP always sees the data most recently set",
 "After any history of set(...) calls, solves and failed calls, the next NLP receives exactly the most recently set initial state, global and time-varying parameters (each control stage its own row) together with the initial multipliers of that state and parameters, and an initial guess whose entries are, for each quantity set (x per stage or per element, u, v_global, theta, w), the values most recently set, all others unchanged; the caller's arrays are never modified.",
 ["histories", "inputs"], "all interleavings of set calls on all fields with solve calls, all layouts",
 "One test sets x and u once before one solve; orders, overwrites, parameters after a solve and several subsystems are not tested.",
 ["nosnoc/solver.py"],
 [("NosnocSolverBase.set, setup_p_val, compute_lambda00", "nosnoc/solver.py")],
 state=[("problem.w0, model.x0, model.p_val_ctrl_stages", "data used by the next solve", "NosnocProblem/NosnocModel")],
 observe=["x0 and p argument of the NLP calls after each history"])

prop("C15", "Each initialization strategy produces the initial guess it promises",
 "The initial guess of the first NLP of a solve has, for the ALL_XCURRENT strategies, every state entry equal to the current initial state and everything else from the stored guess (W0_START: never altered by solves; WOPT_PREV: the last solution); for EXTERNAL exactly the stored guess; for RK4_SMOOTHENED (one control stage, Radau IIA, Stewart form) the smoothed-ODE simulation sampled at the time of each integration stage, with the corresponding weights and multipliers; in the smoothed ODE the weight of a region is the product of (1 +/- tanh(c/sigma))/2 over the switching functions its sign pattern refers to, the dynamics are the weighted sum of the columns of F, the initial multipliers are the indicators minus their smallest value. The default guesses of the solver-generated variables (weights, multipliers, step sizes, speed of time, slacks, binaries) lie within their bounds.",
 ["histories", "configurations"], "all strategies, schemes, representations, histories of solves and set calls",
 "A test runs each strategy to convergence on one example and cannot tell which guess was used.",
 ["nosnoc/solver.py", "nosnoc/model.py"],
 [("NosnocSolverBase.initialize", "nosnoc/solver.py"), ("add_smooth_step_representation", "nosnoc/model.py")],
 observe=["x0 argument of the first NLP call of each solve"])

prop("C16", "Result fields are a faithful view of the primal solution",
 "For every configuration and every primal vector, the result dictionary lists the element end states, all stage states, controls, weights, multipliers, algebraic variables, step sizes, global and speed-of-time values that are stored in the primal vector for that stage and element, in chronological order and with the current initial state first in the trajectories; the time grid is the cumulative sum of the step sizes from zero, the control grid its subsequence at control stage boundaries, and the switch times are exactly the grid times at which the active set changes between consecutive elements.",
 ["inputs", "configurations"], "all primal vectors and layouts (several stages with uneven elements, several subsystems, FESD on/off)",
 "Tests look at the end of x_traj and t_grid; ordering across stages, multi-subsystem extraction and switch times are not asserted.",
 ["nosnoc/solver.py", "nosnoc/utils.py"],
 [("get_results_from_primal_vector, get_cont_algebraic_indices, flatten_layer", "nosnoc/solver.py, nosnoc/utils.py")],
 observe=["get_results_from_primal_vector(problem, w)"])

prop("C17", "The simulation loop chains steps without losing or altering data",
 "In a simulation loop step i starts at the end state of step i-1 (the first at the given state) and uses row i of the parameter values and of the initial guesses; the accumulated states, time steps, weights, multipliers, statuses, costs and timings are the concatenation, in order, of the per-step results, the overall time grid is the cumulative sum of all steps, and switch times are absolute times. stop_on_failure ends the loop right after the first unsuccessful step (keeping its data) and reports it; otherwise failures do not stop it. Non-simulation problems and wrongly shaped parameter arrays are rejected.",
 ["histories", "fault_sequences"], "all sequences of step outcomes (states, step sizes, switches, failures), parameter and guess sequences",
 "Tests run short loops in which nothing fails and look at end values; failure handling, parameters per step and accumulated switch times are not covered.",
 ["nosnoc/helpers.py", "nosnoc/problem.py"],
 [("NosnocSimLooper.run/get_results", "nosnoc/helpers.py"), ("is_sim_problem", "nosnoc/problem.py")],
 observe=["NLP calls and get_results()"])

prop("C18", "Options objects are independent and preprocessing is idempotent",
 "The options used for one problem depend only on values set on that options object: setting or preprocessing one object never changes what another (existing or future) object uses, unset tolerances and iteration limits are derived from that object's own settings, explicitly set values are kept, and preprocessing or building again without changes yields the same configuration.",
 ["histories"], "all interleavings of creating options objects, setting fields, preprocessing and building solvers",
 "Each test process builds options in one fixed order and never compares the derived values of several objects.",
 ["nosnoc/nosnoc_opts.py"],
 [("NosnocOpts defaults and preprocess, tol_ipopt / nlp_max_iter properties", "nosnoc/nosnoc_opts.py")],
 observe=["options passed to nlpsol, options fields after preprocess"])

prop("C19", "Automatic reformulation preserves the right-hand side",
 "For every right-hand side built from smooth operations and sign, max and min (any number of nonsmooth terms, products, nesting inside smooth functions, shared switching functions, several components), the model produced by the automatic reformulation has, at every state where no switching function vanishes, exactly the original right-hand side when the regions/step variables are those of that state; expressions that cannot be represented are rejected rather than altered.",
 ["programs", "inputs"], "all expression trees over the supported operators, all states off the switching surfaces",
 "Tests check a handful of private helper calls on single expressions by comparing strings; reformulate() itself and most operator combinations are never evaluated.",
 ["nosnoc/auto_model.py"],
 [("reformulate, _reformulate_linear, _reformulate_nonlin, _rebuild_*, _check_additive", "nosnoc/auto_model.py")],
 observe=["the NosnocModel returned by NosnocAutoModel.reformulate()"])

prop("C20", "Ill-formed models, OCPs and options are rejected, well-formed ones accepted",
 "Building a solver raises an error, before any NLP is posed, whenever the model is not exactly one of the supported forms (F with c and S, F with Stewart indicators, f_x with alpha), a switching system has fewer than two regions, dimensions of F/S/indicators/alpha/parameters/bounds/guesses or the number of entries of Nfe_list disagree, a representation is requested that the model form does not support, the time variable needed for time freezing is missing, or an option has a value of the wrong type; every well-formed combination of these builds.",
 ["inputs", "configurations"], "all combinations of well- and ill-formed fields",
 "Six tests each try one malformed input; combinations, OCP bounds, parameters and the acceptance side are not covered.",
 ["nosnoc/model.py", "nosnoc/ocp.py", "nosnoc/utils.py", "nosnoc/nosnoc_opts.py"],
 [("NosnocModel.__init__/preprocess_model, NosnocOcp.preprocess_ocp, validate", "nosnoc/*.py")],
 observe=["exceptions raised by constructors / NosnocSolver(...)"])

prop("C21", "Step equilibration constrains step sizes exactly where no switch occurs",
 "With the DIRECT step equilibration, consecutive elements of one control stage must have equal length unless some weight or multiplier pattern changes between them (a switch), in which case their lengths are free, and elements of different control stages are never coupled; the heuristic and relaxed modes leave the feasible set unchanged and only add their penalty, the relaxed ones vanishing at a switch. Step equilibration has no effect when FESD is off.",
 ["configurations", "inputs"], "all modes, layouts, switch patterns and step size vectors",
 "The tests run the modes to convergence on one OCP and check the end state, which does not depend on step equilibration.",
 ["nosnoc/problem.py"],
 [("FiniteElement.step_equilibration, sum_Lambda, sum_Theta", "nosnoc/problem.py")], observe=[NLP])

prop("C22", "The listing and the file of a problem show the NLP as posed",
 "At any time in the life of a solver, print_problem lists every constraint and every variable of the NLP in the order of the NLP with the bounds and the current initial guess in force, flags exactly the variables with crossed bounds or a guess outside their bounds, and reports the number of these; dump writes a file from which objective, constraints, bounds, current guess and parameters (the current parameter values and initial state with zero relaxation, and the multipliers belonging to them) can be restored, with the same values and index lists as the NLP. Neither changes the solver: what is solved afterwards is the same as without looking.",
 ["histories", "configurations", "inputs"], "all histories of set, solve, print and dump; all positions of guesses relative to bounds; all objective and representation options",
 "Nothing tests the diagnostic output; a listing that shows stale guesses or hides an infeasible guess is discovered only when it misleads the user.",
 ["nosnoc/problem.py", "nosnoc/solver.py"],
 [("NosnocProblem.print, dump", "nosnoc/problem.py"), ("print_problem", "nosnoc/solver.py")],
 observe=["stdout of print_problem, the pickle written by dump, later NLP calls"])

prop("C23", "The vector field function blends regions with smoothed weights",
 "The function returned by create_function_calculate_vector_field(sigma, p, v) gives, for Stewart form models with any number of subsystems and regions, the dynamics with weights that in each subsystem are positive, sum to one and satisfy theta_i*(g_i - mu) = sigma^2/2 for one mu per subsystem; for sigma towards zero the dynamics of the region with the smallest indicator (the average of those with equally small ones). It uses the state, control and algebraic variable it is called with and the parameters and global variables it was created with, no matter what has been set or solved on the solver or created in the meantime. For the Step form it is refused with NotImplementedError.",
 ["programs", "inputs", "histories"], "all numbers of subsystems and regions, indicator values, smoothing parameters, controls, algebraic variables, interleavings with solver use",
 "No test calls the function with more than one subsystem (the base version could not be called at all).",
 ["nosnoc/solver.py", "nosnoc/model.py"],
 [("NosnocSolverBase.create_function_calculate_vector_field", "nosnoc/solver.py"), ("g_Stewart_fun, mu00_stewart_fun, f_x_fun", "nosnoc/model.py")],
 observe=["values of the returned function"])

prop("C24", "rk4 and rk4_on_timegrid are the classical Runge-Kutta method",
 "rk4(f, x0, tf, n) and rk4_on_timegrid(f, x0, steps), whose last argument lists the step lengths, return the iterates of the classical fourth-order Runge-Kutta method for x' = f(x): the given initial state followed by one state per step, over n equal steps of total length tf (together with the times of all states) respectively over steps of the given lengths (equal or not, also zero), for every right-hand side, dimension and number of steps; the arguments of the caller are not changed.",
 ["inputs"], "all right-hand sides, dimensions, numbers and lengths of steps",
 "Only used inside one initialization strategy whose result is washed out by the NLP solver; a wrong slope weight is invisible in a converged solution.",
 ["nosnoc/rk_utils.py"], [("rk4, rk4_on_timegrid", "nosnoc/rk_utils.py")], observe=["returned states and times"])

prop("C25", "Simulations reported as solved are the exact nonsmooth solution",
 "For systems whose switching functions change with rates that are constant on each side (crossing a surface or starting to slide on it, several surfaces at once), a simulation over one or more steps with enough finite elements that is reported as solved (every step SUCCESS with small complementarity residual) is Filippov's solution: the sequence of modes, the switching times, the states at the end of every step, an integral of the state and the convex weights agree up to the accuracy of the NLP solver, for every model form, representation, scheme, cross complementarity, homotopy and step equilibration mode.",
 ["inputs", "configurations"], "all combinations of crossing and sliding motions, horizons, model forms and options",
 "The tests simulate a handful of systems with one switch each and compare the end state for some option combinations.",
 ["nosnoc/solver.py", "nosnoc/problem.py", "nosnoc/helpers.py", "nosnoc/model.py"],
 [("NosnocSolver.solve, NosnocSimLooper.run", "nosnoc/solver.py, nosnoc/helpers.py")],
 observe=["get_results() of NosnocSimLooper with the real NLP solver"])

prop("C26", "Plots show the data they are given",
 "plot_timings stacks one bar per homotopy iteration and simulation step on the previous ones and draws the mean total time; plot_iterates shows for every given primal vector, in its own column, the multipliers lambda and mu, the weights theta per finite element and the states at all stages; plot_voronoi_2d and scatter_3d show exactly the given points and, when asked to annotate, the number of each point at its place; plot_colored_line_3d connects consecutive points and colors them by the fourth coordinate. Titles and the file asked for are produced.",
 ["inputs"], "all sizes, layouts, numbers of iterates and data",
 "No test calls any plot function.",
 ["nosnoc/plot_utils.py"], [("plot_timings, plot_iterates, plot_voronoi_2d, scatter_3d, plot_colored_line_3d", "nosnoc/plot_utils.py")],
 observe=["matplotlib axes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

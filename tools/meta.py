#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing: tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def P(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, observe=None, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    anchors["hook_needed"] = None
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=anchors))
    if na:
        NA.append(dict(property=id, reason=na))
    elif os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
        CHECKS.append(dict(property=id, quick_cmd="./run.py %s" % id, thorough_cmd="./run.py %s --tier thorough" % id,
                           evidence_file="evidence/%s.json" % id, technique=technique, level="exploration", level_note=note))
    else:
        PROPS.pop()
        print("not built yet:", id)


T = "copt/"
P("C01", "Loss functions return their documented value, gradient and sample derivatives",
  "For any data matrix (dense or any scipy sparse format, any dtype, memory layout, duplicate or unsorted entries), labels, penalty and coefficients, LogLoss, SquareLoss and HuberLoss return the mean of their "
  "documented per-sample loss plus alpha/2 ||x||^2 and its exact gradient to within rounding error, without overflow for any margin, with the same value whether called directly, with or without the gradient, "
  "and with the intercept (last coefficient, not penalised) when the attribute intercept of LogLoss is set. "
  "The per-sample derivative functions agree with the derivative of the per-sample loss at every prediction, one sample or many at a time.",
  "inputs", "all (A storage, b, alpha, delta, x, intercept, memory layout)",
  "Tests compare a few random dense cases with finite differences; no sparse formats, integer dtypes, extreme margins, duplicates, intercept.",
  "copt/loss.py copt/utils.py", [("LogLoss.f_grad / logsig / expit_b", T + "loss.py"), ("SquareLoss.f_grad", T + "loss.py"), ("HuberLoss.f_grad", T + "loss.py"), ("partial_deriv", T + "loss.py"), ("safe_sparse_add", T + "utils.py")],
  "runtime oracle: long-double reference with rounding-error bounds over hostile inputs, uninitialised-memory poisoning",
  "Every observed value is judged against an independent long-double evaluation with an a-priori rounding bound; covers only the inputs generated (seeded).")
P("C02", "Hessian products of LogLoss equal the true second derivative",
  "For any data storage, labels, penalty alpha, point (with or without intercept) and vector, the products returned by LogLoss.hessian_mv and hessian_trace equal the exact Hessian of LogLoss at that point times the vector, "
  "to within rounding error; they are symmetric, positive semidefinite and linear, and the product function stays valid after other evaluations of the loss.",
  "inputs", "all (A storage, b, alpha, x, intercept, vectors)", "One test checks one dense random case against finite differences.",
  "copt/loss.py", [("hessian_mv", T + "loss.py"), ("hessian_trace", T + "loss.py")],
  "runtime oracle: long-double Hessian reference, symmetry/linearity monitors over hostile inputs",
  "Products judged against an independently assembled Hessian with rounding bounds; covers the generated inputs.")
P("C03", "Advertised Lipschitz constants bound the gradient and are tight",
  "The lipschitz constant of every loss bounds ||grad f(x) - grad f(y)|| / ||x - y|| for all pairs of points and equals the documented largest eigenvalue formula; "
  "max_lipschitz bounds the same ratio for each single-sample loss plus penalty and equals the formula with the largest squared row norm, whatever the storage of the data.",
  "inputs", "all (loss, A storage, alpha, pairs of points)", "Tests use the constants but never verify the bound, and only for dense random data.",
  "copt/loss.py copt/utils.py", [("lipschitz / _spectral_norm", T + "loss.py"), ("max_lipschitz / _max_squared_row_norm", T + "loss.py"), ("get_max_lipschitz", T + "utils.py")],
  "runtime oracle: dense SVD formula plus observed gradient ratios incl. the worst direction",
  "Constants compared with a dense SVD and with observed gradient ratios; LogLoss with intercept and zero matrices are excluded (documented).")
P("C04", "Proximal operators of the penalties solve their minimisation problem",
  "For every point, step size and strength, the prox of L1Norm, GroupL1, TraceNorm, FusedLasso (1-D total variation, also along rows and columns of an image) is the minimiser of penalty(z) + ||z - x||^2 / (2 step) to within "
  "rounding error, returned with the shape of the input, also for points given as integers (except FusedLasso, which rejects them). "
  "The prox of TotalVariation2D is that minimiser to within its tolerance, or a warning is emitted when its iteration limit is reached.",
  "inputs", "all (penalty, strength, step, point, shape, groups, memory layout)",
  "Tests check one inequality at random normal points of a few sizes; ties, long constant runs, extreme scales, single rows/columns are not reached.",
  "copt/penalty.py copt/tv_prox.py", [("L1Norm.prox, GroupL1.prox, TraceNorm.prox, FusedLasso.prox, TotalVariation2D.prox", T + "penalty.py"), ("prox_tv1d, prox_tv1d_cols/rows, prox_tv2d", T + "tv_prox.py")],
  "runtime oracle: optimality conditions (dual certificates) in long double, poisoned buffers",
  "A prox value is accepted only if it satisfies the necessary and sufficient optimality conditions with rounding bounds; 2-D TV compared with an exact dual solver on images up to 6x6.")
P("C05", "Projections return the closest point of the constraint set",
  "For every point and radius, the prox of L1Ball, L2Ball, LinfBall, SimplexConstraint and TraceBall returns the Euclidean projection: a point of the set, unchanged when the input is already inside, at minimum distance, "
  "to within rounding error, also for points given as integers; values or shapes the code rejects are rejected with ValueError.",
  "inputs", "all (set, radius, point, memory layout)", "Tests sample random normal points; ties, boundary points, scales, all-negative and single-entry inputs are not reached.",
  "copt/constraint.py", [("euclidean_proj_simplex, euclidean_proj_l1ball", T + "constraint.py"), ("prox of the constraint classes", T + "constraint.py")],
  "runtime oracle: feasibility plus variational inequality through the support function of the set",
  "The variational inequality over the whole set decides optimality of each observed projection; |v|/radius up to 1e9.")
P("C06", "Linear minimisation oracles return a minimising vertex and direction",
  "For every linear form and point, lmo of L1Ball, SimplexConstraint and TraceBall returns v - x for a vertex v of the set maximising the linear form passed, its representation, and maximum step 1. "
  "The pairwise oracle of the L1 ball additionally returns an away vertex that minimises the form over the given active set (positive weights), direction = new vertex - away vertex and the weight of the away vertex as maximum step.",
  "inputs histories", "all (set, radius, linear form, point, active set)", "Tests exercise the oracles indirectly in a few Frank-Wolfe runs.",
  "copt/constraint.py", [("L1Ball.lmo, lmo_pairwise", T + "constraint.py"), ("SimplexConstraint.lmo", T + "constraint.py"), ("TraceBall.lmo", T + "constraint.py")],
  "runtime oracle: support function of the set and exhaustive decode of the active set",
  "Every oracle call is judged against the support function; ties, zero forms, single-entry shapes included.")
P("C07", "Block proximal operators agree with the penalty on the touched blocks",
  "For every sparse sample, the operator returned by prox_factory of L1Norm and GroupL1 and by the two FusedLasso factories applies, to every block of coefficients in the support of that sample, the proximal operator of the penalty "
  "restricted to the block with step size weighted by the block weight, and leaves every other coefficient bit-for-bit unchanged. "
  "With unit weights and full support it equals the prox of the (split) penalty, and the two halves of FusedLasso add up to it.",
  "inputs", "all (penalty, size, groups, touched set, weights, step, point)", "Tests only use the block operators inside whole solver runs.",
  "copt/penalty.py", [("L1Norm.prox_factory", T + "penalty.py"), ("GroupL1.prox_factory", T + "penalty.py"), ("FusedLasso.prox_1_factory / prox_2_factory", T + "penalty.py")],
  "runtime oracle: closed-form block prox in long double; bit-exact frame monitor on untouched entries",
  "Each operator call judged blockwise; untouched entries compared bit for bit; out-of-bounds reads covered by C22.")
P("C08", "Frank-Wolfe iterates stay feasible and follow the documented update",
  "For every problem, constraint set, step rule and starting point in the set, every iterate and the solution of minimize_frank_wolfe lie in the set, each iterate is the previous one plus step times the direction the oracle returned, "
  "steps are in [0, maximum step], and the step is exactly the one the chosen rule defines (Demyanov-Rubinov, sublinear 2/(k+2), user callable, backtracking). "
  "The oracle is queried at the current iterate with the negative gradient there.",
  "inputs histories configurations", "all (problem, set, rule, start, gradient mode, stopping rule)", "Tests look at the final certificate of a few runs.",
  "copt/frank_wolfe.py", [("minimize_frank_wolfe", T + "frank_wolfe.py"), ("backtracking_step_size", T + "frank_wolfe.py")],
  "trace monitor: recorded lmo/objective/callback events replayed against the update rule",
  "Conformity of whole recorded runs; gradients recomputed independently.",
  observe=["calls of the lmo", "calls of the objective and gradient", "callback dictionary: x, step_size, update_direction"])
P("C09", "Frank-Wolfe descent, convergence rate, certificate and stopping are truthful",
  "On smooth convex problems with a line search or Demyanov-Rubinov step with a valid constant, the objective never increases, steps are not needlessly small, and the suboptimality decays at least as fast as the O(1/k) bound of the method. "
  "The certificate reported is the Frank-Wolfe gap of a visited iterate and thus bounds the suboptimality; success is reported exactly when it is below tol, and a run stops exactly when the gap reaches tol, max_iter is reached or the callback says so. "
  "The line search takes the first step of decreasing length that meets its decrease condition (the model at the estimated constant), doubles the estimate when a step fails, starts the next search from the accepted estimate or at most 10% below it, and forgets estimates that are far too large.",
  "inputs histories", "all (convex problem, set, rule, tolerance)", "Tests check that a few runs reach a tolerance.",
  "copt/frank_wolfe.py", [("minimize_frank_wolfe", T + "frank_wolfe.py"), ("backtracking_step_size", T + "frank_wolfe.py")],
  "trace monitor with independent reference bounds (gap, curvature, rate)",
  "Rates and gaps evaluated from the problem data by independent code.")
P("C10", "Pairwise Frank-Wolfe keeps an active set that decodes to the iterate",
  "At every iteration of the pairwise variant, the active set handed to the oracle has positive weights summing to one over vertices of the set whose combination is the current iterate, drop steps remove the vertex and full steps are never larger than the weight of the away vertex. "
  "The variant converges to the optimum on every polytope for which a correct pairwise oracle is given.",
  "inputs histories", "all (problem, polytope, start vertex, step rule)", "One test runs the variant on one problem.",
  "copt/frank_wolfe.py copt/constraint.py", [("update_active_set", T + "frank_wolfe.py"), ("minimize_frank_wolfe pairwise branch", T + "frank_wolfe.py"), ("L1Ball.lmo_pairwise", T + "constraint.py")],
  "trace monitor: invariant on the active set at every oracle call",
  "Invariant checked at every oracle call of recorded runs, over L1 ball, simplex and random polytopes.",
  state=[("active_set", "weights of the vertices composing the iterate", T + "frank_wolfe.py")])
P("C11", "Proximal gradient converges and its success and certificate are truthful",
  "For every convex composite problem and step rule, minimize_proximal_gradient with and without acceleration never takes a step that violates its sufficient decrease condition, does not increase the objective (plain variant), meets the O(1/k) respectively O(1/k^2) bound, and tells (with a warning) when a line search used up its max_iter_backtracking trials. "
  "When it reports success the gradient mapping at the returned point is below tol (so the point is near optimal); otherwise it ran for max_iter iterations or was stopped by the callback.",
  "inputs histories configurations", "all (smooth term, nonsmooth term, step rule, variant, start, tolerance)", "Tests check a tolerance on a handful of easy problems.",
  "copt/proximal_gradient.py", [("minimize_proximal_gradient", T + "proximal_gradient.py"), ("_sufficient_decrease", T + "proximal_gradient.py")],
  "trace monitor: recorded prox/objective/callback events judged by independent gradient mappings and rates",
  "Runs judged by independently computed optimality, including ill-scaled objectives whose decrease is below rounding.",
  observe=["calls of prox", "calls of the objective and gradient", "callback dictionary: x, step_size"])
P("C12", "Three-operator splitting reaches the optimum; success implies optimality",
  "For every smooth f and proximable g and h (penalties or constraints), minimize_three_split follows the Davis-Yin recursion: every step that its line search accepts satisfies the quadratic upper bound within the trials allowed, a fixed step is used as given, step sizes respect h_Lipschitz, and both proximal operators receive the extra arguments. "
  "When success is reported the returned point satisfies the optimality conditions of f + g + h to within tol; otherwise max_iter iterations were run or the callback stopped the solver, and well-conditioned problems are solved.",
  "inputs histories configurations", "all (f, g, h, step rule, start, tolerance)", "Tests solve a few least-squares problems and check a gradient-mapping bound.",
  "copt/splitting.py", [("minimize_three_split", T + "splitting.py")],
  "trace monitor: subgradients certified from recorded proximal calls; independent Davis-Yin reference",
  "Optimality decided from the recorded proximal calls plus an independent solver.",
  observe=["calls of prox_1 and prox_2", "calls of f_grad", "callback dictionary: x, step_size"])

P("C13", "Primal-dual splitting follows its recursion and converges to the optimum",
  "For every smooth f, proximable g and h and linear operator L (array, sparse matrix or operator object), every step of minimize_primal_dual is the primal-dual recursion at steps its line search condition accepts, and a fixed step is used as given. "
  "The certificate and success reported bound the distance to the optimality conditions of f(x) + g(x) + h(Lx); otherwise max_iter iterations were run or the callback stopped the solver, and well-conditioned problems are solved.",
  "inputs histories configurations", "all (f, g, h, operator and its storage, step sizes, start, tolerance)", "Tests solve a few random problems with the identity or one dense operator.",
  "copt/splitting.py", [("minimize_primal_dual", T + "splitting.py")],
  "trace monitor: recorded proximal, operator and objective calls replayed against the recursion; optimality certified from the recorded calls",
  "Conformity of whole recorded runs plus independent optimality certificates; convergence only asserted on well-conditioned problems.",
  observe=["calls of prox_1 and prox_2", "products with L and its transpose", "calls of f_grad", "callback dictionary: x, step_size"])
P("C14", "SAGA and SVRG steps are the documented variance-reduced steps",
  "For every data storage, derivative, ridge penalty, block penalty and step size, each inner step of minimize_saga and minimize_svrg visits one sample and moves exactly the blocks in its support, by the step size times the sparse variance-reduced estimate "
  "of the gradient of the average loss plus ridge, followed by the block proximal operator; every epoch visits every sample once in a fresh random order. With a small enough step they converge to the minimiser, and success is reported exactly when an epoch moves the iterate by less than tol.",
  "inputs schedules histories", "all (data storage, loss derivative, penalties, step, start, order of the samples)", "Tests check the solution of a few dense problems with one seed.",
  "copt/randomized.py copt/penalty.py", [("minimize_saga", T + "randomized.py"), ("minimize_svrg", T + "randomized.py"), ("_support_matrix", T + "randomized.py")],
  "trace monitor: recorded derivative and block-prox calls replayed against a dense reference recursion",
  "Whole histories replayed step by step; the estimator is recomputed from dense data by independent code.",
  observe=["calls of the derivative", "calls of the block proximal operator (state before and after)", "callback dictionary: x"])
P("C15", "Variance-reduced three-operator steps follow the reference recursion",
  "For every data storage, derivative, ridge, pair of block penalties with different block structures and step size, each inner step of minimize_vrtos is the sparse variance-reduced three operator splitting recursion at one sample, touching only the blocks "
  "in its support; every epoch visits every sample once in a fresh random order. The certificate reported is the residual of the splitting and with a small enough step the method converges to the minimiser of the sum of all terms.",
  "inputs schedules histories", "all (data storage, loss derivative, two block penalties, step, start, order of the samples)", "Tests compare a few solutions with those of other solvers.",
  "copt/randomized.py copt/penalty.py", [("minimize_vrtos", T + "randomized.py"), ("_factory_sparse_vrtos", T + "randomized.py")],
  "trace monitor: recorded derivative and block-prox calls replayed against a dense reference recursion",
  "Whole histories replayed step by step; includes the fused lasso split in two halves.",
  observe=["calls of the derivative", "calls of both block proximal operators", "callback dictionary: z, x0, x1"])
P("C16", "Stochastic Frank-Wolfe: feasible iterates and the documented estimator",
  "For every variant (SAG, SAGA, MHK, LF), batch size, step rule, data storage and set, every iterate and the solution of minimize_sfw lie in the set, each step draws batch_size distinct samples uniformly, evaluates the derivative there, queries the oracle "
  "with the negative of the variant's gradient estimate, and moves by the step the rule defines along the direction returned; max_iter passes are made when tol is 0. The pairwise variant keeps positive weights that decode to the iterate.",
  "inputs schedules histories configurations", "all (data, derivative, set, variant, batch size, step rule, start, sampling)", "Tests only run the solver; no assertion looks at its iterates.",
  "copt/randomized.py copt/utils.py copt/frank_wolfe.py", [("minimize_sfw", T + "randomized.py"), ("step_size_sfw, step_size_DR", T + "randomized.py"), ("sample_batches, fast_csr_mv, fast_csr_vm", T + "utils.py"), ("update_active_set", T + "frank_wolfe.py")],
  "trace monitor: recorded derivative, oracle, step-rule and callback events replayed against each estimator; statistical monitor of the sampling",
  "Samples are identified by distinct labels; MHK compared up to a positive factor; sampling judged at eight standard deviations.",
  observe=["calls of f_deriv", "calls of the lmo", "calls of the step rule", "callback dictionary: x"])

ALL = "frank_wolfe.py proximal_gradient.py splitting.py randomized.py"
SOLVE = " ".join(T + f for f in ALL.split())
P("C17", "Callbacks see every iterate, can stop the run, and Trace records them",
  "For every solver and problem, passing a callback does not change the result; it is called with a dictionary holding every iterate in order, from the first one to the one returned where the solver shows it. "
  "Returning False stops Frank-Wolfe, proximal gradient and the deterministic splittings at the iterate shown, which is returned without claiming success; any other value does not stop. "
  "A run ends without success only after max_iter iterations; utils.Trace stores an independent copy of the iterate (or f of it), the time and the step size, every freq calls; documented warnings are emitted.",
  "inputs histories configurations", "all (solver, problem, options, position of the stop, frequency, value returned)",
  "Tests pass a Trace to some runs and never compare what it holds, nor a run with and without callback, nor where a stopped run ends.",
  SOLVE + " copt/utils.py", [("callback(locals()) in every solver", T + "*.py"), ("Trace", T + "utils.py")],
  "trace monitor: recorded callbacks compared with unobserved, truncated and stopped executions of the same call",
  "Three solvers do not follow a documented stopping rule: listed findings sfw-tol, vrtos-tol, pd-nan.",
  observe=["callback dictionary: x, step_size", "entries of Trace"])
P("C18", "No public function or solver modifies its arguments or shares results",
  "No loss, penalty, constraint, utility or solver modifies an array or sparse matrix passed to it or returned by a user function (starting point, data, labels, gradients, points passed to proximal operators); read-only arrays give the same results. "
  "Solutions do not share memory with the starting point or the data, and results of earlier calls are not overwritten by later calls. (Block proximal operators and update_active_set work in place by design.)",
  "inputs histories", "all (function or solver, arguments, later calls)", "Tests never look at their inputs after a call.",
  SOLVE + " copt/loss.py copt/penalty.py copt/constraint.py copt/tv_prox.py copt/utils.py", [("copies of x0 in the solvers", T + "*.py"), ("prox of the penalties and constraints", T + "penalty.py"), ("losses", T + "loss.py")],
  "memory monitor: byte images of every argument before and after, read-only pages of arrays, shared-memory detection",
  "Every array reachable from the arguments and from the returned values of user functions is watched.",
  observe=["bytes of every argument", "results kept from earlier calls"])
P("C19", "Results depend only on the arguments (and the seed)",
  "Every solver and public function gives bit for bit the same result when called again with equal arguments, whatever ran before, inside of a callback of another run, with objects shared between runs, "
  "or while other threads run solvers; stochastic solvers are decided by the seed of the global numpy generator, deterministic ones do not touch it; global settings of numpy are not changed; "
  "nothing is remembered about the content of an array that the caller overwrites afterwards.",
  "schedules histories", "all (call, earlier calls, nesting, threads, overwritten arguments)", "Tests run each solver once per problem, sequentially.",
  SOLVE + " copt/loss.py copt/utils.py", [("solvers", T + "*.py"), ("MemoizeJac in build_func_grad", T + "utils.py"), ("losses", T + "loss.py")],
  "differential monitor: bitwise comparison across histories, nesting and threads with a tiny switch interval",
  "Trace-ball vertices and Lipschitz constants start from a random vector (scipy) and are excluded from the bitwise comparison.")
P("C20", "Equivalent forms of an input give the same result",
  "The result of every solver does not depend on the container, type or memory layout of the starting point (integers are not truncated), nor on the numeric type of labels, strengths, radii, steps and limits, the storage or integer type of the data matrix, "
  "the form of the linear operator, or the way the gradient is given (with the objective, separately, estimated by finite differences within their error bound); args and args_prox reach every user function; "
  "losses built without data matrix are those of the identity.",
  "inputs configurations", "all (solver, input, equivalent form of it)", "Tests use one form (dense float64 arrays, gradient with the objective) almost everywhere.",
  SOLVE + " copt/utils.py copt/loss.py", [("conversion of x0 in the solvers", T + "*.py"), ("build_func_grad", T + "utils.py"), ("constructors of the losses", T + "loss.py")],
  "metamorphic monitor: the same run in two forms of one input, bitwise or to within rounding",
  "Forms are exactly representable; forms that reorder the arithmetic are compared to within rounding with smooth step rules.")
P("C21", "Sparse kernels, batch sampling and helpers meet their contracts",
  "fast_csr_mv and fast_csr_vm equal the products with the selected rows for every CSR matrix and index (empty, repeated, unordered); sample_batches gives disjoint-within-batch indices in range, uniformly and independently between batches; "
  "safe_sparse_add is the sum whatever the storage; init_lipschitz returns the first power of ten at which a gradient step does not increase the objective; build_func_grad returns the value and gradient of the point of each call; parse_step_size accepts exactly its documented forms.",
  "inputs", "all (CSR structure, index, vector, sizes, functions)", "Tests do not call these helpers directly, except in two cases.",
  "copt/utils.py", [("fast_csr_mv, fast_csr_vm", T + "utils.py"), ("sample_batches", T + "utils.py"), ("safe_sparse_add", T + "utils.py"), ("init_lipschitz, build_func_grad, parse_step_size", T + "utils.py")],
  "runtime oracle: dense reference products, statistical monitor of the sampling (eight standard deviations)",
  "Uniformity decided by counts at eight standard deviations; everything else exactly or within rounding bounds.")
P("C22", "Numba-compiled code does what the interpreted code does, in bounds",
  "With numba installed, every compiled function (total variation, sparse kernels, batch sampling, loss derivatives, block proximal operators, epochs of SAGA, SVRG, VRTOS, kernels of SFW) gives the result of the same source run by the Python interpreter to within rounding, "
  "makes no array access out of bounds, and works for signals and matrices longer than a narrow index type holds.",
  "inputs", "all (function, sizes, arrays)", "Tests are run without numba here, and with it they never check bounds nor compare with the interpreter.",
  "copt/utils.py copt/tv_prox.py copt/penalty.py copt/loss.py copt/randomized.py", [("njit", T + "utils.py"), ("_prox_tv1d", T + "tv_prox.py"), ("prox_factory", T + "penalty.py"), ("compiled epochs", T + "randomized.py")],
  "sanitizer: numba bounds checking; differential monitor of compiled against interpreted copies of the package",
  "numba is taken from the offline installation at /opt/numba-extra; random order of the samples is shared by both copies.")
P("C23", "Dataset loaders return exactly the published data",
  "Each loader (madelon, rcv1, gisette, covtype, news20, the libsvm-format ones and the sample image) returns the data and labels of the published files for each subset, downloads each dataset at most once from its address into the folder asked for "
  "(created if missing), needs no network afterwards, leaves no temporary files, and rejects unknown subsets and corrupt downloads.",
  "inputs configurations", "all (loader, subset, content of the files, data folder)", "Tests skip the loaders without network.",
  "copt/datasets.py", [("load_* and _load_dataset", T + "datasets.py"), ("load_img1", T + "datasets.py")],
  "monitored execution against a stand-in for the servers in a scratch folder",
  "Servers are replaced by functions that publish random files; network and file accesses are recorded.",
  observe=["requests", "files of the data folder"])
P("C24", "Dataset loaders recover from interruptions at any point",
  "If a load is interrupted at any point (exception, network failure, truncated download, death of the process between or inside of two writes), no later load returns anything else than the published data or raises because of what the interrupted one left; "
  "the next load with a working network succeeds.",
  "fault_sequences crash_points histories", "all (loader, point of interruption, kind, number of interruptions)", "Tests never interrupt a load.",
  "copt/datasets.py", [("download and conversion of every loader", T + "datasets.py"), ("os.replace of finished files", T + "datasets.py")],
  "fault injection at every traced line and write of the loader, in a forked process; monitor of the following loads",
  "Death of the process, not of the machine; one process at a time.")
P("C25", "Values of penalties and constraints are those of their definitions",
  "Calling L1Norm, GroupL1, FusedLasso, TraceNorm or TotalVariation2D gives the strength times the (semi)norm they document for every point and type of array: nonnegative, homogeneous, subadditive, zero where it should be, not increased by its own proximal operator. "
  "L1Ball and TraceBall give zero inside and infinity outside. tv2d_linear_operator is the matrix of all differences of neighbouring pixels. GroupL1 rejects groups that are not contiguous and increasing.",
  "inputs", "all (penalty or constraint, strength, shape, point)", "Tests only use the values in a few inequalities at random normal points.",
  "copt/penalty.py copt/constraint.py copt/tv_prox.py", [("__call__ of the penalties", T + "penalty.py"), ("__call__ of L1Ball and TraceBall", T + "constraint.py"), ("tv2d_linear_operator", T + "tv_prox.py")],
  "runtime oracle: long-double definitions, seminorm axioms, descent of the proximal operator",
  "Points within rounding of the boundary of a ball may be on either side.")
P("C26", "PyTorch adapter returns the value and gradient of the wrapped function",
  "make_func_and_grad evaluates the wrapped function once per call on a tensor holding the given point, in the shape, on the device and with the type asked for, and returns its value as a number and its gradient as a vector of numpy in the order of the point, "
  "call after call (nothing accumulates), without modifying the point or earlier gradients; solvers follow the same iterates as with the function written in numpy.",
  "inputs histories", "all (function, shape, device, type, point, earlier calls)", "No test covers the adapter (PyTorch is not installed).",
  "copt/utils_pytorch.py", [("make_func_and_grad", T + "utils_pytorch.py")],
  "monitored execution against a stand-in for torch that enforces its rules (leaves, devices, accumulation)",
  "PyTorch itself is not available: a reverse-mode stand-in validated by finite differences replaces it.",
  observe=["tensors received by the wrapped function"])
P("C27", "Failures of user functions reach the caller; invalid options are rejected",
  "An exception of any kind raised by a user function (objective, gradient, proximal or linear oracle, derivative, step rule, callback) at any call reaches the caller of the solver unchanged, no user function is called afterwards, global settings are as before, and the same objects then give the same results as if nothing had happened. "
  "A run whose objective or gradient stops being finite ends, and does not claim success at a point that is not finite. Invalid options and shapes that the code rejects are rejected for every problem, without modifying the arguments.",
  "fault_sequences histories", "all (solver, function, position and kind of the fault; option, invalid value)", "Tests check a few invalid options and no failure of a user function.",
  SOLVE + " copt/loss.py copt/utils.py", [("solvers", T + "*.py"), ("build_func_grad", T + "utils.py"), ("option checks", T + "*.py")],
  "fault injection at chosen calls of wrapped user functions; monitor of the exception, of later calls and of a rerun",
  "StopIteration inside of finite differences is swallowed by scipy and excluded; primal-dual line search on nan is the finding of C17.")

P("C28", "Memory stays proportional to the data, sparse input is never made dense",
  "On sparse data every loss (value, gradient, Hessian products, Lipschitz constants), kernel, penalty, projection, linear oracle and solver needs memory proportional to the stored entries and the dimensions, whatever the pattern (a full row or column included): "
  "no dense copy of the matrix, no Gram matrix, no square matrix of the dimension. The memory of a run does not grow with the number of its iterations, and nothing is kept once its result is dropped, however many runs are made.",
  "inputs histories", "all (sparse matrix of any pattern and format, function or solver, options, number of iterations)", "Tests use matrices that fit in memory in any form and never look at memory.",
  SOLVE + " copt/loss.py copt/utils.py copt/penalty.py copt/constraint.py copt/tv_prox.py", [("losses on sparse data", T + "loss.py"), ("sparse kernels", T + "utils.py"), ("solver loops", T + "*.py")],
  "memory monitor (tracemalloc, address space limit) on sparse data whose dense forms are 50 times larger, and on runs of two lengths",
  "16 times the input and 3 MB are allowed for temporaries; memory allocated outside of Python and numpy is only seen through the address space limit of 1.5 GB.")

P("C29", "All solvers agree on the solution of a problem built from the package's parts",
  "A problem assembled from a loss, ridge, penalties and constraints of the package has one meaning: proximal gradient (plain and accelerated), three operator splitting, primal-dual, SAGA, SVRG, VRTOS and Frank-Wolfe, each given the corresponding pieces "
  "(gradient, proximal operators, sparse factories, linear oracles, partial derivatives, recommended constants), end at the same optimum, the one of the written objective, for dense and sparse data, with and without intercept, from any start. "
  "The solution is unchanged by copies and orders of the samples and follows orders and signs of the features and units of the targets; a penalty above the largest gradient at zero gives zero.",
  "inputs", "all (loss, data, ridge, terms, solver, start)", "Tests compare a solver with itself or with one other on a few data sets, mostly through the certificate of the solver.",
  SOLVE + " copt/loss.py copt/penalty.py copt/constraint.py", [("losses and sample derivatives", T + "loss.py"), ("proximal operators and factories", T + "penalty.py"), ("solvers", T + "*.py")],
  "end-to-end comparison with an independently computed optimum and with transformed copies of the problem",
  "Strongly convex problems of up to 9 features; features without samples are left at zero for the stochastic solvers.")
P("C30", "Omitted options mean their documented values; positional and keyword calls agree",
  "For every public function and class, leaving an option out gives exactly the run of passing its documented default, in any combination with the other options, and a call by position in the documented order equals the call by keyword: same iterates, counts, certificates and printed text.",
  "inputs", "all (function, options given, options left out, number of positional arguments)", "Tests pass the options they care about, mostly by keyword, and do not notice a default that changes.",
  SOLVE + " copt/loss.py copt/penalty.py copt/constraint.py copt/tv_prox.py copt/utils.py", [("signatures", T + "*.py")],
  "differential execution: the same call with options omitted, spelled out and passed by position, compared bit by bit",
  "The signatures of version 0.9.1 are written down in the check.")

#MORE


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh", checks=CHECKS, not_applicable=NA,
               notes="Pure-Python runtime verification: run.py drives the real code of /repo (imported from its working tree) under monitors; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

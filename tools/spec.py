"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py` after editing."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), technique="", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, technique=technique, note=note, na=na))


INTERP = "inter-procedural abstract interpretation of the Python AST (value numbering, points-to and effect events)"

prop(
    "C01", "Caller-supplied data is never modified in place",
    "Arrays, lists and dictionaries a caller passes to a constructor or function (starting points, reference points and sets, targets, weights, bounds, cluster labels, masks) have the same content after any number of calls as before. "
    "The same holds for the arrays a user-supplied callback returns. "
    "Only an object whose documented purpose is to receive output is written.",
    ["inputs", "histories"], "every optimizer, indicator, problem, reference set, utility function and component; every sequence of construction, iteration, restart and clone",
    "Tests check returned values for a handful of inputs; none compares the inputs before and after, and aliasing defects only show when the caller reuses its array.",
    ["hvd/newton.py", "hvd/base.py", "hvd/mmd_newton.py", "hvd/reference_set.py", "hvd/utils.py", "hvd/mmd.py", "hvd/delta_p.py", "hvd/hypervolume_derivatives.py", "hvd/moea/sms_emoa.py"],
    [("defensive copies in constructors and setters", "hvd/base.py State, hvd/newton.py, hvd/reference_set.py ReferenceSet"), ("pure utilities", "hvd/utils.py")],
    technique=INTERP + ": in-place effects on parameter-owned locations",
    note="Every in-place effect reachable from every public entry point is resolved to the abstract object it changes; effects on caller-owned objects are reported. Aliasing through unmodelled third-party calls is assumed absent.",
)
prop(
    "C02", "Recorded history entries are independent snapshots",
    "Each entry an optimizer appends to its recorded histories (points, objective values, matched targets, steps) equals the quantity it records at the moment it was recorded. "
    "Later iterations, restarts and cluster changes never alter an entry already recorded, and no two entries share storage with each other or with live state.",
    ["histories", "inputs"], "every number of iterations of every optimizer variant, with and without constraints",
    "Tests run the optimizers for a few iterations and look at the final state; no test re-reads an old history entry after more iterations.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
    [("history recording in log()", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py")],
    technique=INTERP + ": reachability disjointness of snapshot storage",
    note="Two to three iterations of each optimizer are interpreted abstractly with symbolic data; storage reachable from recorded entries is compared with storage reachable from live state and with every later effect.",
)
prop(
    "C04", "Population record stays coherent with its points",
    "Whenever points in a population record are replaced, moved or selected, every derived quantity it holds (objective values, constraint values, all first and second derivatives, feasibility and activity flags) is that of the points now held, row by row. "
    "Updating one point refreshes exactly that point's row of every quantity, and a selection of rows shares no storage with the original.",
    ["histories", "inputs"], "every order of full update, single-point update, row selection and optimizer iteration, with and without constraints and with and without derivatives",
    "Tests build a population once and compare a few numbers; stale rows only matter after particular update orders.",
    ["hvd/base.py", "hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
    [("State.update / update_one / __getitem__", "hvd/base.py"), ("state refresh after a step", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py")],
    technique=INTERP + ": def-use decomposition of derived fields into callback applications",
    note="Derived fields are decomposed into callback applications whose argument must be the value number of the current points. Callbacks are assumed deterministic.",
)
prop(
    "C05", "User callbacks are used in their own role, equality first",
    "Each user-supplied function (objective, equality and inequality constraints, their first and second derivatives) is called only in its own role: no derivative is replaced by another function's. "
    "Constraint values and derivatives are stacked with the equality part before the inequality part in every combined quantity, and the equality and inequality parts recovered from a combined quantity are cut at the number of equality constraints. "
    "An optimizer counts as many equality (inequality) constraints as the equality (inequality) function returns values; a single number, also as a zero-dimensional array, counts as one.",
    ["inputs", "configurations"], "every combination of constraint kinds and dimensions, and every optimizer",
    "Existing tests exercise mostly unconstrained or single-constraint problems in which several roles coincide in shape.",
    ["hvd/base.py", "hvd/newton.py", "hvd/mmd_newton.py"],
    [("constraint stacking", "hvd/base.py State"), ("callback wiring", "hvd/newton.py, hvd/mmd_newton.py constructors")],
    technique=INTERP + ": role labels on callback values, position checks on concatenations",
    note="Role labels are followed from constructor parameters to every call; stacking order and cut points are compared symbolically.",
)

prop(
    "C03", "Line-search trials never touch the live population",
    "Evaluating candidate steps in a line search works on private copies: rejected candidates leave the optimizer's population and its derived values untouched, leave the targets the reference set has matched to the population as they were, and start from the current population, not from an earlier candidate. "
    "Each iteration replaces the population exactly once, by the current points plus the recorded step scaled by the recorded step size.",
    ["histories", "inputs"], "every accepted and rejected candidate of every line search of every optimizer, in every iteration, with and without constraints",
    "Whether a candidate is rejected depends on the data; tests see only runs in which the first candidates are accepted or check the end point to a loose tolerance.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/base.py"],
    [("backtracking line searches", "hvd/newton.py, hvd/mmd_newton.py"), ("population update after a step", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py"), ("State.__getitem__, State.update", "hvd/base.py")],
    technique=INTERP + ": effects on live storage inside trial loops, normal form of the new population term",
    note="Every line search and one to two iterations of every optimizer are interpreted abstractly; every store is resolved to live or private storage, and the value assigned to the population is decomposed symbolically.",
)
prop(
    "C11", "Iteration budget is exact and histories match it",
    "A run with an iteration budget K performs exactly K iterations (none for K=0), counts them, reports the count in the stop record, and returns the final population and objective values. "
    "Every per-iteration history gains exactly one entry per iteration. A budget of None means ten iterations per point.",
    ["histories", "configurations"], "every budget and every optimizer",
    "Tests run one or two fixed budgets and do not compare the counter, the stop record and the history lengths.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
    [("terminate / run / log", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py")],
    technique=INTERP + ": constant folding of the stop test, counter and append counting per round, unrolled run loop",
    note="The stop test is folded for concrete counters around the budget, each round's counter increments and history appends are counted on all paths, and the driver loop is unrolled for small budgets.",
)
prop(
    "C06", "Point, batch and derivative evaluations are of one function",
    "For every problem class, evaluating a population gives, row by row, what evaluating each point alone gives. "
    "The Jacobians and Hessians it offers (at a point and over a population; of the objective, the equality and the inequality functions) are the first and second derivatives of exactly that function, with axes (rows,) outputs, variables(, variables). "
    "The view offered to pymoo publishes objective, equality and inequality values under F, H and G, and problems backed by pymoo read them from there.",
    ["inputs", "configurations"], "every problem class, every kind of evaluation, every dimension and population size",
    "Tests evaluate a few problems at a few points; a batch or a derivative of the wrong function, or transposed axes, agrees in shape on many of them.",
    ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/zdt.py", "hvd/problems/uf.py", "hvd/problems/misc.py"],
    [("evaluation wrappers and derivative transforms", "hvd/problems/base.py"), ("per-problem functions", "hvd/problems/*.py")],
    technique=INTERP + ": normal form of each evaluation as vmap/jacobian/hessian of the own function",
    note="Each evaluation of each problem class is reduced to a term; its transform chain and innermost function are compared with those required. Forms that cannot be decomposed are counted as undetermined and not reported.",
)
prop(
    "C07", "Published dimensions, bounds and constraint counts are in effect",
    "A problem publishes the number of variables and objectives it was given (or its documented fixed values) and the caller's lower and upper bounds, each on its own side, with one entry per variable; default bounds have one entry per variable for every number of variables, lower below upper, and every constructor argument takes effect. Asking for boundary constraints adds exactly xl-x and x-xu after the problem's own inequalities and two per variable to the published count; constraint functions return as many values as published. "
    "The pymoo adapters hand over each of these quantities in its own role.",
    ["configurations", "inputs"], "every problem class, every number of variables, with and without caller bounds and boundary constraints",
    "Tests construct problems with one or two dimensions and default bounds, where a fixed-length default or an ignored argument is invisible.",
    ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/zdt.py", "hvd/problems/uf.py"],
    [("constructors and bounds properties", "hvd/problems/base.py"), ("per-problem constructors", "hvd/problems/*.py")],
    technique=INTERP + ": symbolic shapes and provenance of the published attributes",
    note="Constructors are interpreted with symbolic dimensions and bounds; attribute terms are compared with the argument terms, and lengths are compared symbolically and by substitution of several concrete dimensions.",
)
prop(
    "C13", "Randomness only from NumPy's global generator, none where none is needed",
    "All randomness in the library is drawn from NumPy's global generator, which the library never reseeds or replaces, so seeding it makes repeated runs identical; randomised estimators it uses get a fixed seed. "
    "Optimizer iterations, indicator values and derivatives, problem evaluations, sorting, target matching and utilities draw nothing; "
    "with a starting population supplied, nothing drawn at construction influences the run, and clock, process and environment values influence no result "
    "(only sampling a missing initial population, Pareto-set and front samples and the SMS-EMOA operators draw).",
    ["histories", "configurations"], "every public entry point, every call order",
    "Tests run each entry point once with one seed; a second source of randomness or a clustering step without a seed changes results only between runs.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/delta_p.py", "hvd/mmd.py", "hvd/reference_set.py", "hvd/sms_emoa.py", "hvd/utils.py", "hvd/problems/base.py"],
    [("sampling, clustering and time/environment reads", "hvd/*.py")],
    technique=INTERP + ": effect analysis of random, clock and environment sources with data flow to results",
    note="Each call to a random, clock, process or environment source on any path is classified; its flow into results, object state and branches is followed through heap and calls.",
)
prop(
    "C14", "Calls leave the process as they found it and instances share no state",
    "Every public call leaves process-wide settings (warning filters, NumPy error and print state, JAX configuration, working directory, environment, import path, root logger, plot style) as they were, on every exit including errors. "
    "No call writes module globals, class attributes, module-level containers, default argument values or attributes of third-party modules, so two instances never influence each other.",
    ["histories", "fault_sequences"], "every public entry point, normal and exceptional exits, every interleaving of calls on several instances",
    "Tests run one instance at a time and do not compare process settings before and after, and not on error exits.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/base.py", "hvd/utils.py", "hvd/problems/base.py", "hvd/hypervolume_derivatives.py"],
    [("logger setup, Newton solves, problem construction", "hvd/utils.py, hvd/newton.py, hvd/mmd_newton.py")],
    technique=INTERP + ": effect analysis of writes to import-time objects and of process-wide setters with exit-path pairing",
    note="Every store of every entry point is resolved to the objects it may reach; those allocated at import time are violations. Calls to process-wide setters must be paired with a restoring context manager or finally.",
)
prop(
    "C15", "Files are written only where and when the caller asked",
    "The library writes a file, makes a directory or starts a process only when the caller asked for it: under a save or plot flag that was set, when an optional file name was given, or at a path the caller named. "
    "Everything else - constructing, iterating, evaluating, logging, querying - has no effect on the file system. "
    "Drawing functions, and the external hypervolume bridge in hvd/exact.py, are exempt.",
    ["configurations", "inputs"], "every public entry point under every combination of flags",
    "Tests do not watch the file system, and run with the flags at their defaults.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/base.py", "hvd/utils.py", "hvd/reference_set.py", "hvd/bootstrap.py"],
    [("State.save, logger files, run plotting", "hvd/base.py, hvd/utils.py")],
    technique=INTERP + ": effect analysis of file, directory and process operations with the controlling conditions",
    note="Each file or process operation reachable from each entry point must be control dependent on a caller's save/plot/file-name argument with the right polarity, or take its path from a caller's argument.",
)
prop(
    "C24", "Errors raised by the caller's functions reach the caller",
    "An exception raised by a function or metric object the caller supplied (objective, constraint, their derivatives, metrics' compute, line-search function) is never swallowed or replaced by a default result inside the library: it reaches the caller of the public entry point, possibly translated into another exception.",
    ["fault_sequences", "inputs"], "every invocation of a caller's function from every entry point, failing at any time",
    "Tests use functions that do not fail; a handler around a call path is exercised only when a particular evaluation raises.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/base.py", "hvd/line_search.py", "hvd/mmd.py", "hvd/hypervolume_derivatives.py"],
    [("evaluation in State, logging, line searches", "hvd/base.py, hvd/newton.py, hvd/mmd_newton.py, hvd/line_search.py")],
    technique=INTERP + ": exception-flow analysis of the handlers active around each caller function",
    note="For every invocation the handlers active on its call path are collected; each that can catch must re-raise on all paths.",
)
prop(
    "C25", "Observation options do not steer the run",
    "Verbosity, performance metrics, plotting, and saving of intermediate sets only observe: with any of them switched on, an optimizer run, a reference-set match and the bootstrap driver "
    "produce exactly the populations, multipliers, step sizes, counters, histories, stop records, reference sets and return values they produce with it off. "
    "Verbosity and metrics also leave unchanged which of the caller's objective and constraint functions are called; only the metric records themselves are added.",
    ["configurations", "histories"], "every optimizer, with and without constraints, every iteration; all inputs",
    "Tests run with verbosity on or off, never both on the same problem, and most with no metrics.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/reference_set.py", "hvd/bootstrap.py"],
    [("log and iteration", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py"), ("plot and save branches", "hvd/reference_set.py, hvd/bootstrap.py")],
    technique=INTERP + ": non-interference by comparing the canonical object graphs of paired abstract runs",
    note="Two abstract runs that differ in one option are interpreted on all paths from the same symbolic inputs; the canonical forms of every attribute reachable from the optimizer are compared.",
)
prop(
    "C12", "The Newton system is assembled and solved consistently",
    "Each Newton step is minus the solution of a linear system with matrix [[A, H^T], [H, 0]], H the gradients of the active constraints and A the indicator's Hessian (preconditioned toward the definiteness the optimizer needs, plus, in HVN and DpN, multipliers times constraint Hessians), and right-hand side the residual: indicator gradient plus multipliers times active constraint gradients, then the active constraint values. "
    "Only active constraints enter, and each multiplier meets the derivative of its own constraint at its own point. "
    "When the direct solve raises or warns because the system is singular, the same matrix and right-hand side are solved by least squares with the same sign and the iteration goes on.",
    ["inputs", "configurations", "histories"], "every Newton optimizer (HVN, DpN, MMDNewton), with equality, inequality, both and no constraints, preconditioned or not",
    "Tests observe convergence on a few problems; a step with a missing curvature term, an unpaired multiplier or a wrong fallback still moves and often still converges.",
    ["hvd/newton.py", "hvd/mmd_newton.py"],
    [("assembly and solve of the Newton system", "hvd/newton.py HVN, DpN; hvd/mmd_newton.py"), ("residual", "_compute_R")],
    technique=INTERP + ": block decomposition of the symbolic linear system",
    note="The system is obtained as an exact term over uninterpreted indicator derivatives and population symbols. Systems whose matrix cannot be decomposed into blocks are counted as undetermined, not reported. Whether the solution converges is out of scope.",
)
prop(
    "C08", "Indicator and problem queries depend only on arguments and settings",
    "An indicator value or derivative, a hypervolume, and a problem's objective or constraint evaluation or derivative depend only on the arguments and the object's current settings: "
    "queries made earlier on the same object, with any inputs, never change the answer (target matching in the matching indicators, stateful by design, excepted). "
    "Assigning a new reference point or set, or a new spread weight beta, takes effect in the next query exactly as if the object had been built with it.",
    ["histories", "inputs"], "every indicator, the hypervolume and every method of a problem; all inputs and all previous queries",
    "Tests build a fresh object per case; a stale cache shows up only when an object is reused after other inputs or after a setting changed.",
    ["hvd/hypervolume_derivatives.py", "hvd/delta_p.py", "hvd/mmd.py", "hvd/problems/base.py", "hvd/hypervolume.py"],
    [("cached state of indicators", "hvd/hypervolume_derivatives.py, hvd/delta_p.py, hvd/mmd.py"), ("compiled objective and constraint functions", "hvd/problems/base.py")],
    technique=INTERP + ": comparison of the canonical results of a fresh and a used object",
    note="Each query is interpreted on a fresh object and on one that answered other queries first, or whose setting was assigned; the results must be the same term. An attribute read inside a cached or compiled function may not be assigned outside constructors.",
)
prop(
    "C26", "Different routes to the same indicator quantity agree",
    "The value, gradient and Hessian of an indicator do not depend on the route by which they are requested: the gradient is the same with and without the Hessian, supplying the objective values or Jacobians of the points gives what evaluating them internally gives, the value from points equals the value from their objective values, and a reference given as an array acts like the same reference set. "
    "A hypervolume configured for maximisation answers for f what one configured for minimisation answers for -f with the negated reference point, on every route.",
    ["inputs", "configurations"], "every indicator, every combination of supplied arguments, both orientations; all inputs",
    "Optimizers take one route (values and Jacobians supplied), tests mostly another; minimisation hides sign errors of the supplied route.",
    ["hvd/hypervolume_derivatives.py", "hvd/delta_p.py", "hvd/mmd.py"],
    [("evaluation of objectives inside indicators", "hvd/hypervolume_derivatives.py:_compute_objective_derivatives, hvd/mmd.py, hvd/delta_p.py"), ("orientation", "hvd/hypervolume_derivatives.py")],
    technique=INTERP + ": comparison of normalised result terms over paired interpretations",
    note="Both routes are interpreted over the same symbolic points; row-wise evaluations and supplied arrays are unified and signs are pushed to the leaves. Pairs where a part of the result is undetermined on one route only are counted, not reported.",
)
prop(
    "C17", "No function fails on its own naming",
    "On every path of every library function, each local is assigned before it is read (loops taken to run at least once), and every name, internal import and attribute of the object that is read is defined. "
    "An attribute that an object's constructor defines exists under every combination of its options, so no public method that follows construction, an iteration or logging finds it missing. "
    "Every call to an internal function, constructor or method passes what the callee declares: no missing, surplus, duplicate or unknown argument.",
    ["inputs", "configurations"], "every function, branch and error handler of the library, including those no test executes",
    "Tests execute a fraction of the branches; a name error in a fallback, an option or a rarely used problem surfaces only when a user gets there.",
    ["hvd"],
    [("all modules", "hvd/**/*.py")],
    technique="path-sensitive definite-assignment analysis, name, attribute and signature resolution over the syntax tree, and " + INTERP + " of all entry points",
    note="Covers every function definition. Attribute typestate is decided along public entry points with switches fixed both ways; attributes that may be missing only under correlated conditions are not reported.",
)
prop(
    "C10", "Benchmark problems use every decision variable, once, for any dimension",
    "For every number of decision variables a benchmark problem (DTLZ, its inverted and equality-constrained forms, ZDT, UF, CF and the convex families) can be built with, no objective or constraint function reads an index outside the decision vector, every variable is read by some objective function, "
    "and the index groups an objective or constraint aggregates over are disjoint from one another and from the position variables read individually.",
    ["inputs", "configurations"], "every problem class, number of variables and number of objectives",
    "An off-by-one in a strided index group shows only for the parities of the dimension no test uses: JAX clips an index outside the array without any error, and a dropped variable changes the optimum silently.",
    ["hvd/problems"],
    [("CF, UF index groups", "hvd/problems/cf.py, hvd/problems/uf.py"), ("DTLZ, ZDT and equality-constrained slices", "hvd/problems/dtlz.py, zdt.py, eqdtlz.py")],
    technique=INTERP + "; the index expressions under which the decision vector is read are extracted and decided for every residue class of the number of variables modulo their strides",
    note="WFG's vectorised reductions are not expressible as index chains and are excluded; the values computed from the variables are not checked.",
)
prop(
    "C18", "All computation stays in double precision",
    "Importing any module of the package leaves JAX in 64-bit mode before any array is created, whether or not the caller imported JAX earlier, and no library function converts to a narrower floating-point type, requests one as a dtype, or switches 64-bit mode off.",
    ["programs", "configurations"], "every import order and every public entry point",
    "A test process imports modules in one order; with another, Hessians used in a Newton step silently lose half of their digits.",
    ["hvd"],
    [("package configuration", "hvd/__init__.py"), ("numeric modules", "hvd/**/*.py")],
    technique="module-load event order and " + INTERP + " of every entry point; external calls are checked against the set of narrowing types",
    note="The 32-bit mode a user sets after importing the package is outside.",
)
prop(
    "C21", "Every line search is bounded, contracts, and applies what it accepted",
    "In every iteration of HVN, DpN and MMDNewton the step-size search makes a bounded number of trials, of positive lengths within the step limit, each shorter than the one before. "
    "Each trial evaluates the residual at the current point plus length times the Newton step, and of that trial point only; a trial whose residual norm (for DpN: of its own point) does not decrease relative to the current one is never accepted, whatever the trials before gave, and one that halves it is accepted at once. "
    "The update applied is the current point plus the accepted length times the same step; when every trial is rejected the length applied does not exceed the last one tried.",
    ["histories", "inputs"], "every sequence of accepted and rejected trials and every residual",
    "Tests see the few trial sequences their problems produce, mostly full steps; the rejected-trial paths decide convergence and termination elsewhere.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/line_search.py"],
    [("HVN", "hvd/line_search.py backtracking_line_search, HVN._get_phi_func, HVN.iterate"), ("DpN", "hvd/newton.py DpN._backtracking_line_search"), ("MMDNewton", "hvd/mmd_newton.py _backtracking_line_search_global")],
    technique=INTERP + " with interval-valued residuals: the trial sequence is unrolled and its comparisons decided by interval arithmetic for whole ranges of residual norms",
    note="Early exits for a numerically zero step or residual are outside; comparisons whose outcome the intervals do not decide are counted as undetermined and not reported.",
)
prop(
    "C22", "Evaluation counters count every derivative evaluation once",
    "The population record's counters of objective-Jacobian, constraint-Jacobian and constraint-Hessian evaluations grow by exactly the number of points at which a call evaluates those callbacks: one for a single point, the number of rows for a population, nothing when the derivative is not evaluated. "
    "Selecting rows of a population keeps the counters. After an iteration of HVN, DpN or MMDNewton the counters of the optimizer's population are the previous ones plus the evaluations of the population update and of every line-search trial, accepted or rejected, each counted once.",
    ["histories", "inputs"], "every iteration with any number of rejected line-search trials, any population size, any subset of callbacks present",
    "The counters are the cost measure the benchmarks report. A count lost in a discarded trial copy, doubled or reset by a row selection changes no result, so no test of results can notice it.",
    ["hvd/base.py", "hvd/newton.py", "hvd/mmd_newton.py"],
    [("State.eval_jac, State.eval_cstr_jac, State.eval_cstr_hess", "hvd/base.py"), ("State.__getitem__", "hvd/base.py"), ("trial evaluations in the line searches", "hvd/newton.py, hvd/mmd_newton.py")],
    technique=INTERP + ": symbolic counters, linear normal form of the counter after an iteration",
    note="All State methods that evaluate callbacks (point/population, batch/row-wise, each family present or absent) and iterations with 0 to 2 rejected trials per point; loops over points interpreted for one and two rows.",
)
prop(
    "C23", "A saved population is restored completely",
    "Saving the population record always succeeds, whichever callbacks are present and whatever has been evaluated, leaves the live record as it was and hands no callback to the serializer. "
    "Reading the written file back gives a record in which every field other than the callbacks is present with the value it had when it was saved, and which answers every question that needs no callback.",
    ["histories", "crash_points"], "every population record: fresh, with or without derivatives, after a row was replaced, a row selection; every subset of callbacks",
    "A field lost or renamed between the hand-written list of dropped entries and the attributes shows only when a stored population is used again; no test saves one.",
    ["hvd/base.py"],
    [("State.save, State.load", "hvd/base.py")],
    technique=INTERP + ": the dumped object is enumerated field by field and compared with the restored one",
    note="The serializer itself is replaced by a stand-in; five stages of a population times four sets of callbacks.",
)
prop(
    "C16", "Dominance predicate and non-dominated filter are exact",
    "is_dominate(l, r) is true exactly when no coordinate of l is larger than the corresponding coordinate of r and at least one is smaller, whatever the order of the coordinates, ties included. "
    "get_non_dominated (default mode) returns only rows no other row dominates and at least one copy of every such row, duplicates included; the indices returned with return_index and the rows returned without it denote the same selection rule. "
    "Neither these functions nor the non-dominated sort round objective values, compare them within a tolerance or shift them before comparing: dominance depends on the exact order of the values only.",
    ["inputs"], "every pair of objective vectors and every set of points: all order types of the coordinates including ties and duplicates",
    "Random test points never tie, never duplicate and are never within rounding of each other; converged populations are all three, and a front that silently loses or keeps points corrupts the hypervolume and its derivatives.",
    ["hvd/utils.py"],
    [("is_dominate", "hvd/utils.py"), ("get_non_dominated", "hvd/utils.py"), ("non_domin_sort and its helpers", "hvd/utils.py")],
    technique=INTERP + " over the finite domain of order types: branch conditions evaluated as comparison terms; tolerance and rounding operations located by value flow",
    note="Pairs: all order types for 2 to 4 objectives (1 to 5 thorough). Filter: all order types of 2 points with 2 or 3 objectives and of 3 points with 2 (4 points thorough). The ranks the sorting algorithm assigns are not decided, only that it compares exactly.",
)
prop(
    "C20", "The optimizers start inside the box, and probe only inside it",
    "Building HVN, DpN, MMDNewton or Lara from a starting population puts it into the box: a coordinate outside the bounds is set to the nearest bound of its own variable, a coordinate inside or on a bound is kept as given. "
    "Without a starting population (finite bounds), every coordinate is drawn over the whole range of its own variable and never beyond it. "
    "Every point at which the caller's functions are called while the optimizer is built lies in the box. "
    "Bounds given as one number, as a one-element list, or as one number per variable have the same meaning, and are in effect unchanged.",
    ["inputs", "configurations"], "all starting populations inside, outside and on the boundary, all random draws, several boxes (negative, non-unit, differing per variable), three ways to give bounds",
    "Test problems mostly use the unit box, where a one-sided clip, the range of the wrong variable or a probe in [0, 1] instead of the box goes unnoticed; a user's objective may be undefined outside its bounds.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/utils.py"],
    [("HVN/DpN._initialize, _check_constraints", "hvd/newton.py"), ("MMDNewton._initialize, _check_constraints", "hvd/mmd_newton.py"), ("Lara._initialize", "hvd/gradient_based.py"), ("set_bounds", "hvd/utils.py")],
    technique=INTERP + "; the resulting terms are evaluated in an interval domain per variable",
    note="Three variables, five boxes. Terms outside the evaluated operators are counted as undetermined (none on the current tree).",
)
prop(
    "C27", "Targets stay paired with their points and their components",
    "After ReferenceSet.match, the target of each point is the one the minimum-cost assignment pairs with that point, and it comes from the reference component that the point's partition was assigned to (also when there are fewer partitions than components); without a given partitioning each point belongs to its nearest component. "
    "shift moves exactly the targets it is told to (all by default, none for an empty selection; the whole set before any match), each by the given multiple of its own component's direction; a later match re-assigns the moved targets and brings in no others. With re_match off, match changes nothing. "
    "DpN and MMDNewton shift all targets in the first iteration, and their medoid history gains exactly one entry, the new position, for each target they shift and none for the others.",
    ["histories", "inputs"], "every outcome of the component assignment, several outcomes of the point assignments, histories of match, partial shift, full shift, re-match, for one to three components and given, computed or missing partitions and directions",
    "Tests match a single unclustered front once. Mixing up the numbering of points, partitions, components and medoids needs several components assigned out of order, and losing a shift shows only at the next match.",
    ["hvd/reference_set.py", "hvd/newton.py", "hvd/mmd_newton.py"],
    [("ReferenceSet.match, shift, set_medoids, _match_components, _partition_Y", "hvd/reference_set.py"), ("DpN._shift_reference_set", "hvd/newton.py"), ("MMDNewton._shift_reference_set", "hvd/mmd_newton.py")],
    technique=INTERP + " on symbolic points with every assignment outcome enumerated; targets evaluated as linear combinations of reference points and directions",
    note="Fixed small sizes (2 to 4 points, 1 to 3 components). That scipy's assignment is of minimum cost and that k-medoids picks good medoids is assumed.",
)
prop("C09", "Code run under JAX transformations is traceable", "Every function that the package passes to jit, vmap or a JAX derivative (problem objectives and constraints, their Jacobian and Hessian, MMD kernels and their derivatives, SMS-EMOA helpers) can be traced for every input: while it runs on traced arrays, no Python branch, loop bound, comparison, assertion or conversion (float, int, bool, item, tolist, min, max, range, an index or shape) depends on an array's values; no traced array is handed to a NumPy/host function or masks another array with a data-dependent result size; no array element is assigned in place; no traced array is stored on an object; and only arrays or declared static values are arguments of a jit-compiled function.",
     ["inputs", "programs", "configurations"],
     "every function that reaches a JAX transformation from any public entry point, for all argument values and every problem class and option",
     "A single operation on a traced value makes every call of that function raise (or silently reuse a leaked tracer). A problem, kernel or helper that works when called on NumPy arrays fails as soon as its Jacobian or batch version is requested, on the paths a test did not run.",
     ["hvd/problems/base.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/cf.py", "hvd/mmd.py", "hvd/moea/sms_emoa.py"],
     [("functions handed to jit/vmap/jacrev/jacfwd", "hvd/problems/base.py:MOP.__init__, CMOP.__init__"), ("kernel derivatives", "hvd/mmd.py:MMD.__init__, MMDMatching.__init__")],
     technique=INTERP + ", taint of traced arrays through every function reached from jit/vmap/jacrev/jacfwd, with rules on value-dependent control, conversions, host calls, masks, stores")
prop(
    "C19", "Every point keeps its own step, residual and step size",
    "In every Newton iteration (HVN, DpN, MMDNewton) the residual, the entries of the linear system, the step and the step size of a point are computed from that point's own data (values, derivatives, constraints, active set, multipliers) and stored at, tested for and applied to that same point. "
    "HVN iterates each point in exactly one group: the feasible points by their non-domination fronts, the infeasible points together with the first front (all points in one group when none is feasible). "
    "HVN's removal of coincident points keeps exactly one point of every set of coincident points.",
    ["inputs", "histories", "configurations"], "every population, every feasibility and dominance pattern, with and without constraints",
    "A point moved by its neighbour's step or multiplier, or left out of every group, still lets small test problems converge; populations in the tests are seldom partly feasible.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/utils.py", "hvd/base.py"],
    [("row loops of the step computation and the line search", "hvd/newton.py HVN, DpN; hvd/mmd_newton.py"), ("grouping by feasibility and fronts", "hvd/newton.py HVN.iterate"), ("duplicate removal", "hvd/newton.py HVN._check_population")],
    technique=INTERP + ": row provenance for a symbolic population, enumeration of feasibility, front and coincidence patterns",
    note="Loops over points are unrolled for a population of three symbolic points; each value carries the set of points it was computed from. Feasibility patterns, ordered splits into fronts and coincidence relations are enumerated completely.",
)
prop(
    "C28", "Selections keep points, objective values and records of one individual",
    "bootstrap_reference_set makes exactly max_iters Newton iterations, each followed by one log entry, and replaces the reference set at every `interval`-th of them but never before the first; "
    "afterwards optimizer, indicator and caller hold one and the same reference-set object, and the returned list has one entry per replacement. "
    "Row i of the returned points and row i of the returned objective values are the same individual, selected from the last `last_n` populations recorded before an iteration. "
    "In SMS-EMOA's survival the individual of least hypervolume contribution leaves the splitting front, and the hypervolume record drops the same individual together with its dominated samples and its contribution. "
    "In MOEA/D an offspring replaces exactly the neighbours it is strictly better than, each compared with its own values, constraint violation and weight vector. "
    "run() of every optimizer returns the points and the objective values of the final population.",
    ["inputs", "histories", "configurations"],
    "all populations and filter outcomes (as symbols), several numbers of iterations, intervals and windows, with and without the set generator and matching",
    "The driver is covered by no test and its filters select data-dependent rows; a selection applied to one of two parallel arrays, or with another index, keeps every shape and gives plausible values.",
    ["hvd/bootstrap.py", "hvd/moea/sms_emoa.py", "hvd/moea/moead.py", "hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
    [("bootstrap_reference_set, filter_outliers", "hvd/bootstrap.py"), ("LeastHypervolumeContributionSurvival._do, ApproximateMonteCarloHypervolume.delete", "hvd/moea/sms_emoa.py"), ("ConstraintAwareMOEAD._replace", "hvd/moea/moead.py"), ("run", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py")],
    technique=INTERP + " with symbolic populations per iteration; comparison of the row-selection chains of paired arrays, event counts, object identity",
    note="One to six iterations. The removal loop and the replacement are judged where their index terms are resolved, otherwise counted as not decided. The quality of outlier filter and clustering is outside.",
)
prop(
    "C29", "The packed Newton system keeps every entry in its place",
    "In every Newton step of HVN, DpN and MMDNewton, for every number of points, variables and multipliers and every pattern of active multipliers (none and all included), the linear system that is solved is, entry by entry, the Newton system of the residual: "
    "its right-hand side holds the gradient plus active multipliers times constraint gradients of each point and the values of its active constraints; its matrix the indicator Hessian (with the curvature of the active constraints in HVN and DpN), the gradients of the active constraints and zeros. "
    "Each entry of the solution is returned at the point and component it was solved for, inactive multipliers get a zero step, and the returned residual holds the same entries. The direct solver and the least-squares fallback are given the same system.",
    ["inputs"],
    "all values of gradients, Hessians, multipliers and constraints (as unknowns), every activity pattern for two points and two multipliers, further patterns for up to four points",
    "Tests solve problems where one constraint is active at all points or none is; a packing that mixes rows, transposes a block or shifts an offset shows only where points have different active sets.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/utils.py"],
    [("HVN, DpN._compute_netwon_step and _compute_R", "hvd/newton.py"), ("MMDNewton._compute_netwon_step and _compute_R, Nd_vector_to_matrix", "hvd/mmd_newton.py"), ("matrix_to_Nd_vector, Nd_vector_to_matrix", "hvd/utils.py")],
    technique="abstract interpretation of the syntax tree with arrays of fixed shape whose elements are polynomials over unknowns; comparison of every entry of the solved system and the returned step with the prescribed ones",
    note="Shapes are enumerated up to a bound, values are not. Constructs without an element-level model make a pattern undecided, which is counted.",
)
prop(
    "C30", "Derivatives of distance-based indicators are those of their own values",
    "For every point set in general position, reference set, kernel and objective Jacobians and Hessians, the gradient and Hessian that MMD, MMDMatching, GenerationalDistance and InvertedGenerationalDistance return, with respect to decision variables and, for the discrepancies, to objective values, "
    "are the first and second derivative of the value their compute() returns: every entry, including cross-derivatives between points, for any weight beta and any number of points and references. GD's derivatives are those of value**p for the p it was built with, IGD's (p = 2) those of value**2, "
    "and with matching those of the sum of squared distances to the points matched in that call. The package's kernels are even functions of the difference of their arguments, on which this relies.",
    ["inputs"],
    "all values of coordinates, kernels and derivatives (as unknowns); up to three points, four references and three variables, every nearest-neighbour assignment of the smaller sizes",
    "Tests compare with finite differences at a few point sets, p = 2 and equal numbers of points and references; a wrong normalisation, exponent or index shows only elsewhere.",
    ["hvd/mmd.py", "hvd/delta_p.py"],
    [("MMD, MMDMatching.compute, compute_derivatives, compute_gradient, compute_hessian", "hvd/mmd.py"), ("GenerationalDistance, InvertedGenerationalDistance.compute, compute_derivatives", "hvd/delta_p.py"), ("rbf, rational_quadratic, laplace, _assemble_decision_hessian", "hvd/mmd.py")],
    technique="abstract interpretation of the syntax tree with arrays of fixed shape whose elements are polynomials over unknowns; term-by-term differentiation of the abstract value and comparison with every returned entry",
    note="Shapes are enumerated up to a bound, values are not. Differentiability at coinciding points is assumed. Constructs without an element-level model make a case undecided, which is counted.",
)
prop(
    "C31", "Hypervolume gradient and Hessian are the derivatives of the hypervolume",
    "For every approximation set in general position, dominated points included, reference point, number of objectives and objective Jacobians and Hessians, HypervolumeDerivatives returns the derivatives of the dominated volume that compute() returns: "
    "every entry of the gradient and of the Hessian, with respect to decision variables and to objective values, cross-derivatives between points included, zero for dominated points. "
    "This holds for minimisation and maximisation, and whether or not objective values and the Jacobian are passed in. (That hypervolume() itself is the volume, and the sort exact, is taken as given here.)",
    ["inputs"],
    "all values of coordinates, Jacobians and Hessians (as unknowns); every order type of up to three points in two and three objectives (thorough: four points in two, two points in four)",
    "Tests compare a few random sets with automatic differentiation and finite differences; the case split depends on the order of the points along each axis.",
    ["hvd/hypervolume_derivatives.py"],
    [("HypervolumeDerivatives._compute_gradient, _compute_hessian, _project, hypervolume_dY, _compute_objective_derivatives, compute_derivatives, compute", "hvd/hypervolume_derivatives.py"), ("hypervolume_improvement", "hvd/hypervolume_derivatives.py")],
    technique="abstract interpretation of the syntax tree with arrays of fixed shape whose elements are polynomials over unknowns ordered by an enumerated order type; comparison of every returned entry with the derivative of the dominated volume",
    note="hypervolume() and non_domin_sort are replaced by their specifications. Shapes and order types are enumerated up to a bound, values are not. Ties are not covered. Constructs without an element-level model make a case undecided, which is counted.",
)
# @@MORE@@

prop("N01", "The hypervolume value is the dominated volume", "The hypervolume indicator returns the measure of the region dominated by the approximation set and bounded by the reference point, for every point set and reference point.",
     ["inputs"], "all point sets and reference points", "Tests compare a handful of point sets with known numbers.", ["hvd/hypervolume.py"], [("HyperVolume.compute, hvRecursive", "hvd/hypervolume.py")],
     na="Equality of a dimension sweep over a run-time linked list with a volume is a functional-correctness proof over reals; no sound static analysis of the source in reach decides it. C31 decides the derivatives given the value.")
prop("N03", "Newton iterations converge to the reference set", "From a starting population near the optimum the Newton optimizers converge to a stationary set with decreasing residual.",
     ["inputs", "histories"], "all problems and starting populations", "Tests run a few problems for a few iterations.", ["hvd/newton.py", "hvd/mmd_newton.py"], [("iterate", "hvd/newton.py, hvd/mmd_newton.py")],
     na="Depends on the real-valued dynamics of a run, which no static argument over the source bounds.")
prop("N04", "Benchmark problems compute the published formulas", "Each benchmark problem's objectives and constraints are the formulas of its publication.",
     ["inputs"], "all decision vectors", "Tests compare selected points with other implementations.", ["hvd/problems"], [("problem formulas", "hvd/problems")],
     na="The oracle would be a second copy of the formulas, and comparing the source with it a frozen-text proxy; C06, C07, C09 and C10 decide their structure.")
prop("N05", "Non-dominated sorting returns the true fronts for any number of points", "The fronts of the non-dominated sort partition the points by dominance rank for every number of points and objectives.",
     ["inputs"], "all point sets", "Tests sort a few fixed sets.", ["hvd/utils.py"], [("non_domin_sort and helpers", "hvd/utils.py")],
     na="An inductive property of a divide-and-conquer over run-time index lists; C16 decides its predicate, the filter, and the absence of tolerances.")



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q hvdlint", "checks": checks, "not_applicable": na}, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
SDP = "inflation/sdp/InflationSDP.py"; LP = "inflation/lp/InflationLP.py"; IP = "inflation/InflationProblem.py"
LPU = "inflation/lp/lp_utils.py"; SDPU = "inflation/sdp/sdp_utils.py"
LPW = "inflation/lp/writer_utils.py"; SDPW = "inflation/sdp/writer_utils.py"
UT = "inflation/utils.py"; OPT = "inflation/optimization_utils.py"
LPM = "inflation/lp/monomial_classes.py"; SDPM = "inflation/sdp/monomial_classes.py"; MU = "inflation/sdp/monomial_utils.py"
FN = "inflation/sdp/fast_npa.py"; NB = "inflation/lp/numbafied.py"; QT = "inflation/sdp/quantum_tools.py"

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("H01", "Changing the problem invalidates the previous solution",
  "After any call on an LP or SDP program that changes which problem would be solved (values or distribution, objective or its direction, bounds, extra equalities or inequalities, a reset of any group, a new relaxation), nothing computed by an earlier solve can still be read from the program: its objective value, solver result, success flag and certificate are gone and its status says that the problem has not been solved.",
  ["histories"], "Every sequence of public calls that contains a solve followed by a change of the specification, on both program classes.",
  "The tests never look at a solved program after modifying it, and in an environment without a solver licence they never hold a solution at all.",
  [SDP, LP], [("set_* / reset / update_values / generate_relaxation drop the solution", f"{SDP}, {LP}"), ("removal of result attributes", f"{SDP}:_reset_solution, {LP}:_reset_solution")],
  ["attributes objective_value, primal_objective, solution_object, success, status", "certificate_as_dict()"])
p("H02", "Cached lookups and views never describe an earlier problem",
  "Every view, lookup table or intermediate object that an LP or SDP program caches between calls agrees, whenever it is used, with what recomputing it from the current state of the program would give. No change made through the public interface (new bounds, values, objective, extra constraints, another relaxation) may leave a cached copy in use that was computed before the change.",
  ["histories"], "Every sequence of public calls, with any cached view read before and after any change.",
  "A test would have to read each cached view both before and after each kind of change; the suite builds a fresh program for almost every assertion.",
  [SDP, LP, IP], [("cached properties and lazily filled attributes", f"{LP}, {SDP}, {IP}"), ("mask matrices rebuilt for a new relaxation", f"{SDP}:generate_relaxation, {SDP}:_prepare_solver_arguments")],
  ["atom and monomial lookups used by set_distribution", "equalities and inequalities by name in exported files", "arguments of the solver call"])
p("H03", "Memoised computations depend on nothing outside their key",
  "A memoised computation on operator products (canonical form, orbit representative, atomic or compound monomial lookup) returns for every request what computing that request afresh would return. Each argument and each changeable setting its result depends on takes part in the memo key, so the order of earlier requests never matters.",
  ["histories", "inputs"], "Every order of requests, with every combination of their arguments.",
  "Tests issue few requests in one fixed order on fresh programs; a polluted memo shows only for specific later requests.",
  [SDP, LP, IP, OPT], [("memo dictionaries for canonical forms and monomials", f"{SDP}:_to_canonical_memoized_1d, {SDP}:_to_inflation_repr_1d, {SDP}:_AtomicMonomial, {SDP}:_monomial_from_atoms, {LP}:_AtomicMonomial")],
  ["canonical form returned for a sequence of operators", "monomial objects returned by sanitising user input"])
p("H04", "The objective handed to the solver reflects the current objective and values",
  "At every solve the objective handed to the solver is the objective set last, with the values that are fixed (and the proportionality relations that hold) at that moment substituted into it, whatever the order in which objective and values were set, updated or reset. Substituting values never alters the stored objective itself, so changing or resetting the values later gives the same problem as never having set them.",
  ["histories"], "Every interleaving of set_objective, set_values, update_values, set_distribution and reset before a solve.",
  "The tests set an objective once and values once, in one order, and inspect no solver arguments; the solver cannot run here.",
  [SDP, LP], [("objective with known values substituted", f"{SDP}:_update_objective"), ("recomputed on value changes", f"{SDP}:_cleanup_after_set_values, {SDP}:_reset_values")],
  ["objective entry of the solver arguments"])
p("H05", "Reset restores exactly the requested group, and 'all' covers every group",
  "Resetting a named group (values, bounds, lower bounds, upper bounds, objective) puts everything in that group back to the state of a freshly built program and leaves the other groups as they were, given as a name or inside a list. Resetting everything covers every group, including the extra equalities and inequalities, which are discarded together with the values.",
  ["histories", "inputs"], "Every state reachable by public calls, every reset group, every list of groups.",
  "The suite checks two reset calls on one small scenario; it cannot cover each piece of state times each group.",
  [SDP, LP], [("reset dispatcher and the per-group resets", f"{SDP}:reset, {LP}:reset")],
  ["known and semi-known moments, bounds, objective, extra constraints after reset"])
p("H06", "Setting a component replaces it; nothing of the earlier setting survives",
  "After setting values, a distribution, the objective, the bounds of one kind or the extra equalities or inequalities of an LP or SDP program, no entry of an earlier setting of the same component remains: the component is what it would be had the earlier call never happened. Only updating values is incremental.",
  ["histories"], "Every pair of calls to the same setter with any arguments (including none), with any other calls between them.",
  "A test would need a second setting whose entries do not cover the first; the suite resets the program or builds a new one instead.",
  [SDP, LP], [("setters start from a cleared component", f"{SDP}:set_values, {SDP}:set_bounds, {SDP}:set_objective, {SDP}:set_extra_equalities, {LP} likewise")],
  ["known and semi-known moments, bounds, objective, extra constraints"])
p("H07", "Each operation changes only the component it is asked to change",
  "Setting bounds, the objective, values or extra constraints leaves all other user-specified components as they were, except that setting or resetting values discards extra constraints and may drop bounds of moments that became known (and, for supports problems, turns values into lower bounds). Solving, exporting to a file, reading or evaluating a certificate, and evaluating polynomials change no user-specified component at all, so doing them twice gives the same problem twice.",
  ["histories"], "Every public call on every reachable state.",
  "Needs the complete state to be compared around each call; the tests look only at the component just set.",
  [SDP, LP, SDPU, LPU, SDPW, LPW], [("solver arguments are built as new objects", f"{SDP}:_prepare_solver_arguments, {LP}:_prepare_solver_matrices"), ("exporters read the program", f"{SDPW}, {LPW}")],
  ["user-specified components before and after the call"])
p("T01", "Every user-specified component reaches the solver",
  "When an LP or SDP program is solved, every user-specified component reaches the solver: the objective, every known value, every proportionality relation, every built-in and every extra equality, every built-in and every extra inequality, every lower bound and every upper bound, on every moment of the program and whatever the value of the bound or coefficient. Options given to the solve call (primal or dual form, verbosity, solver parameters, default sign of the variables) reach the solver under their own meaning.",
  ["inputs", "configurations"], "Every specification and every combination of solve options.",
  "No test inspects what is passed to the solver, and solves that would reveal a missing constraint need a licence; a dropped component shows only when it is binding.",
  [SDP, LP, LPU], [("SDP solver arguments", f"{SDP}:_prepare_solver_arguments, {SDP}:solve"), ("LP solver matrices", f"{LP}:_prepare_solver_matrices, {LP}:solve"), ("dictionary to matrix conversion", f"{LPU}:solveLP, {LPU}:convert_dicts")],
  ["arguments received by the solver interface functions"])
p("T02", "The SDP solver builds the stated problem and its exact dual",
  "The semidefinite solver interface builds, in primal mode, the maximisation of the objective subject to the moment matrix being positive semidefinite, each inequality expression being at least zero and each equality expression being zero, with known values and proportionality relations substituted everywhere; and in dual mode the Lagrange dual of that same problem, minimised. Every term of every component appears once in each mode with the sign and the cone the formulation requires, for every combination of components that are present or absent.",
  ["inputs", "configurations"], "Every problem description, both solution modes, with any subset of the components present.",
  "Building the model needs a solver licence in the tests; one missing or sign-flipped term changes optimal values only for problems where it binds.",
  [SDPU], [("model construction", f"{SDPU}:solveSDP_MosekFUSION")],
  ["objective sense, objective terms, constraint terms, variable and constraint cones of the model"])
p("T03", "Exported files contain the whole problem",
  "Every file format that the programs export (LP and MPS text, SDPA, CSV, MAT) contains every component of the problem the user specified: objective, known values, proportionality relations, all equalities and inequalities including the extra ones, all lower and all upper bounds. Every entry is written as a complete record of its own, for any number of entries of each kind.",
  ["inputs"], "Every specification and every export format.",
  "The exporter tests write one SDP example (and are not collected without a solver); no test reads an exported LP or MPS file back.",
  [LPW, SDPW, LP, SDP], [("LP exporters", f"{LPW}:write_to_lp, {LPW}:write_to_mps, {LPW}:process_arguments"), ("SDP exporters", f"{SDPW}:write_to_csv, {SDPW}:write_to_mat, {SDPW}:write_to_sdpa")],
  ["contents of the written file"])
p("T04", "Exported bounds and constraints keep their sense and sign",
  "In every exported LP, MPS and SDPA file a lower bound constrains its variable from below by its value, an upper bound from above by its value, an equality stays an equality and an inequality keeps its direction, with known values moved to the constant side with the opposite sign. This holds whatever the sign of the bounds, coefficients and known values.",
  ["inputs"], "Every sign combination of bounds, coefficients and known values, every number of constraints.",
  "The one exported example in the suite has only positive bounds and values and a single constraint of each kind.",
  [LPW, SDPW], [("LP and MPS records", f"{LPW}:write_to_lp, {LPW}:write_to_mps, {LPW}:format_constraint_lp"), ("SDPA records", f"{SDPW}:write_to_sdpa")],
  ["contents of the written file"])
p("M01", "All forms of a component of an LP agree",
  "A component of a linear program exists as a dictionary over moments, as a dictionary over names, as a sparse matrix and as an argument of the solver interface. In every form it has the same coefficient for the same moment in the same constraint: for values that are zero or negative, for components with no, one or many entries, in any order of the moments, for built-in and extra constraints together, and whether the solver interface is given dictionaries, matrices or both. A proportionality relation x = f*y is everywhere the equation x - f*y = 0, whether or not there are other equalities.",
  ["inputs"], "Every set of components, every value and every order of the moments.",
  "Tests compare a few matrices of one scenario; conversions go wrong for the empty component, the single entry, the unsorted order or the zero value.",
  [LP, LPU, UT], [("matrix and name forms", f"{LP}:_mon_dict_to_coo_vec, {LP}:_coo_mat_to_dict, {LP}:sparse_semiknown, {LP}:sparse_extra_equalities"), ("solver interface", f"{LPU}:solveLP, {LPU}:convert_dicts, {LPU}:to_sparse"), ("stacking", f"{UT}:vstack")],
  ["sparse_*, *_by_name and moment_* properties; arguments received by solveLP_sparse"])
p("T05", "The LP solver receives exactly the stated problem or its exact dual",
  "In every combination of its options, with any subset of the components given or omitted, the LP solver interface hands the solver, in primal form, the maximisation of the objective subject to each inequality row being at least zero, each equality row being zero, each known variable being its value, and each variable being within its own bounds (non-negative by default if requested and not bounded explicitly); and in dual form the exact linear dual of that problem, minimised. Relaxations add one common slack variable to exactly the rows they relax, with the sign that relaxes them. Primal value, dual value, variable values and certificate entries are taken from the matching parts of the solution.",
  ["inputs", "configurations"], "Every problem, every subset of components, all sixteen combinations of primal/dual form, default sign and the two relaxations.",
  "The tests cannot call the solver here, and a misplaced row key, sign or width matters only for the component subset and mode in which it occurs.",
  [LPU, UT], [("assembly of constraint matrix, bound keys and objective", f"{LPU}:solveLP_sparse"), ("stacking and expansion of sparse blocks", f"{UT}:vstack, {UT}:expand_sparse_vec")],
  ["arguments of the solver's data input; returned solution dictionary"])
p("V01", "All presentations of a polynomial or certificate agree",
  "A polynomial given as a dictionary over moments, and the certificate of a solution, are the same polynomial as a dictionary, as text, as a symbolic expression and when evaluated on a distribution: every term appears once with its own coefficient and sign, the constant included, for any coefficients (zero, negative, one) and any number of terms, none included. A moment that occurs under several names (such as the unit moment and the constant term) has the sum of their coefficients. Cleaning only multiplies all coefficients by one positive factor and rounds, with the tolerances that were given.",
  ["inputs"], "Every polynomial, every pattern of signs and zeros of its coefficients, every certificate a solver returns.",
  "The tests read a few certificates of small problems; terms are lost or change sign for coefficients, combinations of terms and empty results that the samples do not contain.",
  [LP, SDP, UT], [("certificates", f"{LP}:certificate_as_dict, {SDP}:certificate_as_dict"), ("texts, expressions and values", f"{LP}:string_from_dict, {SDP}:string_from_dict, {LP}:probs_from_dict, {LP}:evaluate_polynomial"), ("cleaning", f"{UT}:clean_coefficients")],
  ["certificate_as_dict, certificate_as_string, certificate_as_probs, string_from_dict, probs_from_dict, evaluate_polynomial, evaluate_certificate"])
p("S01", "Maximisation and minimisation are treated consistently end to end",
  "An objective set for maximisation is handed to the solver as it is and its optimum reported as it is; an objective set for minimisation is handed over negated and its optimum is negated back, so the reported value is always in the user's sign convention. The direction always belongs to the objective set last, and without a stated direction the problem is a maximisation.",
  ["histories", "inputs"], "Every objective, direction and history of objectives.",
  "Checking a reported optimum needs a solver; only the combination of the two sites is right or wrong.",
  [SDP, LP], [("sign on the way in", f"{SDP}:set_objective, {LP}:set_objective"), ("sign on the way out", f"{SDP}:solve, {LP}:solve")],
  ["objective entry of the solver arguments; objective_value after solve"])
p("S02", "Bounds become constraints of the right direction with the right constant",
  "Wherever a program or one of its utilities turns bounds into constraints, a lower bound l on a moment x becomes the inequality x - l >= 0 and an upper bound u becomes u - x >= 0, with the bound's own moment and value, for bounds of any sign; a fixed value v becomes x = v. A bound of zero is still a bound.",
  ["inputs"], "Every set of bounds with values of any sign, including zero, in every conversion.",
  "Tests set one upper bound and inspect dictionaries, never the constraints they are turned into.",
  [SDP, LP, UT, LPU], [("SDP solver arguments", f"{SDP}:_prepare_solver_arguments"), ("LP solver arguments with bounds as inequalities", f"{LP}:_prepare_solver_arguments, {LP}:_prepare_solver_matrices"), ("sparse vector expansion", f"{UT}:expand_sparse_vec")],
  ["inequalities passed to the solver interface"])
p("S03", "Certificates accumulate the contribution of every component",
  "A dual certificate returned by the semidefinite solver interface assigns to each known moment the sum of its contributions from the objective, from the moment matrix, from every inequality and from every equality in which it occurs, each weighted by the corresponding multiplier. No contribution replaces another, in either solution mode.",
  ["inputs", "configurations"], "Every problem in which a known moment occurs in more than one component, both solution modes.",
  "Certificates exist only after a solve, which the tests cannot do here; an overwritten contribution changes the certificate only when two components share a known moment.",
  [SDPU], [("certificate assembly", f"{SDPU}:solveSDP_MosekFUSION")],
  ["dual_certificate in the returned solution"])
p("O01", "Public calls never modify what the caller passes in",
  "No public function, method or constructor of the package modifies an object the caller passes as an argument (dictionaries, lists, arrays, sparse matrices), and no later call modifies an object that was passed in earlier. Default arguments and module-level data are never modified either, so a call behaves the same however often it is made.",
  ["histories", "inputs"], "Every public entry point, every argument, any later call.",
  "Tests pass literals and never look at the arguments again.",
  [SDP, LP, IP, UT, LPU, SDPU, LPW, SDPW, OPT, FN, QT, MU, NB], [("copies made before in-place work", "deepcopy / .copy() / new dictionaries throughout")],
  ["the argument objects after the call"])
p("O02", "Programs built on one scenario never modify it or each other",
  "An InflationProblem is unchanged by every LP or SDP program built from it, during construction and during any later use of the program. Any number of programs, of either kind and with any options, can therefore be built from the same scenario in any order and behave as if each had a scenario of its own.",
  ["histories", "configurations"], "Every number and order of programs built on one scenario, with any options and later calls.",
  "Test classes share scenarios but never compare them before and after; a corrupted array shows only in a program built later.",
  [SDP, LP, IP, LPM], [("arrays copied before adjustment", f"{SDP}:__init__, {LP}:__init__")],
  ["attributes of the InflationProblem after building and using programs"])
p("E01", "Equality, order and hash of monomials are consistent and permanent",
  "Monomials that compare equal have the same hash, and neither equality, ordering nor hash of an existing monomial ever changes, whatever is done to the program later. The conjugate of an atomic monomial carries, in every identifying field, the data of the conjugate and not of the original.",
  ["histories", "inputs"], "All pairs of monomials, at all times.",
  "Dictionaries keyed by monomials pervade the package; tests exercise a handful of monomials and only immediately after creation.",
  [LPM, SDPM], [("comparison and hashing", f"{LPM}:InternalAtomicMonomial, {LPM}:CompoundMoment"), ("conjugation", f"{SDPM}:InternalAtomicMonomialSDP.dagger")],
  ["==, <, hash() and names/symbols of monomials"])
p("E02", "The same product of operators is always the same registered monomial",
  "Within one program, any two ways of asking for a product of the same factors, in any order of the factors, yield the same monomial object with the same index; a vanishing factor makes the product the zero monomial and trivial factors do not count. Every monomial created is registered under its factors, name, alternative name and symbol before it is returned, so later lookups by any of them find it.",
  ["histories", "inputs"], "All requests for monomials by array, factors, name or symbol, in any order.",
  "Tests look up a few monomials; duplicates arise only for particular orders of factors or requests.",
  [SDP, LP], [("factories with lookup tables", f"{SDP}:_monomial_from_atoms, {SDP}:_AtomicMonomial, {LP}:_monomial_from_atoms, {LP}:_AtomicMonomial")],
  ["identity of monomials returned; keys of the lookup tables"])
p("F01", "A numeric objective is reported only for a successful solve",
  "A program reports a numeric objective value and success only when the solver returned an optimal (feasible) solution; for every other outcome, including solver errors, it reports success as false and the status in place of the objective value. Every way out of the solver interface reports a status.",
  ["fault_sequences", "inputs"], "Every solver outcome: optimal, infeasible, unknown, error raised at any point.",
  "Solver failures cannot be provoked by the tests and no outcome is available without a licence.",
  [SDP, LP, SDPU, LPU], [("outcome handling in solve", f"{SDP}:solve, {LP}:solve"), ("status of the solver interface", f"{SDPU}:solveSDP_MosekFUSION, {LPU}:solveLP_sparse")],
  ["success, status, objective_value after solve; returned solution objects"])
p("F02", "Unknown options are rejected before anything changes",
  "An option value the package does not know (kind of bound, direction of optimisation, reset group, export format, optimisation method, conversion style, classical-source keyword) raises an error; it is never silently taken for one of the known values or ignored. A rejected single option value changes nothing in the program and writes no file.",
  ["inputs"], "Every option-taking public entry point, every value outside the documented set.",
  "Tests pass only valid options.",
  [SDP, LP, IP, UT, OPT], [("option dispatch", f"{SDP}:set_bounds, set_objective, reset, write_to_file; {LP} likewise; {UT}:expand_sparse_vec; {OPT}:max_within_feasible; {IP}:__init__")],
  ["exception raised; state after it"])
p("F03", "Ill-posed requests are refused instead of computed",
  "Solving an SDP before a relaxation has been generated raises an error before the solver is called; asking for a certificate when there is no current solution raises an error; setting a distribution of a shape that does not fit the scenario is refused by LP programs before any value is set; known values outside the program's moments are refused before the solver is called.",
  ["histories", "inputs"], "Every history lacking the prerequisite, every array of wrong shape.",
  "Tests follow the intended order of calls and pass arrays of the right shape.",
  [SDP, LP], [("guards at entry", f"{SDP}:solve, {SDP}:_prepare_solver_arguments, {SDP}:set_distribution, {SDP}:certificate_as_dict; {LP} likewise")],
  ["exception raised; state after it"])
p("C01", "The commutation rule follows the network: symmetric and source-based",
  "Two operators fail to commute exactly when they use the same copy of some common source that is quantum for their combination of parties and, in addition, either use different copies of some other common source, or use the same copies of all common sources and belong to the same party with different settings. In particular operators with no quantum copy in common commute, and operators of different parties that use the same copies of all their common sources commute. The rule is symmetric and does not depend on outcomes.",
  ["inputs"], "All pairs of operators of all scenarios with any mix of classical, quantum and intermediate latents.",
  "Tests list commutation relations of a few operators in three scenarios; the table has hundreds of cases.",
  [FN, IP], [("pairwise rule", f"{FN}:nb_operators_commute"), ("matrix of the rule", f"{FN}:commutation_matrix")],
  ["entries of the non-commutation matrix"])
p("C02", "Shared copies, knowability and zero products are decided from indices alone",
  "Two operators share a source exactly when they use the same copy of some source that both use; a product is do-conditional exactly when no source is used in two different copies, and knowable exactly when in addition no party measures twice (products of at most one operator always are). A product vanishes exactly when it contains adjacent orthogonal operators or is the zero operator.",
  ["inputs"], "All products of operators and all inflation indices.",
  "Tests evaluate these predicates on a few explicit arrays.",
  [FN, NB], [("index predicates", f"{FN}:nb_exists_shared_source, {FN}:nb_is_knowable, {FN}:lexmon_is_zero, {NB}:nb_is_do_conditional")],
  ["values of the predicates; knowability of monomials"])
p("G01", "The compiled and the pure-Python configuration are the same program",
  "The package works with and without its optional just-in-time compiler: every name used by the numerical kernels is defined in both configurations, and both configurations use the same definitions of the kernels (only the search for connected components is left to a library routine on the same matrix when the compiler is missing).",
  ["configurations"], "Both configurations, every kernel.",
  "The tests run only in the configuration installed here.",
  [FN, NB], [("fallback branch of the optional import", f"{FN}, {NB}")],
  ["import and use of the kernels without the optional compiler"])
p("K01", "Values of moments determine the values of their products",
  "After any sequence of setting and updating values or distributions, the known moments are determined by the values set since the last request that replaced them: a moment given a value has it; a product of which every factor is known has the product of the factors' values; under linearized polynomial constraints a product with some known and some unknown factors is proportional, with the product of the known factors' values, to the product of the remaining factors, and it is zero if a known factor is zero; everything else is unknown. What followed from values that have been replaced does not survive. Missing values (NaN) set nothing. Setting a distribution gives a value to every knowable moment.",
  ["inputs", "histories"], "Every set of values (zero and missing ones included), every history of updates, both kinds of program.",
  "The tests set distributions without zeros once and look at a few moments; stale zeros and proportionalities arise only for particular values and orders of calls.",
  [SDP, LP, LPM], [("propagation of values", f"{SDP}:update_values, {LP}:update_values, {SDP}:_product_moments, {LP}:_product_moments"), ("entry points", f"{SDP}:set_distribution, {LP}:set_distribution, {SDP}:set_values"), ("value of a product", f"{LPM}:CompoundMoment.compute_marginal")],
  ["known_moments and semiknown_moments after the call"])
p("K02", "Set marginals equal the marginals of the distribution",
  "The value given to a knowable moment by a distribution is the marginal over the parties that do not take part, at the outcomes and settings of the parties that do, wherever and in whatever order they stand in the moment and whatever other dimensions the array has. Outcomes of the moment that are impossible have value zero. An effective setting is translated into the private setting of its own party.",
  ["inputs"], "All arrays, numbers of parties, knowable moments, outcomes and settings.",
  "The tests compare a few marginals of distributions that are symmetric or two-valued, where exchanging axes goes unnoticed.",
  [MU, SDPM, LPM, IP], [("marginals", f"{LPM}:InternalAtomicMonomial.compute_marginal, {MU}:compute_marginal"), ("settings", f"{IP}:rectify_fake_setting")],
  ["compute_marginal of atomic moments; known_moments after set_distribution"])
p("A01", "Canonical forms are unique and equal to what they replace",
  "Any two sequences of operators that are equal up to exchanging neighbours that commute have the same canonical form, the canonical form is reachable from the sequence by such exchanges (after removal of repeated projectors, when idempotence is applied), and it is its own canonical form. A sequence is recognised as zero only if some arrangement of it has orthogonal neighbours or it contains the zero operator, and what is recognised as zero does not depend on the arrangement when all operators commute.",
  ["inputs"], "All sequences of operators and all commutation relations.",
  "The tests canonicalise a few products of one scenario; the number of arrangements and relations is exponential.",
  [FN], [("canonicalisation", f"{FN}:nb_lexmon_to_canonical, {FN}:to_canonical_1d_internal"), ("zero and repeated operators", f"{FN}:lexmon_is_zero, {FN}:remove_projector_squares")],
  ["canonical form of every product"])
p("A02", "Overlap and commutation tables follow the copy indices",
  "Two operators overlap exactly when they use the same copy of a source that both use. The overlap table and the non-commutation table of a list of operators contain, at every pair of positions, the relation of the operators at these positions; the tables are symmetric. A product is recognised as all-commuting exactly when no two of its operators fail to commute.",
  ["inputs"], "All lists of operators, all patterns of equality between copy indices, parties and settings.",
  "Tests evaluate a few explicit arrays; a transposed pair or a skipped position needs a particular pattern of indices.",
  [FN], [("overlap", f"{FN}:nb_exists_shared_source, {FN}:nb_overlap_matrix"), ("commutation", f"{FN}:nb_operators_commute, {FN}:commutation_matrix, {FN}:nb_all_commuting_q")],
  ["entries of the tables"])
p("A03", "Factorisation splits a product into exactly its independent parts",
  "A product is split into the connected components of the relation of sharing a copy of a source, both with and without the compiler: operators that are connected through a chain of overlaps stay together, those that are not are separated, every operator is in exactly one factor and keeps its order within it. Requests for canonical or unordered factors change only their order.",
  ["inputs", "configurations"], "All products and all overlap relations.",
  "A chain that closes late or a component met out of order occurs in few products; the tests factorise a handful.",
  [IP, FN], [("components", f"{FN}:nb_classify_disconnected_components"), ("factorisation", f"{IP}:factorize_monomial_1d")],
  ["factors of every product"])
p("A04", "Knowability and positivity are decided by the definition",
  "A product of operators is classified as do-conditional exactly when no source is used in two different copies, and as knowable in a network exactly when in addition no party measures twice; outside of networks it must also contain all parents of its parties, with the outcomes that the settings state. A moment is recognised as non-negative exactly when, in each independent part of the operators of each party, at most one operator remains after equal outer operators have been removed (if sandwiches are considered; at most one operator otherwise).",
  ["inputs"], "All products of operators, all patterns of equality between copies, parties, settings and outcomes.",
  "The tests evaluate these predicates on a few explicit arrays.",
  [FN, NB, IP, LPM], [("knowability", f"{FN}:nb_is_knowable, {NB}:nb_is_knowable, {NB}:nb_is_do_conditional, {IP}:_is_knowable_q_non_networks, {LPM}:_atomic_knowable_q"), ("positivity", f"{FN}:nb_is_physical")],
  ["values of the predicates; knowability and positivity of moments"])
p("A05", "Moment matrix entries represent the product of their row and column",
  "Entries (i, j) and (k, l) of a moment matrix carry the same index exactly when the adjoint of column i times column j and the adjoint of column k times column l are equal, possibly after taking the adjoint, up to exchanging commuting neighbours and repeated projectors; an entry is zero exactly when the product is. The product recorded for an index is the product of all entries that carry it, and the identity has index 1.",
  ["inputs"], "All generating sets and all commutation and orthogonality relations.",
  "The tests compare the size of a few moment matrices; a wrongly merged or split pair of entries needs particular relations.",
  [QT, FN, SDP], [("moment matrix", f"{QT}:calculate_momentmatrix_1d_internal, {SDP}:_build_momentmatrix_1d_internal"), ("products", f"{FN}:dot_mon, {FN}:to_canonical_1d_internal")],
  ["moment matrix and the products recorded for its indices"])
p("A06", "Symmetries are the relabellings of copies and merge exactly their orbits",
  "The symmetries of the operators are exactly the relabellings of the copies of the sources that map operators to operators, the identity being the first. They permute the columns of a moment matrix as they permute the operators. Moments and events are merged exactly when a symmetry maps one to the other: no two moments of different orbits share an index or an object, and no orbit is split. Zero stays zero, the identity keeps its index, and the representative of an orbit is one of its members, the same for all of them.",
  ["inputs"], "All scenarios, numbers of copies, generating sets and moment matrices.",
  "The tests count variables of a few problems; a missing relabelling or a wrong merge changes bounds silently.",
  [IP, SDP, LP, QT, UT, FN], [("discovery", f"{IP}:discover_lexorder_symmetries, {FN}:apply_source_perm, {UT}:format_permutations, {UT}:perm_combiner"), ("columns", f"{SDP}:_discover_columns_symmetries"), ("merging", f"{QT}:apply_inflation_symmetries, {LP}:_discover_inflation_orbits, {LP}:_AtomicMonomial, {SDP}:_inflation_orbit_and_rep_1d")],
  ["lexorder_symmetries; indices of the symmetrised moment matrix; identity of atomic moments"])
p("A07", "LP inequalities and equalities are complete and valid",
  "The variables of a linear program are the events of all sets of compatible measurements (without the last outcome of measurements of childless parties, unless all outcomes are requested), the first one the unit. Its generated inequalities are exactly the non-negativity of the probability of every event of every maximal set of compatible measurements, written in these variables; its generated equalities hold for every outcome and are, together, all linear relations between the variables. Both stay so after merging variables under symmetries and renumbering columns.",
  ["inputs"], "All scenarios, compatibility relations and numbers of outcomes.",
  "The tests compare the number of rows and a few values; a wrong sign or column of one row changes bounds silently.",
  [LP], [("variables", f"{LP}:_raw_monomials_as_lexboolvecs, {LP}:_maximal_event_as_lexboolvecs"), ("inequalities", f"{LP}:minimal_sparse_inequalities"), ("equalities", f"{LP}:minimal_sparse_equalities")],
  ["minimal_sparse_inequalities; minimal_sparse_equalities; columns of the program"])
p("A08", "All sets of compatible measurements are found, and the maximal ones are maximal",
  "Enumerating the sets of pairwise compatible measurements lists each of them once, the empty set first, up to the requested size; the sets reported as maximal are those that no other contains, each once. Measurements are compatible exactly when their operators commute.",
  ["inputs"], "All compatibility relations and size limits.",
  "The tests check one small graph; a missing set removes variables and constraints from every program built on it.",
  [UT, IP], [("enumeration", f"{UT}:all_and_maximal_cliques"), ("compatibility", f"{IP}:all_and_maximal_compatible_templates, {IP}:_compatible_template_measurements")],
  ["lists of sets returned by the enumeration"])
p("A09", "The tables of a problem describe its unpacked and inflated scenario",
  "An InflationProblem has the parties, sources, arrows, kinds of sources and numbers of copies of the scenario it was given. The settings of a party are all combinations of a private setting and the outcomes of its parents. Its operators are all combinations of party, one copy of each source that reaches it (directly or through intermediate latents), setting and outcome, each exactly once and in that order, grouped by measurement. Two operators overlap exactly if they share a copy of a source, and commute exactly as the sources they share prescribe; products are not declared indivisible when some operators share nothing. Different operators have different names, and a name states the outcomes of all parents.",
  ["inputs"], "All scenarios, cardinalities, numbers of copies and ways of passing them.",
  "The tests construct a few fixed scenarios; a wrong table for another graph silently changes the problem solved.",
  [IP, FN], [("scenario", f"{IP}:__init__"), ("operators", f"{IP}:_lexorder, {IP}:_ortho_idxs, {IP}:_template_idxs, {IP}:measurements, {IP}:original_dag_events"), ("overlaps", f"{FN}:nb_overlap_matrix, {IP}:ever_factorizes"), ("names", f"{IP}:_lexrepr_to_names, {IP}:_interpret_operator, {IP}:_interpretation_to_name")],
  ["attributes of InflationProblem: hypergraph, settings_per_party, lexorder, names; everything built on them"])
p("A10", "The generating set is exactly the requested one",
  "Every specification of a generating set (level npaN, localN, localN,M,..., a list of monomials as strings, symbols or arrays, an earlier list, or its nested-list form) gives exactly the products it describes: all nonzero products, each once up to the relations the problem imposes, with no more than the stated number of operators per party and in total, and the identity first. The numeric and symbolic forms list the same products in the same order.",
  ["inputs"], "All scenarios, specifications and maximal lengths.",
  "The tests compare a few column counts and lists; a missing or repeated column weakens or corrupts the relaxation of other specifications.",
  [SDP], [("columns", f"{SDP}:build_columns")],
  ["build_columns, generating_monomials, n_columns"])
p("A11", "Relaxations contain the normalisation conditions and the moment of every entry",
  "For every moment matrix and scenario, each column for which the identity side and all outcomes of one measurement of a party with children are available gives equalities saying that the product without the operator is the sum over the outcomes, in every row; they enter the program with coefficients 1 and -1 and nothing else is added. Every index of the moment matrix has the moment of a product carrying it, in the lists of moments, non-negative moments and indices; and a regenerated relaxation keeps no moment, value, bound or objective of the earlier one.",
  ["inputs", "histories"], "All scenarios, columns, moment matrices and symmetries.",
  "The tests look at the number of equalities in two scenarios; wrong equalities make a program infeasible or its bound wrong elsewhere.",
  [SDP, QT], [("columns", f"{SDP}:_discover_normalization_eqns"), ("entries", f"{QT}:construct_normalization_eqs"), ("tables", f"{SDP}:generate_relaxation")],
  ["minimal_equalities, moments, compmoment_from_idx, hermitian_moments, moment_lowerbounds"])
p("A12", "The tables of a program describe its scenario",
  "For every scenario (arrows, copies, settings, outcomes, classical or quantum sources), a new program has the operators of the scenario, in the scenario's order, numbered and named alike; in an SDP two operators are exclusive exactly if they are different outcomes of one measurement (or one is zero) and fail to commute exactly if the scenario says so; the symmetries are those of the scenario; the last outcome of a measurement is left out exactly if its party has no children and not all outcomes (or supports) are asked for; and the measurements and physical products offered are those of the outcomes in use.",
  ["inputs", "configurations"], "All scenarios; decided for up to three parties, two sources, two copies, three outcomes.",
  "The tests construct programs on a handful of networks; a table that is shifted or mixes up parties only on others makes every later bound wrong.",
  [SDP, LP], [("tables of an SDP", f"{SDP}:InflationSDP.__init__"), ("tables of an LP", f"{LP}:InflationLP.__init__"), ("measurements", f"{SDP}:_generate_parties")])
p("A13", "The LP of a scenario constrains exactly the events of its inflation",
  "For every scenario, the linear program generated for it has one variable for each class of events of compatible measurements that exchanges of copies identify (last outcomes that normalisation determines left out); its inequalities are the probabilities of the maximal compatible events, each of them and nothing else; its equalities hold for every assignment of outcomes and are all the linear relations between the variables; the factorisation conditions are exactly the independences of the inflation; and nothing but the unit is known or bounded before the user says so.",
  ["inputs", "configurations"], "All scenarios and options; decided for up to three parties, two sources, three copies, three outcomes.",
  "The tests compare optima of a few known programs; a missing or wrong row in another scenario gives a wrong bound without an error.",
  [LP, FN], [("program", f"{LP}:_generate_lp"), ("equalities", f"{LP}:minimal_sparse_equalities"), ("inequalities", f"{LP}:minimal_sparse_inequalities"), ("independences", f"{LP}:factorization_conditions")],
  ["monomials, minimal_sparse_inequalities, minimal_sparse_equalities, factorization_conditions, known_moments"])
p("A14", "The SDP relaxation of a scenario is made of its products, soundly bounded",
  "For every scenario and level, the relaxation has one column for each nonzero product of the level's operators; two entries carry the same moment exactly if the products of their rows and columns are equal up to commutation, repetition, exchanges of copies and conjugation, and vanish exactly if the product does; each moment has the factors of its products; moments are bounded below by zero only if no quantum realisation makes them negative, and all products that read the same backwards are; the equalities hold for every assignment of outcomes; and nothing but the unit is known before the user says so.",
  ["inputs", "configurations"], "All scenarios, levels and options; decided for up to three parties, two sources, three copies, three outcomes, levels up to npa2 and local1.",
  "The tests look at a few optima and counts; a bound that excludes a realisable correlation in another scenario gives a wrong result without an error.",
  [SDP, SDPM, QT], [("relaxation", f"{SDP}:generate_relaxation"), ("columns", f"{SDP}:build_columns"), ("symmetrisation", f"{QT}:apply_inflation_symmetries"), ("moments", f"{SDP}:Moment_1d")],
  ["generate_relaxation, momentmatrix, compmoment_from_idx, moment_lowerbounds, moment_equalities, known_moments"])
p("N10", "Names and symbols are read back as what they name",
  "The name, the legacy name and the symbol that a program gives to a moment are read back as that moment, and different moments have different names; a product of moments written with its factors in any order, powers included, is that product; operators written out between brackets are read as their moment; a text that is not understood is refused, never taken for another moment.",
  ["inputs", "configurations"], "All scenarios, moments and products; decided for up to three parties, two copies, three outcomes.",
  "Users give objectives, values and bounds by name; the tests read back a few names in Bell scenarios. A name that is silently taken for another moment gives a wrong bound without an error.",
  [SDP, LP, LPM], [("names of an SDP", f"{SDP}:_interpret_name"), ("names of an LP", f"{LP}:_interpret_name"), ("products", f"{SDP}:_sanitise_moment")],
  ["known_moments, moment_lowerbounds, moment_upperbounds, _objective_dict"])
p("N07", "A search for a critical value judges the program at the values it reports",
  "Whatever the critical value of the parameter is, a search asks the program only about the given moments at one value of the parameter between the caller's bounds, with the caller's options and as an optimisation of feasibility; the bisection returns the critical value up to the requested precision, a feasible point at the boundary counting as feasible; the dual search never returns less than a value that its certificates leave open and nothing above what they exclude, up to the precision; the certificate returned is one obtained at the value reported, up to the precision; and requests without exactly one parameter, of an unknown method, or whose bounds do not enclose the critical value are refused.",
  ["inputs", "configurations"], "All one-parameter families, bounds, precisions, options, verdicts and certificates; decided for affine families, with the contract of scipy's root finder and minimiser assumed.",
  "The two tests need a solver licence and look at one family whose critical value is known.",
  [OPT, UT], [("entry", f"{OPT}:max_within_feasible"), ("bisection", f"{OPT}:_maximize_via_bisect"), ("certificates", f"{OPT}:_maximize_via_dual"), ("evaluation of expressions", f"{UT}:make_numerical")])
# ---- listed but not claimed
p("N01", "Optimal values bound the true quantum or classical optimum",
  "For every scenario, the value reported for a maximisation is an upper bound on the value attainable by the correlations the scenario allows, and raising the inflation level or the relaxation never loosens it.",
  ["inputs", "configurations"], "All scenarios, objectives and hierarchy levels.",
  "Requires solving, and quantifies over correlations, not programs.", [SDP, LP, IP], [("relaxation construction", f"{SDP}:generate_relaxation")])
p("N09", "Primal and dual LP modes give the same optimum",
  "For every linear program solving in primal and in dual mode gives the same optimal value and the same feasibility verdict.",
  ["inputs", "configurations"], "All linear programs.", "Equality of numerical optima.", [LPU], [("LP solver", f"{LPU}:solveLP_sparse")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))

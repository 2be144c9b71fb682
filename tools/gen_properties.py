#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
OQ="src/oqnlp.rs"; SS="src/scatter_search.rs"; LS="src/local_solver/runner.rs"; LB="src/local_solver/builders.rs"; CK="src/checkpoint.rs"; FI="src/filters.rs"; OB="src/observers/mod.rs"; O1="src/observers/stage1.rs"; O2="src/observers/stage2.rs"; TY="src/types.rs"; PY="python/src/lib.rs"

prop("C01","Reported objective values are the objective at the reported points",
 "Every solution a run returns, stores in a checkpoint or shows through an observer carries exactly the value that the problem's objective has at that solution's point (COBYLA reports its point only up to rounding, and +infinity stands for a search that found no number). This holds for every local solver, line search, stopping condition and execution mode; for L-BFGS with an L1 penalty the reported value is the penalised objective the solver minimised.",
 ["inputs","configurations","schedules"],"all problems, solvers and their configurations, sequential/batched/parallel runs, fresh and resumed",
 "Tests compare a handful of solutions of two or three functions against known optima with loose tolerances; none recomputes the objective at every reported point.",
 [LS,OQ,O1,O2],[("solution extraction of each solver",LS),("process_local_solution",OQ),("set_best_solution",O2)],
 ["returned SolutionSet","checkpoint files","observer callbacks"])
prop("C02","The solution set is exactly what the local searches justify",
 "The returned set is the outcome of admitting the results of the local searches one after the other: a result better than the first member by more than the tolerance max(abs_tol, rel_tol*max(|f1|,|f2|)) replaces the whole set, one within the tolerance joins it unless it lies closer than the distance factor to a member, and any other is left out. Consequently all members are within tolerance of the first, pairwise at least the distance factor apart, none is NaN, none is lost and none is invented.",
 ["inputs","configurations","histories"],"all sequences of local search results, tolerances (default and custom), distance factors and batch sizes",
 "Unit tests feed a few hand-made solutions to the admission step; they do not relate a returned set to the whole history of local searches of a real run.",
 [OQ,TY],[("process_local_solution",OQ),("is_duplicate_in_set",OQ),("cmp_objectives",TY)],["returned SolutionSet","checkpointed local search history"])
prop("C03","The result is never worse than what the run has already seen",
 "With a local solver that never returns a point worse than its start, the best returned objective is not worse (beyond the comparison tolerance) than the objective of any point evaluated in Stage 1, which includes both bound corners, the midpoint and every feasible custom point. With any local solver it is not worse than any local search result of the run that was eligible for the solution set.",
 ["inputs","configurations"],"all objectives, populations, seeds, custom points and solvers",
 "Tests look at final values on benchmark functions where nearly every start leads to the optimum, so losing the best candidate goes unnoticed.",
 [SS,OQ],[("update_reference_set keeps the best points",SS),("best_solution",SS),("first local search",OQ)],["evaluation log","returned SolutionSet"])
prop("C04","Starting points stay inside the variable bounds",
 "Every point evaluated in Stage 1, every member of the reference set and every start of a local search lies inside the variable bounds, also after a resume that enlarges the population. When out-of-bounds exclusion is enabled every returned solution lies inside the bounds, a target reached out of bounds does not stop the run, and results inside the bounds are not dropped; COBYLA never returns a point outside the bounds.",
 ["inputs","configurations"],"all bounds (asymmetric, tiny, huge, far from zero), dimensions, seeds, sampling and combination steps",
 "Tests check a few points of symmetric two-dimensional boxes.",
 [SS,OQ,LS],[("apply_bounds",SS),("generate_stratified_samples",SS),("is_within_bounds",OQ),("COBYLA bounds",LS)],["evaluation log","checkpointed reference set","returned SolutionSet"])
prop("C05","Constraints are respected before and during the search",
 "With constraints, Stage 1 evaluates the objective only at points where every constraint is non-negative, so the reference set and all local search starts are feasible and infeasible seed or custom points are discarded, in sequential and parallel mode alike. When not enough feasible points can be found the run reports an error instead of using infeasible ones, and COBYLA is given all the constraints, so that its results satisfy each of them as well as the solver itself can.",
 ["inputs","configurations","schedules"],"all sets of constraints (linear, nonlinear, disconnected, narrow), populations, custom points and thread counts",
 "One test checks one linear constraint in sequential mode.",
 [SS,LS,OQ],[("is_feasible filters",SS),("diversify_reference_set retry",SS),("constraints passed to COBYLA",LS)],["evaluation log","checkpointed reference set","returned SolutionSet"])
prop("C06","Stage 2 searches exactly the candidates that pass both filters",
 "A candidate is given a local search if and only if its objective does not exceed the merit threshold and its distance to every earlier local search result exceeds the distance factor, with candidates taken once each in reference set order and all decisions of a batch made at its start. The threshold becomes the objective of a searched candidate or of a new best solution, and after every wait-cycle rejections it grows by threshold_factor*(1+|threshold|) while the counter restarts; nothing else changes it.",
 ["inputs","configurations","histories"],"all reference sets, thresholds, wait cycles, distance factors, batch sizes and sequences of accepted and rejected candidates",
 "Tests exercise each filter in isolation on two or three values; they never check the decisions of a run against its history.",
 [OQ,FI],[("should_start_local",OQ),("adjust_threshold",OQ),("MeritFilter/DistanceFilter",FI),("process_batch_parallel",OQ)],["checkpoint after every iteration","local search starts in the evaluation log"])
prop("C07","A run is a function of its problem, parameters and seed",
 "Running the same problem with the same parameters, seed and execution settings always evaluates the same points and returns bit-identical solutions in the same order, whatever the timing of the evaluations, the machine load, the number of worker threads (for a fixed batch size) and earlier runs in the process. Different seeds lead to different sampled populations.",
 ["schedules","configurations","inputs"],"all thread interleavings and pool sizes, repeated runs, all seeds including 0 and the maximum",
 "Tests compare two runs of one configuration on an idle machine; schedules are not varied.",
 [SS,OQ],[("pre-drawn seeds",SS),("ordered parallel collection",SS),("seeded shuffle",OQ)],["evaluation log as multiset","returned SolutionSet"])
prop("C08","Parallel execution gives the sequential answer",
 "Stage 1 yields the same reference set, objectives and best candidate with parallelism on and off, for any number of threads, and a run with a batch size of one equals the sequential run bit for bit, as does any run without the parallel feature. With larger batches the outcome is the documented batch rule applied in candidate order, independent of the order in which local searches finish.",
 ["schedules","configurations","inputs"],"all thread counts, interleavings and batch sizes, populations around the parallelisation thresholds, domains from tiny to huge",
 "Existing tests only check that parallel runs succeed and have comparable quality.",
 [SS,OQ],[("parallel/sequential twins",SS),("process_batch_parallel",OQ)],["returned reference set","returned SolutionSet","checkpoints"])
prop("C09","Budgets and stopping criteria are honoured",
 "A run examines exactly the first `iterations` candidates (or all, if fewer), performs at most one local search per candidate plus one in Stage 1, and always terminates. Once the best solution has reached the target objective no further batch is started, an unreached target never ends a run early, and after the time limit no further batch is started while solutions found so far are returned.",
 ["inputs","configurations","histories"],"all iteration and population sizes, targets at, above and below attained values, time limits from zero up, batch sizes",
 "Tests use one target and one time limit and check only that a result comes back.",
 [OQ],[("take(iterations)",OQ),("target_objective_reached",OQ),("timeout check",OQ)],["local search starts in the evaluation log","checkpoint of the final state","returned SolutionSet"])
prop("C10","A checkpoint read back equals the state that was saved",
 "Loading a saved checkpoint yields every field exactly as it was: parameters of every local solver and line search, iteration, threshold, solutions, reference set, filter history, seed, target, tolerances and execution settings, for all floating-point values including infinities, NaN, signed zeros and subnormals. Reading through the standalone reader gives the same.",
 ["inputs","configurations"],"all checkpoint contents",
 "Tests round-trip one or two default checkpoints and compare a few fields.",
 [CK,TY],[("bincode legacy encoding",CK),("serde derives",TY+", "+LB)],["save_checkpoint / load_*"])
prop("C11","Interrupting and resuming does not change the outcome",
 "Stopping a run at any saved checkpoint, any number of times, and resuming it in a fresh optimizer gives the same solutions, thresholds, filter history and final checkpoint as the run that was never interrupted. Every candidate is processed exactly once across the interrupted and resumed runs, whatever settings the resuming optimizer was created with (a plain resume continues with the checkpoint's own), and a run that was already complete performs no further local search.",
 ["crash_points","histories","configurations"],"every checkpoint of a run as crash point, chains of crashes, all save frequencies, sequential and batched execution, any thread count after the resume",
 "One test resumes once and checks that a solution exists.",
 [OQ,CK],[("mark_iterations_complete",OQ),("restore_from_checkpoint",OQ),("create_checkpoint",OQ)],["checkpoints","evaluation log","returned SolutionSet"])
prop("C12","The checkpoint store keeps, finds and removes the right files",
 "After any history of saves, cleanups and foreign files in the directory, the latest checkpoint is the one with the highest iteration of exactly this name (or the single file in overwrite mode), existence is reported accordingly, archive mode keeps every distinct iteration, and cleanup removes only the oldest of this name's checkpoints. Saves happen whenever the completed iterations pass a multiple of the save frequency and at the end; a save that is killed or fails at any point leaves the previous checkpoint loadable.",
 ["histories","crash_points","fault_sequences"],"all operation sequences over several names in one directory, iteration numbers of any width, crash points and I/O failures inside a save",
 "Tests save two or three files in an empty directory and never interrupt or fail a save.",
 [CK,OQ],[("find_latest_checkpoint",CK),("cleanup_old_checkpoints",CK),("temporary file and rename",CK),("maybe_save_checkpoint",OQ)],["checkpoint directory"])
prop("C13","Damaged checkpoints are reported, never crash the program",
 "Loading a truncated, bit-flipped, extended, random or missing checkpoint returns an error or a decoded checkpoint, without panicking, aborting, hanging or allocating out of proportion, and leaves the file untouched. A run configured to resume from a checkpoint that does not decode returns that error instead of silently starting over.",
 ["fault_sequences","inputs"],"all single and multiple corruptions of valid checkpoint files and arbitrary byte strings",
 "One test loads one file of garbage text.",
 [CK],[("decode_config limit",CK),("error mapping",CK)],["load_*","read_checkpoint_file","run with auto_resume"])
prop("C14","Resuming with changed parameters continues the saved search",
 "After resuming a checkpoint with modified parameters, the run continues at the first unprocessed candidate with the saved solutions, threshold and filter history, and the new parameters (iterations, local solver, filters, seed) govern everything that follows. A larger population keeps the stored candidates in place and adds in-bounds feasible ones up to the new size; a smaller one keeps the stored set; nothing already processed is repeated.",
 ["histories","configurations","inputs"],"all checkpoints of a run and all parameter changes, by latest checkpoint and by path",
 "Tests check that the call succeeds and compare counts.",
 [OQ],[("resume_with_modified_params",OQ),("resume_from_checkpoint_with_params",OQ),("expand_reference_set",OQ)],["checkpoints","evaluation log","returned SolutionSet"])
prop("C15","Observer metrics match what actually happened",
 "The function evaluation counts of both stages equal the number of objective calls actually made, and local search calls, improvements, iteration, best value and point, set sizes and trial point counts equal those of the run, as do threshold and unchanged cycles before or after the reported iteration, in sequential and parallel mode. Callbacks fire at the documented points and frequency with the state current at that moment, best values never get worse, and stage times stop when their stage ends.",
 ["schedules","configurations","histories"],"all observer modes, callback frequencies, solvers and execution modes",
 "Tests check that counters are positive and getters return what setters stored.",
 [OB,O1,O2,OQ,SS],[("solve_with_tracking",LS),("add_function_evaluations",O1),("should_invoke_callback",OB)],["observer callbacks and final state","evaluation log"])
prop("C16","Observation, logging and build features do not change results",
 "Attaching an observer with or without callbacks, verbose output, checkpointing at any frequency, progress bars and compiling with or without optional features leave the evaluated points and the returned solutions bit-identical for the same execution mode.",
 ["configurations","inputs"],"all combinations of passive options and feature sets",
 "No test compares runs with and without these options.",
 [OQ,SS,OB,"Cargo.toml"],[("cfg-gated twins of the same logic",OQ),("cfg-gated twins of the same logic",SS)],["returned SolutionSet","evaluation log","digests of separately compiled harnesses"])
prop("C17","Failing or non-finite evaluations never corrupt the result",
 "Whatever objective, gradient or Hessian evaluations fail or return NaN or infinities, a run ends with a solution set or an error and the library itself never panics; an error in evaluating the initial population or inside an argmin local search is reported as an error (unless the solver handles it by ending its own search), while failing trial points and COBYLA evaluations only exclude that point. No returned solution has a NaN objective, and a NaN or +infinite result never displaces or prevents a number.",
 ["fault_sequences","inputs"],"every position of a failing evaluation, error kinds, NaN/Inf regions, solvers, sequential and parallel",
 "Tests cover a missing gradient and a single always-failing objective.",
 [OQ,SS,LS,TY],[("error mapping",OQ),("cmp_objectives",TY),("filter_map of failing trials",SS)],["returned Result","evaluation log"])
prop("C18","Invalid input is rejected, valid input never panics",
 "Construction or the start of the run returns the documented error for a population of at most three, more iterations than population, non-positive or NaN threshold factor, negative or NaN distance factor, bounds that are reversed, equal or not finite, custom points outside the bounds or of the wrong dimension, a solver configuration of another solver, and rejected solver parameters. Every accepted configuration runs without panicking, whatever the extreme values and the memory layout of the arrays.",
 ["inputs","configurations"],"all parameter combinations, boundary values and extremes",
 "Tests reject one example per error and never search for panics among accepted inputs.",
 [OQ,SS,FI,LS],[("OQNLP::new checks",OQ),("ScatterSearch::new bounds checks",SS),("with_points checks",OQ),("InvalidXConfig errors",LS)],["returned Result","panic hook"])
prop("C19","Local solvers do what their configuration says",
 "A local solve gives the same point, value and evaluations as running the underlying algorithm directly with the configured parameters, for every solver, line search and parameter, and evaluation tracking does not alter it. Builders keep every value that is set, in any order, leave the documented default for every value that is not, and solver names are recognised as documented.",
 ["inputs","configurations"],"all configurations of every builder, all start points and problems",
 "Tests check fields of a few builder outputs and that solving succeeds; no test shows that a parameter reaches the solver.",
 [LS,LB,TY],[("solve_* translation to argmin/cobyla",LS),("builders",LB),("from_string",TY)],["LocalSolver::solve versus direct argmin/cobyla call on the same instrumented problem"])
prop("C20","Custom points take part in the search exactly as given",
 "Every feasible custom point is evaluated unchanged in Stage 1 and competes for the reference set alongside the bound corners and the midpoint, in any number, without displacing those and without duplicates being created; infeasible ones are ignored. A custom point at or near the best known position is never lost: the run is at least as good as the best custom point whenever the local solver does not worsen its start.",
 ["inputs","configurations"],"any number of custom points from none to more than the population, on bounds, duplicated, feasible or not, sequential and parallel",
 "Tests use three points on one function.",
 [OQ,SS],[("with_points validation",OQ),("initialize_reference_set",SS)],["evaluation log","returned reference set","returned SolutionSet"])
prop("C21","Stage 1 builds a diverse population of the best points",
 "The initial population consists of the two bound corners, the midpoint, the custom points and stratified samples chosen greedily so that each added point maximises the minimum distance to those already chosen, up to the population size. Trial points combine pairs of the best points, near-duplicates are skipped, and the final reference set holds the population-size best of initial and improving trial points (all initial ones if no trial improves on the worst of them), each paired with its own objective, with the best of all returned as the candidate.",
 ["inputs","configurations"],"all dimensions, bounds, populations, seeds, objectives and thread counts",
 "Tests check lengths and one hand-computed distance.",
 [SS],[("diversify_reference_set",SS),("generate_trial_points/combine_points",SS),("update_reference_set",SS),("best_solution",SS)],["public Stage 1 methods","evaluation log","returned reference set"])
prop("C22","The Python binding is a faithful, isolated view of the library",
 "Calling the optimizer from Python with given functions, parameters, seed, solver configuration and options gives the same solutions as the Rust library, with each problem's own constraints applied in sequential and parallel mode, for consecutive and concurrent calls from several Python threads. Python exceptions surface as Python errors without disturbing later calls, observers report the same numbers as in Rust, and no call deadlocks, even when a Python objective starts a nested optimization.",
 ["schedules","inputs","configurations","histories"],"all problems, solver configurations and options, interleaved and concurrent optimizations",
 "Tests run single optimizations from one thread and check the approximate optimum.",
 [PY,"python/src/builders.rs","python/src/observers.rs"],[("constraint registry and thread-local problem id",PY),("optimize argument mapping",PY),("builder conversion","python/src/builders.rs")],["results in Python versus the Rust harness","evaluation and constraint logs in Python"])
prop("C23","Parallel runs are free of data races and undefined behaviour",
 "No execution of a parallel optimization, with or without observers, checkpoints, errors and concurrent optimizers in one process, contains a data race, an invalid memory access or other undefined behaviour in this library's code. Shared counters lose no update.",
 ["schedules"],"all thread interleavings of Stage 1 and Stage 2 in parallel mode",
 "Tests run uninstrumented; a race rarely changes their outcome.",
 [SS,OQ,LS],[("Mutex-guarded RNG, atomics, rayon",SS),("par_iter batches",OQ),("Arc<AtomicU64> counters",LS)],["ThreadSanitizer and Miri reports"])
prop("C24","Solution sets present their contents truthfully",
 "The best solution of a set is one of its members with the smallest objective, with NaN never preferred to a number; length, emptiness, indexing and iteration agree with the stored members in order. The printed forms list every member with its objective and parameters once and, when constraints are shown, mark a constraint violated exactly when its value is negative.",
 ["inputs"],"all solution sets, including empty, single, NaN, infinite and equal-valued members",
 "Tests print one or two sets and look for substrings.",
 [TY],[("SolutionSet methods and Display",TY),("display_with_constraints",TY)],["SolutionSet public API"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))

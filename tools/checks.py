"""What each check runs: budgets (seconds per shard), how its cases are made and what it assumes."""

import extras

DEP = "argmin, cobyla, ndarray, rayon, bincode and rand do what they document; runs that never end inside argmin's line searches are dropped"
Q, T = 30, 240

CHECKS = {
    "C01": dict(oracle="objective recomputed at every reported point", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="random problems (11 families, 1-4 variables, NaN/inf regions, constraints), all solvers and line searches, sequential and batched; a case is distinct by its configuration class"),
    "C02": dict(oracle="offline checker folds the admission rule over the logged local searches", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="problems with many equal or nearly equal minima; the admission rule is folded over the searches seen in the evaluation log and in the checkpoint history"),
    "C03": dict(oracle="offline checker over the evaluation log", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="random cases; the premise (no local search worsens its start) is measured per run, and both clauses are decided from the log"),
    "C04": dict(oracle="online bounds monitor on every evaluation and start", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="random boxes incl. tight, huge and rounding-prone ones, exclusion on/off, targets reachable only out of bounds, enlarged populations"),
    "C05": dict(oracle="online feasibility monitor on every Stage 1 evaluation", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="random combinations of 12 constraint functions, custom points, both modes; every Stage 1 evaluation is checked for feasibility"),
    "C06": dict(oracle="checkpoint trace checked against a reference model of the filters", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="per-iteration checkpoint trace and evaluation log compared with a reference model of the filters fed with the observed population"),
    "C07": dict(oracle="repeated runs under injected delays and pool sizes, logs compared", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="each case is run several times with other injected delays, pool sizes and preceding runs"),
    "C08": dict(oracle="differential runs under injected delays, logs compared with the batch rule", quick=Q, thorough=T, level="exploration", assumptions=[DEP], extra=extras.builds,
                rule="parallel/sequential pairs of Stage 1, batch size one against sequential, larger batches against the batch rule, with injected delays"),
    "C09": dict(oracle="offline checker counts the work done after each stopping condition", quick=Q, thorough=T, level="exploration", hang_is_violation=True, assumptions=[DEP],
                rule="targets taken from the case's own trajectory, time limits expired/far/hit by slow evaluations; work after the stop is counted from the log"),
    "C10": dict(oracle="written and read-back states compared bit by bit", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="checkpoints with arbitrary contents (every float class, sizes, solver and line search, names, time stamps) and those real runs write are written and read back, compared bit by bit"),
    "C11": dict(oracle="crash injection at checkpoints, resumed traces compared with the uninterrupted one", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="every run is interrupted at a checkpoint (state copied, or the process killed at a random objective call) and resumed, once or several times; outcome, trace and remaining work compared with the uninterrupted run"),
    "C12": dict(oracle="kill and fault injection into saves, directory checked against a model", quick=Q, thorough=T, level="fault_enumeration", assumptions=[DEP], extra=extras.strace_store,
                rule="random save/find/clean-up histories over several runs, names and frequencies against a model of the directory; writers killed at every point; concurrent readers"),
    "C13": dict(oracle="fault injection into checkpoint files under panic and allocation monitors", quick=Q, thorough=T, level="exploration", hang_is_violation=True, assumptions=[DEP],
                rule="truncations at every length, bit flips, random and foreign files, hostile lengths, through every way of opening a checkpoint, watching panics and the largest allocation"),
    "C14": dict(oracle="resumed traces checked against the model continued from the saved state", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="checkpoints resumed with changed parameters (budget, population, filters, solver, seed) against the model continued from the saved state"),
    "C15": dict(oracle="observer snapshots checked against the evaluation log", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="a callback records every metric together with the number of objective calls made; both are compared with the log and the model at each step; modes, frequencies, resumed runs, console output"),
    "C16": dict(oracle="differential runs of option sets and feature builds", quick=Q, thorough=T, level="exploration", assumptions=[DEP], extra=extras.features,
                rule="each case is run bare and with random sets of passive options, and by builds with other feature sets; results and evaluations compared bit by bit"),
    "C17": dict(oracle="fault injection into evaluations, outcome monitor", quick=Q, thorough=T, level="fault_enumeration", assumptions=[DEP],
                rule="20 kinds of injected failures placed by the undisturbed run into initial population, trials and searches; outcome, error class and rank of non-numbers checked"),
    "C18": dict(oracle="panic monitor and validation oracle over hostile inputs", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="tables of valid and invalid parameters, bounds, custom points, solver configurations; extreme valid values of every option run to the end"),
    "C19": dict(oracle="differential monitoring against direct calls of the solver libraries", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="each configured local solve is repeated by calling argmin or cobyla directly: point, value, evaluation sequence and derivative calls compared; random builder histories against a record of the last values set"),
    "C20": dict(oracle="evaluation log checked for the custom points", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="0 to 130 custom points: random, duplicated, on corners, near the best known point, infeasible; presence in the initial evaluations and in the result"),
    "C21": dict(oracle="Stage 1 recomputed from the evaluation log", quick=Q, thorough=T, level="exploration", assumptions=[DEP],
                rule="Stage 1 driven as a whole and step by step; greedy choice, combinations, distance filter and final reference set recomputed from the evaluation log, ties left out"),
    "C22": dict(oracle="binding runs compared with the Rust library's, deadlock watchdog", quick=0, thorough=0, shards=0, level="exploration", assumptions=[DEP], extra=extras.python,
                rule="calls of the Python binding (all solvers and builders, observers, failing functions, reused problems, several threads, nested calls, wrong arguments) in processes with other pool sizes; outcome, solutions, every function evaluation, observer state and callbacks compared bit by bit with the Rust library's run of the same case"),
    "C23": dict(oracle="ThreadSanitizer and Miri reports, conservation of shared counters", quick=0, thorough=0, shards=0, level="exploration", assumptions=[DEP], extra=extras.stress,
                rule="parallel optimizations alone and beside each other in one process, with observers, checkpoints, failing evaluations, pool sizes and injected jitter: natively, under ThreadSanitizer with an instrumented standard library, and under Miri with random schedules; evaluations counted by the problem and by the observer compared, results beside others compared with those alone"),
    "C24": dict(oracle="printed forms parsed back and compared", quick=Q, thorough=T, level="exploration", assumptions=[],
                rule="solution sets with every class of objective values and those of real runs; printed forms parsed back"),
}

NOT_APPLICABLE = {}

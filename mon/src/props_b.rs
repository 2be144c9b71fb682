//! Monitors for checkpointing: C10 (round trip), C11 (interrupt and resume), C12 (store), C13
//! (damaged files), C14 (resume with changed parameters).
use crate::case::*;
use crate::ctx::Ctx;
use crate::model::*;
use crate::prob::*;
use crate::props_a::*;
use crate::util::*;
use globalsearch::checkpoint::{CheckpointManager, read_checkpoint_file};
use globalsearch::local_solver::builders::*;
use globalsearch::types::*;
use ndarray::Array1;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------------------ random checkpoints
/// Any bit pattern, with the special values over-represented.
pub fn wild(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::from_bits(0x7ff0_0000_0000_0001 | (r.u64() & 0x000f_ffff_ffff_ffff)),
        2 => f64::from_bits(0xfff8_0000_0000_0000 | (r.u64() & 0x0007_ffff_ffff_ffff)),
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => -0.0,
        6 => 0.0,
        7 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff),
        8 => f64::MAX,
        9 => f64::MIN_POSITIVE,
        10 => r.fr(-1e3, 1e3),
        11 => f64::EPSILON,
        _ => f64::from_bits(r.u64()),
    }
}
fn wild_usize(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => usize::MAX,
        2 => r.below(1 << 33),
        3 => 1 << r.below(63),
        _ => r.below(1000),
    }
}
fn wild_arr(r: &mut Rng, n: usize) -> Array1<f64> {
    (0..n).map(|_| wild(r)).collect()
}
fn wild_sol(r: &mut Rng, n: usize) -> LocalSolution {
    LocalSolution { objective: wild(r), point: wild_arr(r, n) }
}
fn wild_ls(r: &mut Rng) -> LineSearchParams {
    let n = if r.chance(0.9) { 2 } else { r.below(4) };
    LineSearchParams {
        method: if r.chance(0.5) {
            LineSearchMethod::MoreThuente { c1: wild(r), c2: wild(r), width_tolerance: wild(r), bounds: wild_arr(r, n) }
        } else {
            LineSearchMethod::HagerZhang {
                delta: wild(r),
                sigma: wild(r),
                epsilon: wild(r),
                theta: wild(r),
                gamma: wild(r),
                eta: wild(r),
                bounds: wild_arr(r, n),
            }
        },
    }
}
pub fn wild_cfg(r: &mut Rng, sol: Sol) -> LocalSolverConfig {
    let max_iter = r.u64() >> r.below(64);
    match sol {
        Sol::Lbfgs => LocalSolverConfig::LBFGS {
            max_iter,
            tolerance_grad: wild(r),
            tolerance_cost: wild(r),
            history_size: wild_usize(r),
            l1_coefficient: if r.chance(0.5) { Some(wild(r)) } else { None },
            line_search_params: wild_ls(r),
        },
        Sol::NelderMead => LocalSolverConfig::NelderMead {
            simplex_delta: wild(r),
            sd_tolerance: wild(r),
            max_iter,
            alpha: wild(r),
            gamma: wild(r),
            rho: wild(r),
            sigma: wild(r),
        },
        Sol::Steepest => LocalSolverConfig::SteepestDescent { max_iter, line_search_params: wild_ls(r) },
        Sol::Trust => LocalSolverConfig::TrustRegion {
            trust_region_radius_method: if r.chance(0.5) { TrustRegionRadiusMethod::Cauchy } else { TrustRegionRadiusMethod::Steihaug },
            max_iter,
            radius: wild(r),
            max_radius: wild(r),
            eta: wild(r),
        },
        Sol::Newton => LocalSolverConfig::NewtonCG {
            max_iter,
            curvature_threshold: wild(r),
            tolerance: wild(r),
            line_search_params: wild_ls(r),
        },
        Sol::Cobyla => LocalSolverConfig::COBYLA {
            max_iter,
            initial_step_size: wild(r),
            ftol_rel: wild(r),
            ftol_abs: wild(r),
            xtol_rel: wild(r),
            xtol_abs: (0..r.below(5)).map(|_| wild(r)).collect(),
        },
    }
}
pub fn wild_checkpoint(r: &mut Rng, cfg_sol: Sol) -> OQNLPCheckpoint {
    let n = r.below(6);
    let cap = if r.chance(0.1) { 300 } else { 12 };
    let many = r.below(cap);
    OQNLPCheckpoint {
        params: OQNLPParams {
            iterations: wild_usize(r),
            population_size: wild_usize(r),
            wait_cycle: wild_usize(r),
            threshold_factor: wild(r),
            distance_factor: wild(r),
            local_solver_type: r.pick(&SOLS).ty(),
            local_solver_config: wild_cfg(r, cfg_sol),
            seed: r.u64(),
        },
        current_iteration: wild_usize(r),
        merit_threshold: wild(r),
        solution_set: if r.chance(0.2) {
            None
        } else {
            let k = r.below(7);
            Some(SolutionSet { solutions: (0..k).map(|_| wild_sol(r, n)).collect() })
        },
        reference_set: (0..many).map(|_| wild_arr(r, n)).collect(),
        unchanged_cycles: wild_usize(r),
        elapsed_time: wild(r),
        distance_filter_solutions: (0..r.below(9)).map(|_| wild_sol(r, n)).collect(),
        current_seed: r.u64(),
        target_objective: if r.chance(0.5) { Some(wild(r)) } else { None },
        exclude_out_of_bounds: r.chance(0.5),
        #[cfg(feature = "par")]
        batch_iterations: if r.chance(0.5) { Some(wild_usize(r)) } else { None },
        #[cfg(feature = "par")]
        enable_parallel: r.chance(0.5),
        abs_tol: wild(r),
        rel_tol: wild(r),
        timestamp: r.pick(&["", "2024-01-01T00:00:00Z", "späte Zeit ⏱ \u{0}\n", "x"]).to_string().repeat(r.range(1, 3)),
    }
}
pub fn full_state(c: &OQNLPCheckpoint) -> String {
    format!("{} elapsed={:016x} ts={:?}", ck_state(c), c.elapsed_time.to_bits(), c.timestamp)
}
fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| s.chars().skip(k.saturating_sub(40)).take(160).collect::<String>();
    format!("...{} | ...{}", cut(a), cut(b))
}

// ---------------------------------------------------------------------------------------- C10
pub fn c10(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(seed);
    let t = Tmp::new(&ctx.scratch);
    let sol = r.pick(&SOLS);
    let ck = wild_checkpoint(&mut r, sol);
    let want = full_state(&ck);
    let mut h = Fnv::default();
    h.s(&format!("{sol:?}{}{}{:?}", ck.reference_set.len(), ck.distance_filter_solutions.len(), ck.solution_set.as_ref().map(|s| s.len())));
    ctx.classes.insert(h.0);
    for keep_all in [true, false] {
        let c = CheckpointConfig {
            checkpoint_dir: t.0.join(if keep_all { "a" } else { "b" }),
            checkpoint_name: r.pick(&["t", "x.y", "run_1", "ü"]).into(),
            save_frequency: 1,
            keep_all,
            auto_resume: false,
        };
        let it = r.pick(&[0usize, 1, 7, 999_999, 1_000_000, 123_456_789]);
        let m = CheckpointManager::new(c.clone()).expect("scratch");
        let saved = m.save_checkpoint(&ck, it);
        let Ok(path) = saved else {
            ctx.check(false, "save-failed", || format!("{:?}", saved.err()));
            continue;
        };
        let other = CheckpointManager::new(c).expect("scratch");
        let got = [
            ("latest", other.load_latest_checkpoint()),
            ("path", m.load_checkpoint_from_path(&path)),
            ("reader", read_checkpoint_file(&path)),
        ];
        for (how, g) in got {
            ctx.n("round_trips", 1);
            match g {
                Ok(g) => {
                    let s = full_state(&g);
                    ctx.check(s == want, &format!("{how}-differs"), || diff(&want, &s));
                }
                Err(e) => {
                    ctx.check(false, &format!("{how}-error"), || format!("{e:?}"));
                }
            }
        }
        // Saving what was read changes nothing
        if let Ok(g) = read_checkpoint_file(&path) {
            let a = std::fs::read(&path).unwrap_or_default();
            if let Ok(p2) = m.save_checkpoint(&g, it) {
                ctx.check(std::fs::read(&p2).unwrap_or_default() == a, "not-idempotent", || format!("{}", path.display()));
            }
        }
    }
    // A real run: what the file holds is what the optimizer continues with (see C11) and the
    // settings of the optimizer that wrote it
    if r.chance(0.15) {
        let case = Case::generate(seed, &Profile { max_pop: 10, p_big_pop: 0.0, p_fault: 0.05, ..Default::default() });
        let run = exec_traced(ctx, &case, None);
        for c in &run.cks {
            ctx.n("run_checkpoints", 1);
            ctx.check(params_str(&c.params) == params_str(&case.params), "run-params", || diff(&params_str(&case.params), &params_str(&c.params)));
            let ok = c.target_objective.map(f64::to_bits) == case.target.map(f64::to_bits)
                && c.exclude_out_of_bounds == case.exclude
                && (!PAR || ck_par(c).1 == case.parallel)
                && (!PAR || case.batch.is_none_or(|b| ck_par(c).0 == Some(b)))
                && c.abs_tol == case.abs_tol()
                && c.rel_tol == case.rel_tol()
                && c.elapsed_time >= 0.0
                && c.current_seed == case.params.seed.wrapping_add(c.current_iteration as u64);
            ctx.check(ok, "run-settings", || format!("{}; {}", ck_state(c), case.brief()));
        }
        if let (Some(set), Some(last)) = (&run.set, run.cks.last()) {
            ctx.check(last.solution_set.as_ref().map(set_bits) == Some(set_bits(set)), "final-checkpoint-set", || case.brief());
        }
    }
    ctx.sample(|| want.chars().take(400).collect());
}

// ---------------------------------------------------------------------------------------- C11
/// Evaluations a run resumed at `start` may make: one per pending candidate at most (their values
/// are not stored) plus exactly the local searches the rules ask for.
pub fn check_resumed_work(ctx: &mut Ctx, kind: &str, evals: &[Eval], e: &Expect, cands: &[(Array1<f64>, f64)], start: usize, what: &str) {
    let mut have: BTreeMap<Vec<u64>, i64> = BTreeMap::new();
    for x in evals {
        *have.entry(bits(&x.point)).or_insert(0) += 1;
    }
    for x in &e.evals {
        *have.entry(bits(&x.point)).or_insert(0) -= 1;
    }
    let missing = have.values().filter(|v| **v < 0).count();
    ctx.check(missing == 0, &format!("{kind}-searches-missing"), || format!("{missing} points of the expected local searches were not evaluated; {what}"));
    for (p, _) in &cands[start.min(cands.len())..] {
        if let Some(v) = have.get_mut(&bits(p)) {
            if *v > 0 {
                *v -= 1;
            }
        }
    }
    let extra: i64 = have.values().filter(|v| **v > 0).sum();
    ctx.check(extra == 0, &format!("{kind}-work-repeated"), || format!("{extra} evaluations belong to no pending candidate; {what}"));
}

pub fn state_of(ck: &OQNLPCheckpoint) -> State {
    let mut st = State::new();
    st.thr = ck.merit_threshold;
    st.unch = ck.unchanged_cycles;
    st.set = ck.solution_set.as_ref().map(|s| s.solutions.to_vec()).unwrap_or_default();
    st.hist = ck.distance_filter_solutions.clone();
    st
}

/// Keep only the checkpoints up to `k` completed iterations in a new directory.
pub fn copy_upto(from: &Path, to: &Path, k: usize) {
    for f in list_ckpts(from) {
        if let Ok(c) = read_checkpoint_file(&from.join(&f)) {
            if c.current_iteration <= k {
                std::fs::copy(from.join(&f), to.join(&f)).expect("copy");
            }
        }
    }
}

/// Run `case` with the given checkpoint settings on `prob`, continuing whatever is stored.
pub fn resume_exec(case: &Case, prob: Prob, ck: &Ckpts) -> Run {
    exec_with(case, prob, Some(ck), None)
}

/// The same, with the optimizer restored by hand before (`asked`) or run again after (`again`) its run
fn resume_exec_by_hand(case: &Case, prob: Prob, ck: &Ckpts, asked: bool, again: bool) -> Run {
    let t0 = std::time::Instant::now();
    dependency_panic();
    let (out, set) = on_pool(case.threads, || {
        outcome(catch_unwind(AssertUnwindSafe(|| {
            let mut o = build(case, prob.clone(), Some(ck), None)?;
            if asked {
                o.try_resume_from_checkpoint()?;
            }
            let mut res = o.run();
            if again && res.is_ok() {
                res = o.run();
            }
            res
        })))
    });
    collect(prob, out, set, Some(ck), t0)
}

pub fn c11_profile() -> Profile {
    Profile { p_fault: 0.05, max_pop: 18, p_big_pop: 0.02, p_constraints: 0.1, p_target: 0.25, ..Default::default() }
}

/// Settings of an optimizer that is about to resume somebody else's checkpoint
fn other_settings(c: &mut Case, r: &mut Rng) {
    let o = Case::generate(r.u64(), &Profile { max_pop: 18, p_target: 0.7, ..Default::default() });
    c.target = if r.chance(0.3) { Some(1e300) } else { o.target };
    c.tol = o.tol.or(Some((0.7, 0.3)));
    c.exclude = !c.exclude;
    c.batch = o.batch;
    c.parallel = o.parallel;
    c.custom = None;
    if r.chance(0.6) {
        c.params = o.params.clone();
        if r.chance(0.5) {
            c.params.seed = r.u64();
        }
    }
}

pub fn c11(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 11));
    let mut case = Case::generate(seed, &c11_profile());
    if matches!(case.spec.fault, Fault::ErrRegion(..)) {
        case.spec.fault = Fault::None;
    }
    if r.chance(0.7) {
        many_searches(&mut case, &mut r);
    }
    if r.chance(0.15) {
        aim_target(ctx, &mut case, &mut r);
    }
    if case.params.iterations < 2 && r.chance(0.8) {
        case.params.iterations = case.params.population_size;
    }
    ctx.classes.insert(case.class());
    let t = Tmp::new(&ctx.scratch);
    let base = Ckpts::trace(&t.0);
    let full = exec(&case, Some(&base), None);
    if full.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", full.out.short(), case.brief()));
        return;
    }
    let complete = full.set.is_some() || full.out == Outcome::Err("NoFeasibleSolution".into());
    if !complete || full.cks.is_empty() {
        ctx.discarded += 1;
        return;
    }
    let last = full.cks.last().unwrap().clone();
    let rules = Rules::of(&case);
    let mut oracle = LocalOracle::new(&case);
    let cands = candidates(&case, &last);
    let end = case.params.iterations.min(cands.len());
    // --- resume from stored checkpoints, once or repeatedly
    let n = full.cks.len();
    let mut picks: Vec<usize> = vec![r.below(n), n - 1, 0];
    if n <= 6 || ctx.thorough {
        picks = (0..n).collect();
    }
    picks.sort();
    picks.dedup();
    for k in picks {
        let ck = full.cks[k].clone();
        let d = Tmp::new(&ctx.scratch);
        copy_upto(&t.0, &d.0, ck.current_iteration);
        let mut again = case.clone();
        again.delay = 0;
        if r.chance(0.3) {
            // The checkpoint carries the settings
            again.target = None;
            again.tol = None;
            again.exclude = false;
            again.batch = None;
            again.parallel = !case.parallel;
            again.custom = None;
            ctx.n("resumed_with_bare_optimizer", 1);
        } else if r.chance(0.4) {
            // ... also over settings of the optimizer's own
            other_settings(&mut again, &mut r);
            ctx.n("resumed_with_other_settings", 1);
        }
        let mut c2 = Ckpts::trace(&d.0);
        c2.auto_resume = true;
        c2.freq = r.pick(&[1, 1, 2, 5]);
        let prob = again.problem();
        let (asked, rerun) = (r.chance(0.15), r.chance(0.15));
        if rerun {
            ctx.n("run_again_after_completion", 1);
        }
        let res = if asked || rerun { resume_exec_by_hand(&again, prob, &c2, asked, rerun) } else { resume_exec(&again, prob, &c2) };
        ctx.n("resumes", 1);
        ctx.d("resume_points", ck.current_iteration as u64);
        ctx.check(res.out == full.out, "result-differs", || {
            format!("resumed after {} of {end}: {} instead of {}; {}", ck.current_iteration, res.out.short(), full.out.short(), case.brief())
        });
        if let Some(l) = res.cks.last() {
            let (a, b) = (ck_state(&last), ck_state(l));
            ctx.check(a == b, "final-checkpoint-differs", || format!("resumed after {}: {}; {}", ck.current_iteration, diff(&a, &b), case.brief()));
        }
        for c in &res.cks {
            if let Some(w) = full.cks.iter().find(|w| w.current_iteration == c.current_iteration) {
                let (a, b) = (ck_state(w), ck_state(c));
                ctx.check(a == b, "state-differs", || format!("resumed after {}, at {}: {}; {}", ck.current_iteration, c.current_iteration, diff(&a, &b), case.brief()));
            }
        }
        let st = state_of(&ck);
        let e = if st.target_hit(&rules) {
            ctx.n("resumed_at_target", 1);
            model(&mut oracle, &cands, end, end, case.batch_eff(), st, &rules)
        } else {
            model(&mut oracle, &cands, ck.current_iteration, case.params.iterations, case.batch_eff(), st, &rules)
        };
        if e.error.is_none() {
            check_resumed_work(ctx, "resume", &res.evals, &e, &cands, ck.current_iteration, &format!("resumed after {}; {}", ck.current_iteration, case.brief()));
        }
        if ck.current_iteration >= end {
            ctx.n("complete_runs_resumed", 1);
            ctx.check(res.evals.is_empty(), "complete-run-searched-again", || format!("{} evaluations; {}", res.evals.len(), case.brief()));
        }
    }
    // --- crashes at arbitrary evaluations, resumed until the run completes
    let total = full.evals.len() as u64;
    let d = Tmp::new(&ctx.scratch);
    let mut c3 = Ckpts::trace(&d.0);
    c3.auto_resume = true;
    c3.freq = r.pick(&[1, 1, 2, 3]);
    c3.keep_all = r.chance(0.7);
    let mut crashes = 0;
    let mut fin = None;
    for attempt in 0..40 {
        let mut prob = Prob::new(case.spec.clone());
        if attempt < r.range(1, 6) && total > 0 {
            let mut s = case.spec.clone();
            s.fault = match s.fault {
                Fault::None => Fault::ErrAt(r.u64() % total),
                f => f,
            };
            prob = Prob::new(s);
        }
        let run = resume_exec(&case, prob, &c3);
        match run.out {
            Outcome::Err(ref e) if e != "NoFeasibleSolution" => {
                crashes += 1;
                ctx.n("crashes", 1);
                ctx.n("crashes_after_a_checkpoint", (!run.cks.is_empty()) as u64);
            }
            _ => {
                // COBYLA and trial points survive an error: the history differs then
                let clean = matches!(run.out, Outcome::Ok(_)) && run.evals.iter().all(|e| e.value.is_ok());
                fin = Some((run, clean || attempt > 6));
                break;
            }
        }
    }
    if let Some((run, true)) = fin {
        if crashes > 0 && case.sol != Sol::Cobyla && trial_errors_none(&run) {
            ctx.n("crash_histories_completed", 1);
            let strict = crash_history_is_clean(&case, &run);
            if strict {
                ctx.check(run.out == full.out, "result-after-crashes", || format!("{} instead of {} after {crashes} crashes; {}", run.out.short(), full.out.short(), case.brief()));
                if let Some(l) = run.cks.last() {
                    let (a, b) = (ck_state(&last), ck_state(l));
                    ctx.check(a == b, "checkpoint-after-crashes", || format!("{}; {}", diff(&a, &b), case.brief()));
                }
            }
        }
    }
    // --- the process is killed
    if r.chance(if ctx.thorough { 0.3 } else { 0.06 }) && case.spec.constraints.is_empty() {
        if let Some(me) = &ctx.me {
            let d = Tmp::new(&ctx.scratch);
            let child = std::process::Command::new(me)
                .args(["--child", "c11", "--case", &seed.to_string(), "--prop", "C11", "--scratch"])
                .arg(&d.0)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn();
            if let Ok(mut child) = child {
                let wait = r.below(120) as u64;
                std::thread::sleep(std::time::Duration::from_millis(wait));
                let _ = child.kill();
                let _ = child.wait();
                let plain = child_case(seed);
                let a = exec_traced(ctx, &plain, None);
                let mut c4 = Ckpts::trace(&d.0);
                c4.auto_resume = true;
                let left = list_ckpts(&d.0).iter().filter(|f| f.ends_with(".bin")).count();
                let b = resume_exec(&plain, plain.problem(), &c4);
                ctx.n("killed_processes", 1);
                ctx.n("killed_with_checkpoints", (left > 0) as u64);
                ctx.check(a.out == b.out, "result-after-kill", || format!("{} instead of {} ({left} checkpoints left); {}", b.out.short(), a.out.short(), plain.brief()));
                if let (Some(x), Some(y)) = (a.cks.last(), b.cks.last()) {
                    let (x, y) = (ck_state(x), ck_state(y));
                    ctx.check(x == y, "checkpoint-after-kill", || format!("{}; {}", diff(&x, &y), plain.brief()));
                }
            }
        }
    }
    ctx.sample(|| format!("{} -> {} checkpoints, {crashes} crashes, {}", case.brief(), n, full.out.short()));
}
fn trial_errors_none(run: &Run) -> bool {
    run.evals.iter().all(|e| e.value.is_ok())
}
/// An injected error during Stage 1 trial evaluation only drops that trial point, which legitimately
/// changes the population; compare only when the population is the one of the undisturbed run.
fn crash_history_is_clean(case: &Case, run: &Run) -> bool {
    let (s1, _) = run_stage1(case, case.parallel, case.threads);
    match (s1, run.cks.last()) {
        (Ok(s), Some(l)) => {
            sorted(s.refset.iter().map(|(p, _)| bits(p)).collect::<Vec<_>>()) == sorted(l.reference_set.iter().map(bits).collect::<Vec<_>>())
        }
        _ => false,
    }
}
/// The case a killed child process works on: slow enough to be hit anywhere.
pub fn child_case(seed: u64) -> Case {
    let mut case = Case::generate(mix(seed, 0xC1), &Profile { sols: vec![Sol::NelderMead, Sol::Cobyla], p_constraints: 0.0, ..c11_profile() });
    case.params.iterations = case.params.population_size;
    case.spec.fault = Fault::None;
    case.delay = 0;
    let mut r = Rng::new(mix(seed, 0xC2));
    many_searches(&mut case, &mut r);
    case
}
pub fn child_c11(seed: u64, dir: &Path) {
    let mut case = child_case(seed);
    case.delay = 300;
    let mut c = Ckpts::trace(dir);
    c.auto_resume = true;
    exec(&case, Some(&c), None);
}

// ---------------------------------------------------------------------------------------- C12
/// A small checkpoint that carries `tag` in several places.
fn tagged(tag: u64, size: usize) -> OQNLPCheckpoint {
    let mut r = Rng::new(tag);
    let mut c = wild_checkpoint(&mut r, Sol::NelderMead);
    c.current_seed = tag;
    c.reference_set = (0..size).map(|i| Array1::from_elem(3, (tag % 1000) as f64 + i as f64)).collect();
    c.timestamp = format!("tag{tag}");
    c
}
fn cfg(dir: &Path, name: &str, keep_all: bool) -> CheckpointConfig {
    CheckpointConfig { checkpoint_dir: dir.to_path_buf(), checkpoint_name: name.into(), save_frequency: 1, keep_all, auto_resume: false }
}

pub fn c12(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(seed);
    match r.below(10) {
        0..=4 => c12_store(&mut r, ctx),
        5..=7 => c12_frequency(seed, &mut r, ctx),
        8 if r.chance(0.5) => c12_together(&mut r, ctx),
        8 => c12_failing(&mut r, ctx),
        _ => c12_kill(seed, &mut r, ctx),
    }
}

/// Random histories of saves, cleanups and foreign files against a model of the store.
fn c12_store(r: &mut Rng, ctx: &mut Ctx) {
    let t = Tmp::new(&ctx.scratch);
    let names = r.pick(&[vec!["run", "run_2"], vec!["a", "ab"], vec!["x.y", "x"], vec!["opt", "opt_000001"], vec!["n_", "n"], vec!["7", "7_7"]]);
    let mut mgrs = vec![];
    let mut store: Vec<BTreeMap<usize, u64>> = vec![];
    for n in &names {
        let keep = r.chance(0.75);
        mgrs.push((n.to_string(), keep));
        store.push(BTreeMap::new());
    }
    // two names may share a file only if one is keep_all of the other's prefix; avoid real clashes:
    // "opt_000001" in overwrite mode IS the file of iteration 1 of "opt"
    if names == ["opt", "opt_000001"] {
        mgrs[1].1 = true;
    }
    let mut foreign: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut hist = vec![];
    let ops = r.range(4, 30);
    for step in 0..ops {
        let w = r.below(mgrs.len());
        let (name, keep) = mgrs[w].clone();
        let m = CheckpointManager::new(cfg(&t.0, &name, keep)).expect("scratch");
        match r.below(10) {
            0..=4 => {
                let it = match r.below(6) {
                    0 => 0,
                    1 => r.range(999_990, 1_000_010),
                    2 => r.pick(&[9usize, 10, 99, 100, 1000, 100_000, 10_000_000]),
                    _ => r.below(40),
                };
                let tag = r.u64();
                let ck = tagged(tag, r.below(20));
                hist.push(format!("save {name} {it}"));
                let res = m.save_checkpoint(&ck, it);
                ctx.check(res.is_ok(), "save", || format!("{res:?} after {hist:?}"));
                if let Ok(p) = res {
                    ctx.check(p.parent() == Some(t.0.as_path()), "save-path", || format!("{}", p.display()));
                }
                if !keep {
                    store[w].clear();
                }
                store[w].insert(it, tag);
            }
            5 | 6 => {
                let k = r.pick(&[0usize, 1, 2, 3, 5, 100]);
                hist.push(format!("cleanup {name} {k}"));
                let res = m.cleanup_old_checkpoints(k);
                ctx.check(res.is_ok(), "cleanup", || format!("{res:?} after {hist:?}"));
                if keep && k > 0 {
                    while store[w].len() > k {
                        let old = *store[w].keys().next().unwrap();
                        store[w].remove(&old);
                    }
                }
            }
            7 | 8 => {
                let f = match r.below(12) {
                    0 => format!("{name}_abc.bin"),
                    1 => format!("{name}_000099.txt"),
                    2 => format!("other_{:06}.bin", r.below(99)),
                    3 => format!("{name}_.bin"),
                    4 => format!("{name}x_{:06}.bin", r.below(99)),
                    5 => format!("{name}_+00777.bin"),
                    6 => format!("{name}_000050.bin.bak"),
                    7 => format!("{name}_ 00888.bin"),
                    8 => format!("z{name}_{:06}.bin", r.below(99)),
                    9 => format!("{name}_99999999999999999999999.bin"),
                    10 => format!("{name}-000123.bin"),
                    _ => "notes.md".into(),
                };
                // Not a file one of the managers owns
                let owned = mgrs.iter().any(|(m, _)| {
                    f == format!("{m}.bin")
                        || f.strip_prefix(&format!("{m}_")).and_then(|x| x.strip_suffix(".bin")).is_some_and(|x| x.bytes().all(|b| b.is_ascii_digit()) && x.parse::<usize>().is_ok())
                });
                if owned {
                    continue;
                }
                let body = r.u64().to_le_bytes().to_vec();
                std::fs::write(t.0.join(&f), &body).expect("scratch");
                hist.push(format!("foreign {f}"));
                foreign.insert(f, body);
            }
            _ => {
                let d = t.0.join(format!("{name}_dir"));
                let _ = std::fs::create_dir(&d);
                hist.push("directory".into());
            }
        }
        // Observe every manager after every step
        for (k, (name, keep)) in mgrs.iter().enumerate() {
            let m = CheckpointManager::new(cfg(&t.0, name, *keep)).expect("scratch");
            let want = store[k].iter().next_back();
            ctx.n("store_states", 1);
            ctx.check(m.checkpoint_exists() == want.is_some(), "exists", || format!("{name}: exists {} but model {:?} after {hist:?}", m.checkpoint_exists(), store[k].keys()));
            match (m.load_latest_checkpoint(), want) {
                (Ok(c), Some((it, tag))) => {
                    ctx.check(c.current_seed == *tag, "latest", || format!("{name}: latest is not iteration {it}, after {hist:?}"));
                }
                (Ok(_), None) => {
                    ctx.check(false, "latest-of-nothing", || format!("{name} after {hist:?}"));
                }
                (Err(e), Some((it, _))) => {
                    ctx.check(false, "latest-lost", || format!("{name}: iteration {it} expected, {e}; after {hist:?}"));
                }
                _ => {}
            }
            if *keep {
                let files: Vec<u64> = sorted(
                    list_ckpts(&t.0)
                        .iter()
                        .filter(|f| !foreign.contains_key(*f))
                        .filter_map(|f| {
                            let rest = f.strip_prefix(&format!("{name}_"))?.strip_suffix(".bin")?;
                            if rest.len() >= 6 && rest.bytes().all(|b| b.is_ascii_digit()) {
                                read_checkpoint_file(&t.0.join(f)).ok().map(|c| c.current_seed)
                            } else {
                                None
                            }
                        })
                        .collect::<Vec<_>>(),
                );
                let want = sorted(store[k].values().cloned().collect::<Vec<_>>());
                ctx.check(files == want, "archive", || format!("{name}: {} archived, model has {:?}, after {hist:?}", files.len(), store[k].keys()));
            }
        }
        for (f, b) in &foreign {
            ctx.check(std::fs::read(t.0.join(f)).ok().as_ref() == Some(b), "foreign-file", || format!("{f} was touched after {hist:?}"));
        }
        let _ = step;
    }
    let mut h = Fnv::default();
    h.s(&hist.join(";"));
    ctx.classes.insert(h.0);
    ctx.n("histories", 1);
    ctx.sample(|| hist.join("; "));
}

/// When a run saves, and what it saves at that time.
fn c12_frequency(seed: u64, r: &mut Rng, ctx: &mut Ctx) {
    let mut case = Case::generate(seed, &Profile { max_pop: 24, p_big_pop: 0.05, p_constraints: 0.05, p_target: 0.15, ..Default::default() });
    many_searches(&mut case, r);
    case.delay = 0;
    if r.chance(0.15) {
        aim_target(ctx, &mut case, r);
    }
    let full = exec_traced(ctx, &case, None);
    if !(full.set.is_some() || full.out == Outcome::Err("NoFeasibleSolution".into())) || full.cks.is_empty() {
        ctx.discarded += 1;
        return;
    }
    ctx.classes.insert(case.class());
    let freq = r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 10, 1000, usize::MAX]);
    for keep_all in [true, false] {
        let d = Tmp::new(&ctx.scratch);
        let c = Ckpts { dir: d.0.clone(), freq, keep_all, auto_resume: false, name: "f".into() };
        let run = exec(&case, Some(&c), None);
        ctx.n("frequency_runs", 1);
        ctx.check(run.out == full.out, "result-depends-on-frequency", || format!("{} instead of {} with frequency {freq}; {}", run.out.short(), full.out.short(), case.brief()));
        let fin = full.cks.last().unwrap().current_iteration;
        let f = freq.max(1);
        let mut want = vec![];
        let mut prev = 0;
        for k in &full.cks {
            let c = k.current_iteration;
            if c / f > prev / f || c == fin {
                want.push(c);
            }
            prev = c;
        }
        want.dedup();
        let got: Vec<usize> = run.cks.iter().map(|c| c.current_iteration).collect();
        if keep_all {
            ctx.check(got == want, "saved-iterations", || format!("saved at {got:?}, expected {want:?} with frequency {freq}; {}", case.brief()));
            let names: Vec<String> = want.iter().map(|k| format!("f_{k:06}.bin")).collect();
            ctx.check(run.files == names, "files", || format!("{:?} instead of {names:?}", run.files));
        } else {
            ctx.check(got == [fin], "overwrite-mode", || format!("one checkpoint at {fin} expected, found {got:?} {:?}; {}", run.files, case.brief()));
        }
        for c in &run.cks {
            if let Some(w) = full.cks.iter().find(|w| w.current_iteration == c.current_iteration) {
                let (a, b) = (ck_state(w), ck_state(c));
                ctx.check(a == b, "saved-state", || format!("{}; {}", diff(&a, &b), case.brief()));
            }
        }
    }
}

/// Saves that fail part way: whatever the failure, the previous checkpoint stays loadable.
fn c12_failing(r: &mut Rng, ctx: &mut Ctx) {
    let t = Tmp::new(&ctx.scratch);
    let keep = r.chance(0.5);
    let m = CheckpointManager::new(cfg(&t.0, "s", keep)).expect("scratch");
    let first = tagged(r.u64(), 200);
    if m.save_checkpoint(&first, 1).is_err() {
        return;
    }
    ctx.classes.insert(mix(first.current_seed, 12));
    // Directories where a temporary file may want to go
    let name = if keep { "s_000002.bin" } else { "s.bin" };
    for s in [".tmp", ".part", "~", ".new", ".swp", ".bak"] {
        let _ = std::fs::create_dir(t.0.join(format!("{name}{s}")));
    }
    let stem = name.trim_end_matches(".bin");
    for s in [".tmp", ".part", ".new"] {
        let _ = std::fs::create_dir(t.0.join(format!("{stem}{s}")));
    }
    let second = tagged(r.u64(), 220);
    let res = catch_unwind(AssertUnwindSafe(|| m.save_checkpoint(&second, 2)));
    ctx.n("obstructed_saves", 1);
    let Ok(res) = res else {
        ctx.check(false, "save-panicked", || "save with an obstructed temporary file".into());
        return;
    };
    ctx.n("obstructed_saves_failed", res.is_err() as u64);
    let want = if res.is_ok() { second.current_seed } else { first.current_seed };
    let got = m.load_latest_checkpoint();
    ctx.check(got.as_ref().is_ok_and(|c| c.current_seed == want), "previous-lost", || format!("save {:?}, latest {:?}", res.map(|p| p.display().to_string()), got.map(|c| c.timestamp)));
}

/// Optimizers with different checkpoint names save into one directory at the same time.
fn c12_together(r: &mut Rng, ctx: &mut Ctx) {
    let t = Tmp::new(&ctx.scratch);
    let names = ["run", "run_2", "run.v2", "job-b", "checkpoint", "r"];
    let n = 2 + r.below(names.len() - 1);
    let keep: Vec<bool> = (0..n).map(|_| r.chance(0.4)).collect();
    let (rounds, base) = (4 + r.below(8) as u64, r.u64() >> 20);
    let sizes: Vec<usize> = (0..n).map(|_| r.pick(&[3, 100, 700])).collect();
    ctx.classes.insert(mix(base, 14));
    let faults: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (keep, size, dir) = (keep[k], sizes[k], &t.0);
                s.spawn(move || {
                    let m = CheckpointManager::new(cfg(dir, names[k], keep)).map_err(|e| e.to_string())?;
                    for i in 1..=rounds {
                        let c = tagged(base + (k as u64) * 1000 + i, size + i as usize);
                        m.save_checkpoint(&c, i as usize).map_err(|e| format!("{}: save {i}: {e}", names[k]))?;
                        let got = m.load_latest_checkpoint().map_err(|e| format!("{}: load {i}: {e}", names[k]))?;
                        let (a, b) = (full_state(&c), full_state(&got));
                        if a != b {
                            return Err(format!("{}: {}", names[k], diff(&a, &b)));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("panicked".into())).err()).collect()
    });
    ctx.n("savers_at_the_same_time", n as u64);
    ctx.check(faults.is_empty(), "names-interfere", || format!("{faults:?}, {n} names, archive {keep:?}"));
    let want: usize = (0..n).map(|k| if keep[k] { rounds as usize } else { 1 }).sum();
    let files = list_ckpts(&t.0);
    let n_bin = files.iter().filter(|f| f.ends_with(".bin")).count();
    ctx.check(n_bin == want, "files-of-others", || format!("{n_bin} checkpoints instead of {want}: {files:?}"));
}

/// A process that saves without pause is killed (or runs into a file size limit): the checkpoint it
/// leaves is a complete one.
fn c12_kill(seed: u64, r: &mut Rng, ctx: &mut Ctx) {
    let Some(me) = ctx.me.clone() else { return };
    let t = Tmp::new(&ctx.scratch);
    let m = CheckpointManager::new(cfg(&t.0, "k", false)).expect("scratch");
    if m.save_checkpoint(&tagged(0, 3), 0).is_err() {
        return;
    }
    let limit = r.chance(0.4);
    let mut c = if limit {
        // blocks of 1 KiB; the checkpoints are larger
        let mut c = std::process::Command::new("bash");
        c.args(["-c", &format!("ulimit -f {}; exec \"$0\" \"$@\"", r.pick(&[1, 2, 8, 24]))]).arg(&me);
        c
    } else {
        std::process::Command::new(&me)
    };
    let child = c
        .args(["--child", "c12", "--case", &seed.to_string(), "--prop", "C12", "--scratch"])
        .arg(&t.0)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let Ok(mut child) = child else { return };
    std::thread::sleep(std::time::Duration::from_micros(3000 + (r.u64() % 25_000)));
    let _ = child.kill();
    let _ = child.wait();
    ctx.n(if limit { "size_limited_savers" } else { "killed_savers" }, 1);
    ctx.classes.insert(mix(seed, 13));
    let got = catch_unwind(AssertUnwindSafe(|| m.load_latest_checkpoint()));
    match got {
        Ok(Ok(c)) => {
            ctx.n("saves_before_kill", c.current_seed);
            let want = tagged(c.current_seed, if c.current_seed == 0 { 3 } else { 400 + (c.current_seed % 7) as usize * 300 });
            let (a, b) = (full_state(&want), full_state(&c));
            ctx.check(a == b, "mixed-checkpoint", || diff(&a, &b));
        }
        Ok(Err(e)) => {
            ctx.check(false, "checkpoint-destroyed", || format!("{e} ({})", if limit { "file size limit" } else { "killed" }));
        }
        Err(_) => {
            ctx.check(false, "load-panicked", || "after a killed save".into());
        }
    }
}
pub fn child_c12(dir: &Path) {
    let m = CheckpointManager::new(cfg(dir, "k", false)).expect("scratch");
    for tag in 1..1_000_000u64 {
        let _ = m.save_checkpoint(&tagged(tag, 400 + (tag % 7) as usize * 300), tag as usize);
    }
}
/// One save over an existing checkpoint, for system call fault injection from outside.
pub fn child_save(dir: &Path, tag: u64, keep: bool) -> bool {
    let m = CheckpointManager::new(cfg(dir, "k", keep)).expect("scratch");
    m.save_checkpoint(&tagged(tag, 900), tag as usize).is_ok()
}
/// Prints the tag of the latest checkpoint, or the reason there is none.
pub fn child_latest(dir: &Path, keep: bool) {
    let m = CheckpointManager::new(cfg(dir, "k", keep)).expect("scratch");
    match catch_unwind(AssertUnwindSafe(|| m.load_latest_checkpoint())) {
        Ok(Ok(c)) => {
            let same = full_state(&c) == full_state(&tagged(c.current_seed, 900));
            println!("{} {same}", c.current_seed);
        }
        Ok(Err(e)) => println!("error {e}"),
        Err(_) => println!("panic"),
    }
}

// ---------------------------------------------------------------------------------------- C13
pub fn mutate(r: &mut Rng, good: &[u8]) -> (Vec<u8>, String) {
    let mut b = good.to_vec();
    let kind = r.below(9);
    let what = match kind {
        0 => {
            let k = r.below(b.len() + 1);
            b.truncate(k);
            format!("truncated to {k}")
        }
        1 => {
            let n = r.range(1, 3);
            let mut w = vec![];
            for _ in 0..n {
                if b.is_empty() {
                    break;
                }
                let k = r.below(b.len());
                let bit = r.below(8);
                b[k] ^= 1 << bit;
                w.push((k, bit));
            }
            format!("bits flipped {w:?}")
        }
        2 => {
            // An aligned or unaligned length field
            let v = r.pick(&[u64::MAX, u64::MAX / 2, 1 << 62, 1 << 40, 1 << 33, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 20, 0, i64::MAX as u64, (1u64 << 63) + 1]);
            let k = if b.len() > 8 { r.below(b.len() - 8) } else { 0 };
            for (i, x) in v.to_le_bytes().iter().enumerate() {
                if k + i < b.len() {
                    b[k + i] = *x;
                }
            }
            format!("{v:#x} at {k}")
        }
        3 => {
            let n = r.range(1, 200);
            b.extend((0..n).map(|_| r.u64() as u8));
            format!("{n} bytes appended")
        }
        4 => {
            let n = r.below(3000);
            b = (0..n).map(|_| r.u64() as u8).collect();
            format!("{n} random bytes")
        }
        5 => {
            b.clear();
            "empty".into()
        }
        6 => {
            let k = r.below(b.len().max(1));
            for x in b.iter_mut().skip(k).take(r.range(1, 64)) {
                *x = r.pick(&[0u8, 0xff, 0x7f, 0x80]);
            }
            format!("overwritten from {k}")
        }
        7 => {
            let k = r.below(b.len().max(1));
            let n = r.range(1, 40).min(b.len() - k);
            b.drain(k..k + n);
            format!("{n} bytes removed at {k}")
        }
        _ => {
            let v = r.pick(&[u32::MAX, 1 << 31, 7, 100, 6]);
            let k = if b.len() > 4 { r.below(b.len() - 4) } else { 0 };
            for (i, x) in v.to_le_bytes().iter().enumerate() {
                if k + i < b.len() {
                    b[k + i] = *x;
                }
            }
            format!("u32 {v:#x} at {k}")
        }
    };
    (b, what)
}

pub fn c13(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(seed);
    let t = Tmp::new(&ctx.scratch);
    let m = CheckpointManager::new(cfg(&t.0, "d", true)).expect("scratch");
    let sol = r.pick(&SOLS);
    let mut ck = wild_checkpoint(&mut r, sol);
    if r.chance(0.3) {
        ck = tagged(r.u64(), 40);
    }
    let Ok(path) = m.save_checkpoint(&ck, 5) else { return };
    let good = std::fs::read(&path).expect("saved");
    let one = |r: &mut Rng, ctx: &mut Ctx, bytes: Vec<u8>, what: String| {
        std::fs::write(&path, &bytes).expect("scratch");
        let mut h = Fnv::default();
        for c in bytes.chunks(8) {
            h.w(c.iter().fold(0, |a, b| a << 8 | *b as u64));
        }
        ctx.classes.insert(h.0);
        for how in 0..3 {
            crate::alloc_reset();
            let t0 = std::time::Instant::now();
            let res = catch_unwind(AssertUnwindSafe(|| match how {
                0 => m.load_latest_checkpoint().map(|_| ()).map_err(|e| e.to_string()),
                1 => m.load_checkpoint_from_path(&path).map(|_| ()).map_err(|e| e.to_string()),
                _ => read_checkpoint_file(&path).map(|_| ()).map_err(|e| e.to_string()),
            }));
            let big = crate::alloc_largest();
            ctx.n("loads", 1);
            match &res {
                Ok(Ok(())) => ctx.n("decoded", 1),
                Ok(Err(_)) => ctx.n("reported", 1),
                Err(_) => {
                    ctx.check(false, "panic", || format!("{what} (loader {how}): {:?}", PANICS.lock().unwrap().last()));
                }
            }
            ctx.check(big <= 1 << 31, "allocation", || format!("{what}: a request of {big} bytes for a file of {}", bytes.len()));
            ctx.check(t0.elapsed().as_secs() < 20, "slow", || what.clone());
            ctx.check(std::fs::read(&path).ok().as_deref() == Some(&bytes[..]), "file-touched", || what.clone());
            // A truncated file can never be a complete checkpoint
            if bytes.len() < good.len() && good.starts_with(&bytes) {
                ctx.check(!matches!(res, Ok(Ok(()))), "truncated-accepted", || format!("{} of {} bytes", bytes.len(), good.len()));
            }
            // All three readers agree
            if how == 2 {
                let a = m.load_checkpoint_from_path(&path).is_ok();
                ctx.check(a == matches!(res, Ok(Ok(()))), "readers-disagree", || what.clone());
            }
        }
        // A run that would continue from it
        if r.chance(0.25) && read_checkpoint_file(&path).is_err() {
            let case = small_case(r.u64());
            for keep_all in [true, false] {
                if !keep_all {
                    std::fs::copy(&path, t.0.join("d.bin")).expect("scratch");
                }
                let prob = case.problem();
                let mut c = Ckpts { dir: t.0.clone(), freq: 1, keep_all, auto_resume: true, name: "d".into() };
                c.freq = 1;
                let run = exec_with(&case, prob, Some(&c), None);
                ctx.n("resumes_of_damaged", 1);
                ctx.check(matches!(&run.out, Outcome::Err(e) if e.starts_with("Checkpoint")), "started-over", || {
                    format!("{what}: the run gave {} instead of the checkpoint error", run.out.short())
                });
                ctx.check(run.evals.is_empty(), "searched-despite-damage", || format!("{what}: {} evaluations", run.evals.len()));
                let p = if keep_all { path.clone() } else { t.0.join("d.bin") };
                ctx.check(std::fs::read(&p).ok().as_deref() == Some(&bytes[..]), "file-touched-by-run", || what.clone());
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let mut o = build(&case, case.problem(), Some(&c), None).ok()?;
                    Some((o.resume_with_modified_params(case.params.clone()).is_err(), o.resume_from_checkpoint_with_params(&p, case.params.clone()).is_err()))
                }));
                ctx.check(matches!(res, Ok(Some((true, true)))), "modified-resume-accepted", || format!("{what}: {res:?}"));
            }
            let _ = std::fs::remove_file(t.0.join("d.bin"));
        }
    };
    if r.chance(0.15) {
        // Every truncation and every single-bit flip of a short stretch
        let step = (good.len() / 150).max(1);
        for k in (0..good.len()).step_by(step) {
            let b = good[..k].to_vec();
            one(&mut r, ctx, b, format!("truncated to {k}"));
        }
        let k0 = r.below(good.len());
        for k in k0..(k0 + 12).min(good.len()) {
            for bit in 0..8 {
                let mut b = good.clone();
                b[k] ^= 1 << bit;
                one(&mut r, ctx, b, format!("bit {bit} of byte {k}"));
            }
        }
    } else {
        for _ in 0..25 {
            let (b, what) = mutate(&mut r, &good);
            one(&mut r, ctx, b, what);
        }
    }
    // Missing files and directories
    let gone = t.0.join("gone.bin");
    let res = catch_unwind(AssertUnwindSafe(|| (read_checkpoint_file(&gone).is_err(), m.load_checkpoint_from_path(&t.0).is_err(), read_checkpoint_file(&t.0).is_err())));
    ctx.check(matches!(res, Ok((true, true, true))), "missing", || format!("{res:?}"));
    ctx.check(!gone.exists(), "missing-created", || "a load created the file".into());
    ctx.sample(|| format!("{} bytes, solver {sol:?}", good.len()));
}

pub fn small_case(seed: u64) -> Case {
    let mut c = Case::generate(seed, &Profile { sols: vec![Sol::NelderMead, Sol::Cobyla], max_pop: 8, p_big_pop: 0.0, p_constraints: 0.0, p_target: 0.0, ..Default::default() });
    c.delay = 0;
    c
}

// ---------------------------------------------------------------------------------------- C14
pub fn c14(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 14));
    let mut case = Case::generate(seed, &Profile { p_constraints: 0.15, max_pop: 16, p_big_pop: 0.02, p_target: 0.15, p_custom: 0.2, ..Default::default() });
    if r.chance(0.7) {
        many_searches(&mut case, &mut r);
    }
    if r.chance(0.5) {
        case.params.iterations = r.range(1, case.params.population_size);
    }
    ctx.classes.insert(case.class());
    let t = Tmp::new(&ctx.scratch);
    let full = exec(&case, Some(&Ckpts::trace(&t.0)), None);
    if !(full.set.is_some() || full.out == Outcome::Err("NoFeasibleSolution".into())) || full.cks.is_empty() {
        ctx.discarded += 1;
        return;
    }
    let k = if r.chance(0.4) { full.cks.len() - 1 } else { r.below(full.cks.len()) };
    let ck = full.cks[k].clone();
    let d = Tmp::new(&ctx.scratch);
    copy_upto(&t.0, &d.0, ck.current_iteration);
    // New parameters
    let mut p = case.params.clone();
    let w = case.spec.bounds.iter().map(|(l, h)| h - l).fold(0.0, f64::max);
    if r.chance(0.5) {
        p.population_size = match r.below(3) {
            0 => p.population_size.saturating_sub(r.range(1, 4)).max(4),
            1 => p.population_size + r.range(1, 3),
            _ => p.population_size + r.range(4, 30),
        };
    }
    p.iterations = match r.below(4) {
        0 => p.iterations.min(p.population_size),
        1 => p.population_size,
        2 => r.range(0, p.population_size),
        _ => ck.current_iteration.min(p.population_size),
    };
    if r.chance(0.4) {
        p.wait_cycle = r.pick(&[0usize, 1, 2, 5]);
    }
    if r.chance(0.4) {
        p.threshold_factor = r.pick(&[0.05, 0.7, 10.0]);
    }
    if r.chance(0.4) {
        p.distance_factor = r.pick(&[0.0, 1e-3, 0.2, 2.0]) * w;
    }
    if r.chance(0.4) {
        let s = r.pick(&[Sol::NelderMead, Sol::Cobyla, Sol::Lbfgs, Sol::Steepest]);
        p.local_solver_type = s.ty();
        p.local_solver_config = gen_cfg(&mut r, s, case.spec.dim());
    }
    if r.chance(0.4) {
        p.seed = r.u64();
    }
    let by_path = r.chance(0.4);
    let mut c2 = Ckpts::trace(&d.0);
    c2.auto_resume = r.chance(0.3);
    let prob = Prob::new(case.spec.clone());
    // The optimizer that resumes is built with the original or with the new parameters
    let mut opt_case = case.clone();
    opt_case.delay = 0;
    if r.chance(0.5) && p.iterations <= p.population_size {
        opt_case.params = p.clone();
        opt_case.custom = None;
    }
    if r.chance(0.4) {
        let keep = opt_case.params.clone();
        other_settings(&mut opt_case, &mut r);
        opt_case.params = keep;
        opt_case.custom = None;
    }
    let path: PathBuf = d.0.join(format!("t_{:06}.bin", ck.current_iteration));
    let t0 = std::time::Instant::now();
    dependency_panic();
    let (out, set) = on_pool(case.threads, || {
        outcome(catch_unwind(AssertUnwindSafe(|| {
            let mut o = build(&opt_case, prob.clone(), Some(&c2), None)?;
            if by_path {
                o.resume_from_checkpoint_with_params(&path, p.clone())?;
            } else {
                o.resume_with_modified_params(p.clone())?;
            }
            o.run()
        })))
    });
    let run = collect(prob, out, set, Some(&c2), t0);
    ctx.n("modified_resumes", 1);
    let what = format!("resumed after {} by {} with {}; {}", ck.current_iteration, if by_path { "path" } else { "latest" }, params_str(&p), case.brief());
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {what}", run.out.short()));
        return;
    }
    let grow = !by_path && p.population_size > case.params.population_size;
    let Some(last) = run.cks.last().filter(|c| c.current_iteration >= ck.current_iteration) else {
        ctx.discarded += 1;
        return;
    };
    // An error of the local solver leaves only intermediate checkpoints
    let complete = run.set.is_some() || run.out == Outcome::Err("NoFeasibleSolution".into());
    // Stored candidates stay in place
    let stored: Vec<_> = ck.reference_set.iter().map(bits).collect();
    let now: Vec<_> = last.reference_set.iter().map(bits).collect();
    if !complete && params_str(&last.params) != params_str(&p) {
        // failed before the first checkpoint of the resumed run was written
        ctx.discarded += 1;
        return;
    }
    ctx.check(now.len() >= stored.len() && now[..stored.len()] == stored[..], "stored-candidates", || format!("{} stored, {} now; {what}", stored.len(), now.len()));
    if grow {
        ctx.n("expansions", 1);
        ctx.check(now.len() == p.population_size.max(stored.len()), "expanded-size", || format!("{} candidates, {} expected; {what}", now.len(), p.population_size));
        for q in last.reference_set.iter().skip(stored.len()) {
            ctx.n("expanded_points", 1);
            ctx.check(case.spec.in_bounds(q) && case.spec.feasible(q), "expanded-point", || format!("{q}; {what}"));
        }
    } else {
        ctx.check(now.len() == stored.len(), "kept-size", || format!("{} candidates, {} stored; {what}", now.len(), stored.len()));
    }
    ctx.check(params_str(&last.params) == params_str(&p), "parameters", || format!("{}; {what}", diff(&params_str(&p), &params_str(&last.params))));
    // Continuation under the new rules
    let mut rules = Rules::of(&case);
    rules.wait = p.wait_cycle;
    rules.tf = p.threshold_factor;
    rules.df = p.distance_factor;
    let mut oracle = LocalOracle::with(&case.spec, &p);
    let cands = candidates(&case, last);
    let st = state_of(&ck);
    let start = ck.current_iteration;
    let stop_now = st.target_hit(&rules);
    let e = model(&mut oracle, &cands, start, if stop_now { 0 } else { p.iterations }, case.batch_eff(), st, &rules);
    if e.error.is_some() {
        ctx.check(!complete, "error-expected", || format!("{}; {what}", run.out.short()));
        ctx.discarded += 1;
        return;
    }
    if !complete {
        ctx.check(false, "unexpected-error", || format!("{}; {what}", run.out.short()));
        return;
    }
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    let f = &e.final_state;
    ctx.check(last.current_iteration == e.completed, "iterations", || format!("{} completed, expected {}; {what}", last.current_iteration, e.completed));
    ctx.check(same(last.merit_threshold, f.thr), "threshold", || format!("{} expected {}; {what}", last.merit_threshold, f.thr));
    ctx.check(last.unchanged_cycles == f.unch, "unchanged-cycles", || format!("{} expected {}; {what}", last.unchanged_cycles, f.unch));
    ctx.check(sols_bits(&last.distance_filter_solutions) == sols_bits(&f.hist), "history", || format!("{} results, expected {}; {what}", last.distance_filter_solutions.len(), f.hist.len()));
    let want = if f.set.is_empty() { Outcome::Err("NoFeasibleSolution".into()) } else { Outcome::Ok(sols_bits(&f.set)) };
    ctx.check(run.out == want, "result", || format!("{} expected {}; {what}", run.out.short(), want.short()));
    check_resumed_work(ctx, "modified", &run.evals, &e, &cands, start, &what);
    ctx.n("searches_after_resume", e.searched.len() as u64);
    ctx.n("candidates_after_resume", (e.completed - start) as u64);
    ctx.sample(|| what.clone());
}

//! Monitors of the search itself: C01 to C09.
use crate::case::*;
use globalsearch::checkpoint::read_checkpoint_file;
use std::panic::{AssertUnwindSafe, catch_unwind};
use crate::ctx::Ctx;
use crate::model::*;
use crate::prob::*;
use crate::util::*;
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::observers::Observer;
use globalsearch::types::*;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::ScatterSearch;
use ndarray::{Array1, Array2};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn exec_traced(ctx: &Ctx, case: &Case, obs: Option<Observer>) -> Run {
    let t = Tmp::new(&ctx.scratch);
    exec(case, Some(&Ckpts::trace(&t.0)), obs)
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b
}

/// The candidates of Stage 2 in processing order with their objectives.
pub fn candidates(case: &Case, ck: &OQNLPCheckpoint) -> Vec<(Array1<f64>, f64)> {
    ck.reference_set
        .iter()
        .map(|p| (p.clone(), case.spec.value(p).unwrap_or(f64::NAN)))
        .collect()
}

/// Segment the post-Stage-1 evaluation log of a sequential run into local searches and return the
/// candidates they started from. `None`: the log is not a concatenation of local searches from
/// candidates in order.
pub fn observed_searches(
    log: &[Eval],
    oracle: &mut LocalOracle,
    best: &Array1<f64>,
    cands: &[(Array1<f64>, f64)],
) -> Option<Vec<usize>> {
    let pts = ev_points(log);
    let first = oracle.solve(best);
    let fp = ev_points(&first.evals);
    if !pts.starts_with(&fp) {
        return None;
    }
    let mut pos = fp.len();
    let mut next = 0;
    let mut out = vec![];
    while pos < pts.len() {
        let mut hit = None;
        for k in next..cands.len() {
            if bits(&cands[k].0) == pts[pos] {
                let e = ev_points(&oracle.solve(&cands[k].0).evals);
                if pts[pos..].starts_with(&e) && !e.is_empty() {
                    hit = Some((k, e.len()));
                    break;
                }
            }
        }
        let (k, n) = hit?;
        out.push(k);
        next = k + 1;
        pos += n;
    }
    Some(out)
}

// ---------------------------------------------------------------------------------------- C01
fn l1_value(spec: &Spec, p: &Array1<f64>, l1: f64) -> f64 {
    spec.pure(p) + l1 * p.iter().map(|v| v.abs()).sum::<f64>()
}

pub fn c01(seed: u64, ctx: &mut Ctx) {
    // Many local solves alone for each full run
    for k in 0..4 {
        let before = ctx.viols.len();
        c01_case(mix(seed, 1000 + k), ctx, true);
        if RUNAWAY.swap(false, std::sync::atomic::Ordering::SeqCst) {
            ctx.viols.truncate(before);
            ctx.n("runaway_solves", 1);
        }
    }
    c01_case(seed, ctx, false);
}

fn c01_case(seed: u64, ctx: &mut Ctx, solves_only: bool) {
    let mut r = Rng::new(mix(seed, 1));
    let mut pf = Profile { p_fault: 0.2, max_pop: 16, p_big_pop: 0.03, ..Default::default() };
    if solves_only && r.chance(0.5) {
        pf.kinds = vec![Kind::Rastrigin, Kind::EqualMinima, Kind::AbsSum, Kind::Styblinski];
        pf.p_fault = 0.05;
    }
    let mut case = Case::generate(seed, &pf);
    if solves_only && matches!(case.spec.kind, Kind::Rastrigin | Kind::EqualMinima) {
        case.spec.freq = r.fr(0.5, 12.0);
    }
    if matches!(case.spec.fault, Fault::ErrRegion(..)) {
        case.spec.fault = Fault::None;
    }
    let mut l1 = None;
    if let LocalSolverConfig::LBFGS { l1_coefficient, .. } = &mut case.params.local_solver_config {
        if r.chance(0.25) {
            let c = r.pick(&[0.05, 0.5, 2.0]);
            *l1_coefficient = Some(c);
            l1 = Some(c);
            case.spec.fault = Fault::None;
        }
    }
    ctx.classes.insert(case.class());
    let spec = case.spec.clone();
    let cobyla = case.sol == Sol::Cobyla;
    // COBYLA hands back its point recomputed from a base and an offset, so the value may belong to
    // an evaluated point some units in the last place away
    let log: Mutex<Vec<Eval>> = Default::default();
    let near = |s: &Array1<f64>, v: f64| -> bool {
        cobyla
            && log.lock().unwrap().iter().any(|e| {
                e.value.is_ok_and(|t| same(t, v))
                    && e.point.iter().zip(s.iter()).zip(&spec.bounds).all(|((a, b), (l, h))| {
                        (a - b).abs() <= 1e-12 * (1e-300 + a.abs().max(b.abs()).max(l.abs()).max(h.abs()))
                    })
            })
    };
    let ok = |s: &Array1<f64>, v: f64| -> bool {
        (match l1 {
            // +inf stands for "no number was found here": the descent methods of the dependency do not
            // evaluate their start and keep it with +inf when no iterate is a number
            None if v == f64::INFINITY && case.spec.fault != Fault::None && matches!(case.sol, Sol::Steepest | Sol::Newton) => true,
            None => spec.value(s).map_or(v == f64::INFINITY, |t| same(t, v) || (t.is_nan() && v == f64::INFINITY)),
            Some(c) => {
                let t = l1_value(&spec, s, c);
                (t - v).abs() <= 1e-9 * (1.0 + t.abs().max(spec.pure(s).abs()))
            }
        }) || near(s, v)
    };
    // Direct local solves from random starts, inside and outside the box
    let direct = Prob::new(case.spec.clone());
    let ls = LocalSolver::new(
        direct.clone(),
        case.params.local_solver_type.clone(),
        case.params.local_solver_config.clone(),
    );
    for i in 0..if solves_only { 8 } else { 3 } {
        let mut x = rand_point(&mut r, &case.spec.bounds);
        if i % 3 == 2 && case.sol != Sol::Cobyla {
            x = x * 1.3;
        }
        let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ls.solve_with_tracking(x.clone(), i % 2 == 0)));
        if RUNAWAY.load(std::sync::atomic::Ordering::SeqCst) {
            return;
        }
        if let Ok(Ok((s, _))) = s {
            ctx.n("local_solve_values", 1);
            *log.lock().unwrap() = direct.take_log().evals;
            let best = log.lock().unwrap().last().is_some_and(|e| e.value.is_ok_and(|v| v > s.objective));
            ctx.n("local_solves_ending_above_their_best", best as u64);
            let m = ok(&s.point, s.objective);
            ctx.check(m, "local-solve-value", || {
                format!("{:?} from {x} gives {} at {}, objective is {:?}; {} {}", case.sol, s.objective, s.point, case.spec.value(&s.point), case.brief(), cfg_str(&case.params.local_solver_config))
            });
        }
    }
    if solves_only {
        return;
    }
    // Full runs, with every value an observer shows recorded
    let seen: Arc<Mutex<Vec<(u8, f64, Option<Array1<f64>>)>>> = Default::default();
    let s2 = seen.clone();
    let obs = Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback(move |o| {
        let mut v = s2.lock().unwrap();
        if let Some(s) = o.stage1() {
            v.push((1, s.best_objective(), s.best_point().cloned()));
        }
        if let Some(s) = o.stage2() {
            v.push((2, s.best_objective(), s.best_point().cloned()));
        }
    });
    let run = exec_traced(ctx, &case, Some(obs));
    *log.lock().unwrap() = run.evals.clone();
    let mut n = 0u64;
    if let Some(set) = &run.set {
        for s in set.solutions() {
            n += 1;
            let m = ok(&s.point, s.objective);
            ctx.check(m, "returned-value", || {
                format!("returned {} at {} but objective is {:?}; {}", s.objective, s.point, case.spec.value(&s.point), case.brief())
            });
        }
    }
    for ck in &run.cks {
        let it = ck.solution_set.iter().flat_map(|s| s.solutions.iter()).chain(ck.distance_filter_solutions.iter());
        let bad: Vec<String> = it
            .inspect(|_| n += 1)
            .filter(|s| !ok(&s.point, s.objective))
            .map(|s| format!("{} at {}", s.objective, s.point))
            .collect();
        ctx.check(bad.is_empty(), "checkpoint-value", || format!("checkpoint {}: {:?}; {}", ck.current_iteration, bad, case.brief()));
    }
    for (st, v, p) in seen.lock().unwrap().iter() {
        if let Some(p) = p {
            n += 1;
            // Before the local search, Stage 1 shows plain objective values
            let m = ok(p, *v) || (*st == 1 && l1.is_some() && case.spec.value(p).is_ok_and(|t| same(t, *v)));
            ctx.check(m, "observer-value", || format!("stage {st} shows {v} at {p}, objective is {:?}; {}", case.spec.value(p), case.brief()));
        }
    }
    ctx.n("values_checked", n);
    ctx.n(&format!("solver_{:?}", case.sol), 1);
    if run.set.is_none() {
        ctx.discarded += 1;
    }
    ctx.sample(|| format!("{} -> {} values, {}", case.brief(), n, run.out.short()));
}

// ---------------------------------------------------------------------------------------- C02
pub fn multi_profile() -> Profile {
    Profile {
        kinds: vec![
            Kind::TwinWell,
            Kind::EqualMinima,
            Kind::SixHump,
            Kind::Rastrigin,
            Kind::DoubleWell,
            Kind::Constant,
            Kind::Step,
            Kind::Styblinski,
            Kind::AbsSum,
        ],
        max_pop: 30,
        ..Default::default()
    }
}

/// Relax the filters so that many local searches take place.
pub fn many_searches(case: &mut Case, r: &mut Rng) {
    if r.chance(0.15) {
        return late_improvements(case, r);
    }
    if r.chance(0.6) {
        case.params.wait_cycle = r.pick(&[0, 1, 1, 2]);
        case.params.threshold_factor = r.pick(&[1.0, 5.0, 100.0]);
        let w = case.spec.bounds.iter().map(|(l, h)| h - l).fold(0.0, f64::max);
        case.params.distance_factor = r.pick(&[0.0, 1e-6, 1e-3, 0.01]) * w;
    }
}

/// Deep narrow basins, so that the first local search seldom finds the best one and later searches
/// improve on it.
pub fn late_improvements(case: &mut Case, r: &mut Rng) {
    case.spec.kind = r.pick(&[Kind::Rastrigin, Kind::Rastrigin, Kind::Styblinski]);
    case.spec.freq = r.fr(5.0, 14.0);
    if case.spec.fault != Fault::None && r.chance(0.7) {
        case.spec.fault = Fault::None;
    }
    case.spec.newton_guard = false;
    case.sol = r.pick(&[Sol::NelderMead, Sol::Cobyla, Sol::NelderMead]);
    case.params.local_solver_type = case.sol.ty();
    case.params.local_solver_config = gen_cfg(r, case.sol, case.spec.dim());
    let w = case.spec.bounds.iter().map(|(l, h)| h - l).fold(0.0, f64::max);
    match &mut case.params.local_solver_config {
        LocalSolverConfig::NelderMead { simplex_delta, max_iter, .. } => {
            *simplex_delta = 0.02 * w;
            *max_iter = r.pick(&[10, 30, 60]);
        }
        LocalSolverConfig::COBYLA { initial_step_size, .. } => *initial_step_size = 0.02 * w,
        _ => {}
    }
    case.params.iterations = case.params.population_size;
    case.params.wait_cycle = r.pick(&[0, 1, 1, 2]);
    case.params.threshold_factor = r.pick(&[1.0, 5.0, 100.0]);
    case.params.distance_factor = r.pick(&[0.0, 1e-3, 0.05, 0.1]) * w;
}

/// A target close to what the run can reach: ask a target-free run for its trajectory.
pub fn aim_target(ctx: &Ctx, case: &mut Case, r: &mut Rng) {
    let mut free = case.clone();
    free.target = None;
    free.max_time = None;
    let f = exec_traced(ctx, &free, None);
    let Some(ck) = f.cks.last() else { return };
    // Results that improve on everything before them come first
    let mut best = f64::INFINITY;
    let mut steps = vec![];
    for (k, s) in ck.distance_filter_solutions.iter().enumerate() {
        if s.objective < best {
            best = s.objective;
            if k > 0 {
                steps.push(s.objective);
            }
        }
    }
    let v = if !steps.is_empty() && r.chance(0.8) {
        r.pick(&steps)
    } else if !ck.distance_filter_solutions.is_empty() {
        r.pick(&ck.distance_filter_solutions).objective
    } else {
        return;
    };
    if v.is_finite() {
        case.target = Some(match r.below(4) {
            0 | 1 => v,
            2 => f64::from_bits(if v > 0.0 { v.to_bits() - 1 } else { v.to_bits() + 1 }),
            _ => v + 1e-9 * v.abs(),
        });
    }
}

pub fn c02(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 2));
    let mut case = Case::generate(seed, &Profile { p_fault: 0.1, p_target: 0.1, ..multi_profile() });
    many_searches(&mut case, &mut r);
    ctx.classes.insert(case.class());
    if r.chance(0.25) {
        rerun(&case, ctx);
    }
    let run = exec_traced(ctx, &case, None);
    let rules = Rules::of(&case);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    // Sequential runs: the local searches that really happened, from the evaluation log
    if let (Some(ck), true) = (run.cks.last(), !case.parallel && case.spec.constraints.is_empty()) {
        if let (Ok(s1), _) = run_stage1(&case, false, 1) {
            if run.evals.len() >= s1.evals.len() {
                let mut oracle = LocalOracle::new(&case);
                let c = candidates(&case, ck);
                if let Some(obs) = observed_searches(&run.evals[s1.evals.len()..], &mut oracle, &s1.best, &c) {
                    let mut results: Vec<LocalSolution> = oracle.solve(&s1.best).res.into_iter().collect();
                    results.extend(obs.iter().filter_map(|k| oracle.solve(&c[*k].0).res.ok()));
                    let want = fold_history(&results, &rules);
                    let got = run.set.as_ref().map(set_bits).unwrap_or_default();
                    ctx.n("searches_from_log", results.len() as u64);
                    if matches!(run.out, Outcome::Ok(_)) || want.set.is_empty() {
                        ctx.check(got == sols_bits(&want.set), "set-vs-searches", || {
                            format!("admitting the {} observed local searches gives {} members, run returned {}; {}", results.len(), want.set.len(), got.len(), case.brief())
                        });
                    }
                } else {
                    ctx.n("log_not_segmentable", 1);
                }
            }
        }
    }
    for ck in &run.cks {
        let want = fold_history(&ck.distance_filter_solutions, &rules);
        let got = ck.solution_set.as_ref().map(|s| sols_bits(s.solutions.as_slice().unwrap())).unwrap_or_default();
        ctx.check(got == sols_bits(&want.set), "set-vs-history", || {
            format!(
                "checkpoint {}: admitting {} results gives {:?}, set is {:?}; {}",
                ck.current_iteration,
                ck.distance_filter_solutions.len(),
                want.set.iter().map(|s| s.objective).collect::<Vec<_>>(),
                ck.solution_set.as_ref().map(|s| s.solutions.iter().map(|s| s.objective).collect::<Vec<_>>()),
                case.brief()
            )
        });
        ctx.n("history_results", ck.distance_filter_solutions.len() as u64);
    }
    // Histories grow by appending only, so no result is lost or rewritten
    for w in run.cks.windows(2) {
        let a = sols_bits(&w[0].distance_filter_solutions);
        let b = sols_bits(&w[1].distance_filter_solutions);
        ctx.check(b.starts_with(&a), "history-append", || format!("{} -> {}; {}", a.len(), b.len(), case.brief()));
    }
    if let (Some(set), Some(ck)) = (&run.set, run.cks.last()) {
        let want = ck.solution_set.as_ref().map(|s| sols_bits(s.solutions.as_slice().unwrap())).unwrap_or_default();
        ctx.check(set_bits(set) == want, "returned-vs-final", || case.brief());
    }
    if let Some(set) = &run.set {
        let v: Vec<&LocalSolution> = set.solutions().collect();
        let f = v[0].objective;
        for (i, s) in v.iter().enumerate() {
            ctx.check(!s.objective.is_nan() && (same(s.objective, f) || (s.objective - f).abs() <= rules.tol(s.objective, f)), "member-tolerance", || {
                format!("member {i} {} first {f}; {}", s.objective, case.brief())
            });
            for t in &v[..i] {
                ctx.check(d2(&s.point, &t.point) >= rules.df * rules.df, "member-distance", || {
                    format!("{} and {} closer than {}; {}", s.point, t.point, rules.df, case.brief())
                });
            }
        }
        ctx.n("members", v.len() as u64);
        ctx.d("set_size", v.len() as u64);
        if v.len() > 1 {
            ctx.n("runs_with_several_members", 1);
        }
        ctx.sample(|| format!("{} -> {} members", case.brief(), v.len()));
    } else {
        ctx.discarded += 1;
    }
}

/// One optimizer run several times: each run adds its local searches to what is known, so the set
/// stays what the searches of all runs justify (C02) and the best never gets worse (C03).
fn rerun(case: &Case, ctx: &mut Ctx) {
    if case.max_time.is_some() {
        return;
    }
    let t = Tmp::new(&ctx.scratch);
    let ck = Ckpts::trace(&t.0);
    let rules = Rules::of(case);
    let prob = case.problem();
    let steps = on_pool(case.threads, || {
        catch_unwind(AssertUnwindSafe(|| {
            let mut o = build(case, prob.clone(), Some(&ck), None).ok()?;
            let mut v = vec![];
            for _ in 0..3 {
                let set = o.run().ok()?;
                let last = list_ckpts(&ck.dir)
                    .iter()
                    .filter_map(|f| read_checkpoint_file(&ck.dir.join(f)).ok())
                    .max_by_key(|c| c.current_iteration);
                v.push((set, last));
            }
            Some(v)
        }))
    });
    let Ok(Some(v)) = steps else {
        return;
    };
    if case.target.is_some_and(|t| v.iter().any(|s| s.0.best_solution().is_some_and(|b| b.objective <= t))) {
        // (a run that ends in Stage 1 writes no checkpoint, one that ends early leaves later ones)
        for w in v.windows(2) {
            let (a, b) = (w[0].0.best_solution().map(|s| s.objective), w[1].0.best_solution().map(|s| s.objective));
            if let (Some(a), Some(b)) = (a, b) {
                ctx.check(b <= a + rules.tol(a, b) * (1.0 + 4.0 * rules.rel), "rerun-worse", || format!("{a:e} then {b:e}; {}", case.brief()));
            }
        }
        return;
    }
    for (set, last) in &v {
        let m: Vec<&LocalSolution> = set.solutions().collect();
        for (i, s) in m.iter().enumerate() {
            ctx.check(m[..i].iter().all(|t| d2(&s.point, &t.point) >= rules.df * rules.df), "rerun-distance", || format!("{}; {}", s.point, case.brief()));
            ctx.check(same(s.objective, m[0].objective) || (s.objective - m[0].objective).abs() <= rules.tol(s.objective, m[0].objective), "rerun-tolerance", || format!("{} {}; {}", s.objective, m[0].objective, case.brief()));
        }
        if let Some(c) = last {
            let want = fold_history(&c.distance_filter_solutions, &rules);
            ctx.check(set_bits(set) == sols_bits(&want.set), "rerun-set", || {
                format!("admitting {} results of the optimizer's runs gives {} members, it returned {}; {}", c.distance_filter_solutions.len(), want.set.len(), set.len(), case.brief())
            });
        }
    }
    for w in v.windows(2) {
        let best = |s: &SolutionSet| s.solutions().map(|s| s.objective).fold(f64::INFINITY, f64::min);
        let (a, b) = (best(&w[0].0), best(&w[1].0));
        ctx.check(b <= a + rules.tol(a, b) * (1.0 + 4.0 * rules.rel), "rerun-worse", || format!("{a:e} then {b:e}; {}", case.brief()));
        if let (Some(x), Some(y)) = (&w[0].1, &w[1].1) {
            let (x, y) = (sols_bits(&x.distance_filter_solutions), sols_bits(&y.distance_filter_solutions));
            ctx.check(y.starts_with(&x), "rerun-history", || format!("{} -> {}; {}", x.len(), y.len(), case.brief()));
        }
    }
    ctx.n("optimizers_run_again", 1);
}

// ---------------------------------------------------------------------------------------- C03
pub fn c03(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 3));
    let pf = Profile { p_target: 0.1, p_custom: 0.5, max_pop: 24, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    many_searches(&mut case, &mut r);
    ctx.classes.insert(case.class());
    if let Some(c) = &mut case.custom {
        // A custom point that beats everything else, sometimes
        if r.chance(0.5) {
            let mut best = rand_point(&mut r, &case.spec.bounds);
            for _ in 0..300 {
                let p = rand_point(&mut r, &case.spec.bounds);
                if case.spec.feasible(&p) && case.spec.pure(&p) < case.spec.pure(&best) {
                    best = p;
                }
            }
            c.push(best);
        }
    }
    if r.chance(0.15) {
        rerun(&case, ctx);
    }
    let run = exec_traced(ctx, &case, None);
    let rules = Rules::of(&case);
    let Some(set) = &run.set else {
        if run.out.is_panic() {
            ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        }
        ctx.discarded += 1;
        return;
    };
    // The run's own best: smallest member
    let best = set.solutions().map(|s| s.objective).fold(f64::INFINITY, f64::min);
    ctx.check(set.best_solution().is_some_and(|b| same(b.objective, best)), "best-is-smallest", || case.brief());
    let slack = |a: f64| rules.tol(a, best) * (1.0 + 4.0 * rules.rel) + 1e-12 * a.abs();
    let mut oracle = LocalOracle::new(&case);
    let (s1, _) = run_stage1(&case, case.parallel, case.threads);
    let Ok(s1) = s1 else { return };
    // Results of every local search of the run
    if let Some(ck) = run.cks.last() {
        for h in &ck.distance_filter_solutions {
            if rules.exclude && !rules.inside(&h.point) {
                continue;
            }
            ctx.n("eligible_results", 1);
            ctx.check(best <= h.objective + slack(h.objective), "worse-than-local-result", || {
                format!("best {best:e} but a local search found {:e}; {}", h.objective, case.brief())
            });
        }
    }
    // Independent of the run's bookkeeping: the result of a search from the best Stage 1 point and
    // all Stage 1 evaluations, as logged by the run itself
    let n1 = s1.evals.len().min(run.evals.len());
    let seen = run.evals[..n1].iter().filter_map(|e| e.value.ok()).fold(f64::INFINITY, f64::min);
    // The corners, the midpoint and feasible custom points were among them
    let mut must: Vec<Array1<f64>> = vec![
        Array1::from_iter(case.spec.bounds.iter().map(|b| b.0)),
        Array1::from_iter(case.spec.bounds.iter().map(|b| b.1)),
        Array1::from_iter(case.spec.bounds.iter().map(|b| (b.0 + b.1) / 2.0)),
    ];
    must.extend(case.custom.iter().flatten().cloned());
    let evaluated: std::collections::HashSet<Vec<u64>> = ev_points(&run.evals[..n1]).into_iter().collect();
    for p in &must {
        if case.spec.feasible(p) {
            ctx.check(evaluated.contains(&bits(p)), "seed-point-not-evaluated", || format!("{p} missing; {}", case.brief()));
        }
    }
    // Premise: the local search from the best Stage 1 evaluation does not worsen its start
    let start = run.evals[..n1]
        .iter()
        .filter_map(|e| e.value.ok().map(|v| (v, &e.point)))
        .min_by(|a, b| a.0.total_cmp(&b.0))
        .map(|(_, p)| p.clone());
    let Some(start) = start else { return };
    let ties: Vec<Array1<f64>> = run.evals[..n1]
        .iter()
        .filter(|e| e.value.is_ok_and(|v| v == seen))
        .map(|e| e.point.clone())
        .collect();
    let premise = ties.iter().all(|s| {
        oracle.solve(s).res.as_ref().is_ok_and(|l| {
            l.objective <= case.spec.pure(s) && (!rules.exclude || rules.inside(&l.point))
        })
    });
    if premise {
        ctx.n("premise_held", 1);
        ctx.n("stage1_points", n1 as u64);
        ctx.check(best <= seen + slack(seen), "worse-than-stage1", || {
            format!("best returned {best:e}, but Stage 1 evaluated {seen:e} at {start}; {}", case.brief())
        });
        ctx.sample(|| format!("{}: best {best:e} <= Stage 1 best {seen:e} over {n1} points", case.brief()));
    } else {
        ctx.n("premise_failed", 1);
    }
}

// ---------------------------------------------------------------------------------------- C04
pub fn c04(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 4));
    let pf = Profile { p_exclude: 0.7, p_target: 0.3, p_big_pop: 0.15, max_pop: 20, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    many_searches(&mut case, &mut r);
    if case.spec.constraints.is_empty() && r.chance(0.3) {
        // Boxes where rounding matters
        if matches!(case.sol, Sol::Newton | Sol::Trust) {
            case.sol = r.pick(&[Sol::NelderMead, Sol::Cobyla]);
            case.params.local_solver_type = case.sol.ty();
            case.params.local_solver_config = gen_cfg(&mut r, case.sol, case.spec.dim());
            case.spec.newton_guard = false;
        }
        for b in case.spec.bounds.iter_mut() {
            let c: f64 = r.pick(&[1e15, -1e15, 1e6, 0.1, -3.3e-5, 1e-300]);
            let w = c.abs() * r.pick(&[4e-15, 1e-9, 0.3, 3.0]) + f64::MIN_POSITIVE * 1e3;
            *b = (c, c + w.max(c.abs() * f64::EPSILON * 4.0));
        }
        if let Some(c) = &mut case.custom {
            for p in c.iter_mut() {
                *p = rand_point(&mut r, &case.spec.bounds);
            }
        }
        ctx.n("tight_boxes", 1);
    }
    if case.exclude && r.chance(0.25) {
        aim_target(ctx, &mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    let t = Tmp::new(&ctx.scratch);
    let cks = Ckpts::trace(&t.0);
    let run = exec(&case, Some(&cks), None);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    let rules = Rules::of(&case);
    let (s1, ev1) = run_stage1(&case, case.parallel, case.threads);
    // The same Stage 1 inside the run: everything before the first local search
    let n1 = ev1.len().min(run.evals.len());
    for e in ev1.iter().chain(run.evals[..n1].iter()) {
        ctx.check(case.spec.in_bounds(&e.point), "stage1-point", || format!("{} outside {:?}; {}", e.point, case.spec.bounds, case.brief()));
    }
    ctx.n("stage1_points", ev1.len() as u64 + n1 as u64);
    for ck in &run.cks {
        for p in &ck.reference_set {
            ctx.check(case.spec.in_bounds(p), "reference-set", || format!("{p} outside {:?}; {}", case.spec.bounds, case.brief()));
        }
    }
    let mut oracle = LocalOracle::new(&case);
    if let (Ok(s1), Some(ck)) = (&s1, run.cks.last()) {
        let c = candidates(&case, ck);
        ctx.check(case.spec.in_bounds(&s1.best), "stage1-start", || format!("{}", s1.best));
        // Starts of the local searches, from the log
        if !case.parallel {
            if let Some(obs) = observed_searches(&run.evals[n1..], &mut oracle, &s1.best, &c) {
                for k in obs {
                    ctx.n("starts", 1);
                    ctx.check(case.spec.in_bounds(&c[k].0), "start", || format!("{}", c[k].0));
                }
            } else {
                ctx.n("log_not_segmentable", 1);
            }
        }
        // In bounds results are admitted, out of bounds results neither kept nor counted as target
        if case.exclude && (run.set.is_some() || run.out == Outcome::Err("NoFeasibleSolution".into())) {
            let st = fold_history(&ck.distance_filter_solutions, &rules);
            let got = run.set.as_ref().map(set_bits).unwrap_or_default();
            ctx.check(got == sols_bits(&st.set), "exclusion-set", || {
                format!("returned {} solutions, in-bounds results justify {}; {}", got.len(), st.set.len(), case.brief())
            });
            let out = ck.distance_filter_solutions.iter().filter(|h| !rules.inside(&h.point)).count();
            ctx.n("out_of_bounds_results", out as u64);
            if let Some(tg) = case.target {
                let hit_in = ck.distance_filter_solutions.iter().any(|h| rules.inside(&h.point) && h.objective <= tg);
                let end = case.params.iterations.min(c.len());
                if !hit_in {
                    ctx.n("target_only_out_of_bounds", ck.distance_filter_solutions.iter().any(|h| h.objective <= tg) as u64);
                    ctx.check(ck.current_iteration == end, "out-of-bounds-target-stopped-run", || {
                        format!("stopped after {} of {end} without an in-bounds result at target {tg}; {}", ck.current_iteration, case.brief())
                    });
                }
            }
        }
    } else if let (Ok(s1), true, Some(set)) = (&s1, case.exclude, &run.set) {
        // Stopped in Stage 1 by the target
        let l = oracle.solve(&s1.best);
        ctx.check(l.res.as_ref().is_ok_and(|l| rules.inside(&l.point) && set.len() == 1), "stage1-target-out-of-bounds", || case.brief());
    }
    if let Some(set) = &run.set {
        for s in set.solutions() {
            ctx.n("returned", 1);
            if case.exclude || case.sol == Sol::Cobyla {
                ctx.check(case.spec.in_bounds(&s.point), "returned-outside", || {
                    format!("{} outside {:?}; {}", s.point, case.spec.bounds, case.brief())
                });
            }
        }
    }
    if case.sol == Sol::Cobyla {
        for _ in 0..3 {
            let x = rand_point(&mut r, &case.spec.bounds);
            if let Ok(s) = oracle.solve(&x).res {
                ctx.n("cobyla_results", 1);
                ctx.check(case.spec.in_bounds(&s.point), "cobyla-outside", || format!("{} outside {:?}", s.point, case.spec.bounds));
            }
        }
    }
    // Enlarged population after a resume
    if !run.cks.is_empty() && run.cks[0].reference_set.len() >= 4 && r.chance(0.6) {
        let mut big = case.clone();
        big.params.population_size = case.params.population_size + r.range(1, 12);
        big.params.iterations = big.params.population_size;
        let prob = big.problem();
        let res = on_pool(case.threads, || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut o = build(&case, prob.clone(), Some(&cks), None).ok()?;
                o.resume_with_modified_params(big.params.clone()).ok()?;
                o.run().ok()
            }))
        });
        if res.is_ok() {
            let after = collect(prob, Outcome::Err(String::new()), None, Some(&cks), std::time::Instant::now());
            for ck in &after.cks {
                for p in &ck.reference_set {
                    ctx.n("expanded_points", 1);
                    ctx.check(case.spec.in_bounds(p), "expanded-reference-set", || format!("{p} outside {:?}; {}", case.spec.bounds, case.brief()));
                }
            }
        }
    }
    ctx.sample(|| format!("{} -> {}", case.brief(), run.out.short()));
}

// ---------------------------------------------------------------------------------------- C05
/// Points at or just across the boundary of the feasible region: bisection between a feasible and an
/// infeasible point of the box, stopped at a random width.
fn edge_points(case: &Case, r: &mut Rng) -> Vec<Array1<f64>> {
    let mut v = Vec::new();
    for _ in 0..6 {
        let mut a = rand_point(r, &case.spec.bounds);
        let mut b = rand_point(r, &case.spec.bounds);
        let (fa, fb) = (case.spec.feasible(&a), case.spec.feasible(&b));
        if fa == fb {
            continue;
        }
        if fb {
            std::mem::swap(&mut a, &mut b);
        }
        for _ in 0..r.range(15, 60) {
            let m = (&a + &b) * 0.5;
            if m == a || m == b {
                break;
            }
            if case.spec.feasible(&m) {
                a = m;
            } else {
                b = m;
            }
        }
        v.push(a);
        v.push(b);
    }
    v
}

pub fn c05(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 5));
    let pf = Profile {
        p_constraints: 1.0,
        p_custom: 0.6,
        p_big_pop: 0.15,
        max_pop: 24,
        sols: vec![Sol::Cobyla, Sol::Cobyla, Sol::NelderMead, Sol::Lbfgs, Sol::Steepest],
        ..Default::default()
    };
    let mut case = Case::generate(seed, &pf);
    if r.chance(0.06) {
        case.spec.constraints.push(r.pick(&[10, 11]));
    }
    many_searches(&mut case, &mut r);
    // Custom points on both sides of the boundary of the feasible region, at distances down to rounding
    if case.custom.is_some() || r.chance(0.5) {
        let mut extra = edge_points(&case, &mut r);
        ctx.n("edge_points", extra.len() as u64);
        case.custom.get_or_insert_with(Vec::new).append(&mut extra);
    }
    ctx.classes.insert(case.class());
    for par in [false, true] {
        let (s1, ev) = run_stage1(&case, par, case.threads);
        for e in &ev {
            ctx.check(case.spec.feasible(&e.point), "stage1-infeasible-evaluation", || format!("{} par={par}; {}", e.point, case.brief()));
        }
        ctx.n("stage1_points", ev.len() as u64);
        match s1 {
            Ok(s) => {
                let seen: std::collections::HashSet<_> = ev_points(&ev).into_iter().collect();
                let mut must: Vec<Array1<f64>> = vec![
                    Array1::from_iter(case.spec.bounds.iter().map(|b| b.0)),
                    Array1::from_iter(case.spec.bounds.iter().map(|b| b.1)),
                    Array1::from_iter(case.spec.bounds.iter().map(|b| (b.0 + b.1) / 2.0)),
                ];
                must.extend(case.custom.iter().flatten().cloned());
                let (mut feas, mut infeas) = (0, 0);
                for p in &must {
                    if case.spec.feasible(p) {
                        feas += 1;
                        ctx.check(seen.contains(&bits(p)), "feasible-point-dropped", || format!("{p} par={par}; {}", case.brief()));
                    } else {
                        infeas += 1;
                        ctx.check(!seen.contains(&bits(p)), "infeasible-point-used", || format!("{p} par={par}; {}", case.brief()));
                    }
                }
                ctx.n("feasible_seeds", feas);
                ctx.n("infeasible_seeds", infeas);
                for (p, _) in &s.refset {
                    ctx.check(case.spec.feasible(p), "reference-set-infeasible", || format!("{p} par={par}; {}", case.brief()));
                }
                ctx.check(s.refset.len() >= case.params.population_size, "reference-set-short", || {
                    format!("{} of {} par={par}; {}", s.refset.len(), case.params.population_size, case.brief())
                });
            }
            Err(e) => {
                ctx.n("stage1_errors", 1);
                ctx.check(e.contains("NoFeasibleCandidates"), "stage1-error-kind", || format!("{e}; {}", case.brief()));
                ctx.check(ev.is_empty(), "evaluated-before-error", || case.brief());
                // There really are few feasible points: sample the box ourselves
                let mut q = Rng::new(mix(seed, 55));
                let hit = (0..400).filter(|_| case.spec.feasible(&rand_point(&mut q, &case.spec.bounds))).count();
                ctx.check(hit < 200, "gave-up-on-feasible-box", || format!("{hit}/400 random points are feasible; {}", case.brief()));
            }
        }
    }
    let t = Tmp::new(&ctx.scratch);
    let cks = Ckpts::trace(&t.0);
    let run = exec(&case, Some(&cks), None);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    let (s1, ev1) = run_stage1(&case, case.parallel, case.threads);
    let n1 = ev1.len().min(run.evals.len());
    for e in &run.evals[..n1] {
        ctx.check(case.spec.feasible(&e.point), "run-stage1-infeasible", || format!("{}; {}", e.point, case.brief()));
    }
    for ck in &run.cks {
        for p in &ck.reference_set {
            ctx.check(case.spec.feasible(p), "checkpoint-reference-infeasible", || format!("{p}; {}", case.brief()));
        }
    }
    if s1.is_err() {
        ctx.check(matches!(run.out, Outcome::Err(_)), "no-error-without-feasible-points", || format!("{}; {}", run.out.short(), case.brief()));
    }
    // Population growth keeps to the feasible region
    if !run.cks.is_empty() && run.cks[0].reference_set.len() >= 4 && r.chance(0.5) {
        let mut big = case.params.clone();
        big.population_size += r.range(1, 10);
        big.iterations = big.population_size;
        let prob = case.problem();
        let res = on_pool(case.threads, || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut o = build(&case, prob.clone(), Some(&cks), None).ok()?;
                o.resume_with_modified_params(big.clone()).ok()?;
                o.run().ok()
            }))
        });
        if res.is_ok() {
            let after = collect(prob, Outcome::Err(String::new()), None, Some(&cks), std::time::Instant::now());
            for ck in &after.cks {
                for p in &ck.reference_set {
                    ctx.n("expanded_points", 1);
                    ctx.check(case.spec.feasible(p), "expanded-infeasible", || format!("{p}; {}", case.brief()));
                }
            }
        }
    }
    // COBYLA: generous budget on a smooth problem; the result satisfies every constraint
    let mut spec = case.spec.clone();
    spec.kind = Kind::Sphere;
    spec.scale = 1.0;
    spec.fault = Fault::None;
    let n = r.range(1, 3);
    spec.constraints = (0..n).map(|_| r.pick(&[0usize, 1, 6, 7, 3])).collect();
    spec.shift = (0..spec.dim()).map(|_| r.fr(-2.5, 2.5)).collect();
    let start = (0..200).map(|_| rand_point(&mut r, &spec.bounds)).find(|p| spec.feasible(p));
    if let Some(x) = start {
        let cfg = LocalSolverConfig::COBYLA {
            max_iter: 3000,
            initial_step_size: 0.5,
            ftol_rel: 0.0,
            ftol_abs: 0.0,
            xtol_rel: 1e-7,
            xtol_abs: vec![1e-7; spec.dim()],
        };
        // What the solver itself, given the objective, the bounds and the constraints, makes of this start
        let own = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::props_d::direct(Prob::new(spec.clone()), &cfg, &x)));
        let prob = Prob::new(spec.clone());
        let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            LocalSolver::new(prob.clone(), LocalSolverType::COBYLA, cfg).solve(x.clone())
        }));
        if let (Ok(Ok(s)), Ok(Ok((own, _)))) = (s, own) {
            let nev = prob.take_log().evals.len();
            if nev < 2900 {
                let p = s.point.to_vec();
                let worst = spec.constraints.iter().map(|c| (CONSTRAINTS[*c].1)(&p, &mut ())).fold(f64::INFINITY, f64::min);
                ctx.n("cobyla_converged", 1);
                if worst < 1e-3 {
                    ctx.n("cobyla_active_constraint", 1);
                }
                let o = own.to_vec();
                let own_worst = spec.constraints.iter().map(|c| (CONSTRAINTS[*c].1)(&o, &mut ())).fold(f64::INFINITY, f64::min);
                if own_worst < -1e-4 {
                    // The dependency converges to an infeasible point from some starts (DESIGN.md)
                    ctx.n("cobyla_itself_infeasible", 1);
                }
                ctx.check(worst >= -1e-3 || own_worst < -1e-4, "cobyla-violates-constraint", || {
                    format!("constraint value {worst} (the solver alone: {own_worst}) at {} from feasible {x}, constraints {:?}", s.point, spec.constraints)
                });
            }
        }
    }
    ctx.sample(|| format!("{} -> {}", case.brief(), run.out.short()));
}

// ---------------------------------------------------------------------------------------- C06
/// Multiset of evaluations.
pub fn bag(v: &[Eval]) -> HashMap<(Vec<u64>, Option<u64>), usize> {
    let mut m = HashMap::new();
    for e in v {
        *m.entry(ev_key(e)).or_insert(0) += 1;
    }
    m
}

/// Compare a traced run with the Stage 2 model. Returns the expectation when there was one.
pub fn against_model(ctx: &mut Ctx, case: &Case, run: &Run, what: &str) -> Option<Expect> {
    let rules = Rules::of(case);
    let mut oracle = LocalOracle::new(case);
    let (s1, _) = run_stage1(case, case.parallel, case.threads);
    let s1 = match s1 {
        Ok(s) => s,
        Err(_) => {
            ctx.check(matches!(run.out, Outcome::Err(_)), &format!("{what}-stage1-error"), || format!("{}; {}", run.out.short(), case.brief()));
            return None;
        }
    };
    let (st, l0) = after_stage1(&mut oracle, &s1.best, &rules);
    let st = match st {
        Ok(s) => s,
        Err(_) => {
            ctx.check(matches!(run.out, Outcome::Err(_)), &format!("{what}-stage1-local-error"), || format!("{}; {}", run.out.short(), case.brief()));
            return None;
        }
    };
    if st.target_hit(&rules) {
        ctx.n("stage1_target", 1);
        ctx.check(run.out == Outcome::Ok(sols_bits(&st.set)), &format!("{what}-stage1-target"), || format!("{}; {}", run.out.short(), case.brief()));
        let mut want = s1.evals.clone();
        want.extend(l0.evals.clone());
        ctx.check(bag(&want) == bag(&run.evals), &format!("{what}-work-after-target"), || {
            format!("{} evaluations instead of {}; {}", run.evals.len(), want.len(), case.brief())
        });
        return None;
    }
    let Some(last) = run.cks.last() else {
        if !matches!(run.out, Outcome::Err(_)) {
            ctx.check(false, &format!("{what}-no-trace"), || format!("{}; {}", run.out.short(), case.brief()));
        }
        return None;
    };
    let cands = candidates(case, last);
    // The candidates are the Stage 1 population, each once
    let a = sorted(s1.refset.iter().map(|(p, _)| bits(p)).collect::<Vec<_>>());
    let b = sorted(cands.iter().map(|(p, _)| bits(p)).collect::<Vec<_>>());
    ctx.check(a == b, &format!("{what}-candidates"), || format!("Stage 2 candidates are not the Stage 1 population; {}", case.brief()));
    for ck in &run.cks {
        let c = ck.reference_set.iter().map(bits).collect::<Vec<_>>();
        let d = last.reference_set.iter().map(bits).collect::<Vec<_>>();
        ctx.check(c == d, &format!("{what}-candidates-changed"), || case.brief());
    }
    let e = model(&mut oracle, &cands, 0, case.params.iterations, case.batch_eff(), st, &rules);
    // Trace of the public state
    for ck in &run.cks {
        let Some(s) = e.snaps.iter().find(|s| s.completed == ck.current_iteration) else {
            ctx.check(false, &format!("{what}-iteration"), || {
                format!("checkpoint at {} is not an expected state ({:?}); {}", ck.current_iteration, e.snaps.iter().map(|s| s.completed).collect::<Vec<_>>(), case.brief())
            });
            continue;
        };
        ctx.n("states_compared", 1);
        ctx.check(same(ck.merit_threshold, s.st.thr), &format!("{what}-threshold"), || {
            format!("after {} candidates threshold {} expected {}; {}", ck.current_iteration, ck.merit_threshold, s.st.thr, case.brief())
        });
        ctx.check(ck.unchanged_cycles == s.st.unch, &format!("{what}-unchanged"), || {
            format!("after {} candidates unchanged {} expected {}; {}", ck.current_iteration, ck.unchanged_cycles, s.st.unch, case.brief())
        });
        ctx.check(sols_bits(&ck.distance_filter_solutions) == sols_bits(&s.st.hist), &format!("{what}-history"), || {
            format!("after {} candidates {} results, expected {}; {}", ck.current_iteration, ck.distance_filter_solutions.len(), s.st.hist.len(), case.brief())
        });
    }
    // Work done: the evaluations of exactly these searches
    let mut want = s1.evals.clone();
    want.extend(l0.evals.clone());
    want.extend(e.evals.clone());
    if e.error.is_some() {
        ctx.check(matches!(run.out, Outcome::Err(_)), &format!("{what}-error-expected"), || format!("{}; {}", run.out.short(), case.brief()));
        return None;
    }
    if case.parallel {
        ctx.check(bag(&want) == bag(&run.evals), &format!("{what}-evaluations"), || {
            format!("{} evaluations, expected {} (searched {:?}); {}", run.evals.len(), want.len(), e.searched, case.brief())
        });
    } else {
        let (x, y) = (want.iter().map(ev_key).collect::<Vec<_>>(), run.evals.iter().map(ev_key).collect::<Vec<_>>());
        ctx.check(x == y, &format!("{what}-evaluation-sequence"), || {
            let k = x.iter().zip(&y).position(|(a, b)| a != b);
            format!("{} evaluations, expected {}, first difference at {k:?} (searched {:?}); {}", y.len(), x.len(), e.searched, case.brief())
        });
    }
    ctx.n("searched", e.searched.len() as u64);
    ctx.n("rejected", (e.completed - e.searched.len().min(e.completed)) as u64);
    ctx.n("target_stops", e.target_stop as u64);
    ctx.n("threshold_raises", e.snaps.windows(2).filter(|w| w[1].st.unch == 0 && w[0].st.unch > 0).count() as u64);
    let mut h = Fnv::default();
    for k in &e.searched {
        h.w(*k as u64);
    }
    ctx.d("search_patterns", h.0);
    Some(e)
}

/// The two filters by themselves, on small integers where every comparison is exact.
fn filters_alone(ctx: &mut Ctx, r: &mut Rng) {
    let mut m = globalsearch::filters::MeritFilter::new();
    let mut thr = f64::INFINITY;
    let vals = [f64::NEG_INFINITY, -3.0, -1.0, -0.0, 0.0, f64::MIN_POSITIVE, 1.0, 2.0, 1e300, f64::INFINITY, f64::NAN];
    for _ in 0..12 {
        if r.chance(0.3) {
            thr = r.pick(&vals);
            m.update_threshold(thr);
        }
        let v = r.pick(&vals);
        let got = m.check(v);
        ctx.check(got == (v <= thr), "merit-filter", || format!("{v} against {thr}: {got}"));
    }
    let n = r.range(1, 5);
    let df = r.pick(&[0.0, 1.0, 2.0, 5.0, 3.0]);
    let Ok(mut d) = globalsearch::filters::DistanceFilter::new(FilterParams { distance_factor: df, wait_cycle: 1, threshold_factor: 0.1 }) else { return };
    let mut seen: Vec<Vec<i64>> = vec![];
    for _ in 0..12 {
        let p: Vec<i64> = (0..n).map(|_| r.below(9) as i64 - 4).collect();
        let a = Array1::from_iter(p.iter().map(|v| *v as f64));
        let want = seen.iter().all(|q| q.iter().zip(&p).map(|(x, y)| (x - y) * (x - y)).sum::<i64>() as f64 > df * df);
        let got = d.check(&a);
        ctx.n("filter_decisions", 1);
        ctx.check(got == want, "distance-filter", || format!("{p:?} against {seen:?} with {df}: {got}"));
        if r.chance(0.5) {
            d.add_solution(LocalSolution { point: a, objective: 0.0 });
            seen.push(p);
        }
    }
}

pub fn c06(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 6));
    let mut r2 = Rng::new(mix(seed, 66));
    filters_alone(ctx, &mut r2);
    let pf = Profile { p_fault: 0.1, max_pop: 36, p_target: 0.1, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    if r.chance(0.5) {
        many_searches(&mut case, &mut r);
    }
    if r.chance(0.2) {
        aim_target(ctx, &mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    let run = exec_traced(ctx, &case, None);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    if against_model(ctx, &case, &run, "filter").is_none() {
        ctx.discarded += 1;
    }
    ctx.sample(|| format!("{} -> {}", case.brief(), run.out.short()));
}

// ---------------------------------------------------------------------------------------- C07
pub fn c07(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 7));
    let pf = Profile { p_parallel: 0.7, p_big_pop: 0.3, p_fault: 0.1, max_pop: 24, p_delay: 0.0, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    if r.chance(0.5) {
        many_searches(&mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    let base = exec_traced(ctx, &case, None);
    let mut schedules = std::collections::HashSet::new();
    let sched = |run: &Run| {
        let mut h = Fnv::default();
        for p in ev_points(&run.evals) {
            for b in p {
                h.w(b);
            }
        }
        h.0
    };
    schedules.insert(sched(&base));
    let n = if ctx.thorough { 6 } else { 3 };
    for k in 0..n {
        let mut c = case.clone();
        c.delay = r.pick(&[0, 50, 300]);
        c.seed = mix(seed, 700 + k);
        c.threads = if k == 0 { case.threads } else { r.pick(&[1usize, 2, 3, 5, 8]) };
        // Unrelated activity in the process between and during the runs
        if r.chance(0.4) {
            let other = Case::generate(mix(seed, 900 + k), &Profile { max_pop: 10, ..Default::default() });
            let _ = exec(&other, None, None);
        }
        let noise = r.chance(0.3).then(|| {
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let s2 = stop.clone();
            let h = std::thread::spawn(move || {
                let mut x = 0u64;
                while !s2.load(std::sync::atomic::Ordering::Relaxed) {
                    x = x.wrapping_mul(3).wrapping_add(1);
                }
                x
            });
            (stop, h)
        });
        let run = exec_traced(ctx, &c, None);
        if let Some((s, h)) = noise {
            s.store(true, std::sync::atomic::Ordering::Relaxed);
            let _ = h.join();
        }
        schedules.insert(sched(&run));
        ctx.n("repetitions", 1);
        ctx.check(run.out == base.out, "result-differs", || format!("{} vs {} (threads {} vs {}); {}", base.out.short(), run.out.short(), case.threads, c.threads, case.brief()));
        let ended_in_error = !matches!(base.out, Outcome::Ok(_));
        // When a run fails, how many of the sibling evaluations were still made is up to the schedule
        if !ended_in_error {
            if case.parallel {
                ctx.check(bag(&base.evals) == bag(&run.evals), "evaluated-points-differ", || format!("{} vs {} evaluations; {}", base.evals.len(), run.evals.len(), case.brief()));
            } else {
                ctx.check(
                    base.evals.iter().map(ev_key).collect::<Vec<_>>() == run.evals.iter().map(ev_key).collect::<Vec<_>>(),
                    "evaluation-sequence-differs",
                    || case.brief(),
                );
            }
            let (a, b): (Vec<_>, Vec<_>) = (base.cks.iter().map(ck_state).collect(), run.cks.iter().map(ck_state).collect());
            ctx.check(a == b, "checkpointed-states-differ", || case.brief());
        }
    }
    ctx.n("distinct_schedules", schedules.len() as u64);
    ctx.d("threads_seen", base.threads_seen as u64);
    // A different seed samples a different population
    if case.spec.constraints.is_empty() && case.spec.fault == Fault::None && case.custom.is_none() {
        let mut c = case.clone();
        c.params.seed = case.params.seed.wrapping_add(1 + r.u64() % 7);
        let (a, _) = run_stage1(&case, false, 1);
        let (b, _) = run_stage1(&c, false, 1);
        if let (Ok(a), Ok(b)) = (a, b) {
            let pa = sorted(a.evals.iter().map(|e| bits(&e.point)).collect::<Vec<_>>());
            let pb = sorted(b.evals.iter().map(|e| bits(&e.point)).collect::<Vec<_>>());
            ctx.n("seed_pairs", 1);
            ctx.check(pa != pb, "seed-without-effect", || format!("seeds {} and {} give the same population; {}", case.params.seed, c.params.seed, case.brief()));
        }
    }
    ctx.sample(|| format!("{} -> {} ({} schedules)", case.brief(), base.out.short(), schedules.len()));
}

// ---------------------------------------------------------------------------------------- C08
/// A problem whose best points are given; everything else is worse.
#[derive(Clone)]
struct Pinned {
    best: Vec<Array1<f64>>,
    half: f64,
    log: Arc<Mutex<Vec<Vec<u64>>>>,
}
impl Problem for Pinned {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.log.lock().unwrap().push(bits(x));
        let at = self.best.iter().position(|p| p == x);
        Ok(at.map_or_else(|| 1e3 + x.iter().map(|v| v.abs()).sum::<f64>(), |i| i as f64))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.best[0].len(), 2), |(_, j)| if j == 0 { -self.half } else { self.half })
    }
}

/// Trial points exactly at the edge of the near-duplicate threshold, where the last bit of the mean
/// distance decides: the k best points are placed so that a combination of the first two lies at
/// that distance, give or take an ulp.
fn threshold_edge(r: &mut Rng, ctx: &mut Ctx) {
    let dim = r.range(2, 4);
    let pop = r.pick(&[16usize, 17, 24, 25, 36, 40, 64]);
    let k = (pop as f64).sqrt() as usize;
    let len = |v: &Array1<f64>| v.dot(v).sqrt();
    let dir = |r: &mut Rng| {
        let v = Array1::from_iter((0..dim).map(|_| r.fr(-1.0, 1.0)));
        let n = v.dot(&v).sqrt().max(1e-3);
        v / n
    };
    let d = r.fr(0.5, 3.0);
    for _ in 0..200 {
        let mut x = vec![dir(r) * r.fr(0.0, 2.0)];
        let step = dir(r) * d;
        x.push(&x[0] + &step);
        for _ in 2..k {
            let last = x.last().unwrap().clone();
            x.push(&last + &(dir(r) * (d * r.fr(0.3, 0.7))));
        }
        let t = &x[0] * 0.25 + &x[1] * 0.75;
        let near = len(&(&t - &x[1]));
        let sum: f64 = x.windows(2).map(|w| (&w[0] - &w[1]).dot(&(&w[0] - &w[1]))).sum();
        let rest = 10.0 * k as f64 * near * near - sum;
        if rest <= 0.0 || x[2..].iter().any(|p| len(&(&t - p)) < 1.1 * near) {
            continue;
        }
        let u = dir(r);
        for j in -6i64..=6 {
            let l = rest.sqrt() * (1.0 + j as f64 * 2.0 * f64::EPSILON);
            let mut best = x.clone();
            best.push(&x[k - 1] + &(&u * l));
            if len(&(&t - &best[k])) < 1.1 * near {
                break;
            }
            let run = |par: bool, threads: usize| {
                let p = Pinned { best: best.clone(), half: 40.0, log: Default::default() };
                let q = OQNLPParams { iterations: 3, population_size: pop, seed: 7, ..Default::default() };
                let res = on_pool(threads, || ScatterSearch::new(p.clone(), q).unwrap().par(par).with_custom_points(best.clone()).run());
                let ev = sorted(p.log.lock().unwrap().clone());
                (ev, res.map(|(v, b)| (v.iter().map(|(p, f)| (bits(p), f.to_bits())).collect::<Vec<_>>(), bits(&b))).map_err(|e| e.to_string()))
            };
            let a = run(false, 1);
            let has = a.0.contains(&bits(&t));
            ctx.n(if has { "edge_trials_evaluated" } else { "edge_trials_skipped" }, 1);
            for threads in [8, 2] {
                let b = run(true, threads);
                ctx.check(a == b, "threshold-edge", || {
                    format!("a trial point at the near-duplicate threshold: {} evaluations sequentially, {} on {threads} threads; dim {dim} population {pop} points {:?}", a.0.len(), b.0.len(), best.iter().map(|p| p.to_vec()).collect::<Vec<_>>())
                });
            }
        }
        return;
    }
}

pub fn c08(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 8));
    let pf = Profile { p_parallel: 1.0, p_big_pop: 0.35, p_fault: 0.1, max_pop: 30, p_custom: 0.4, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    if PAR && r.chance(0.5) {
        threshold_edge(&mut r, ctx);
    }
    if r.chance(0.5) {
        many_searches(&mut case, &mut r);
    }
    if case.spec.constraints.is_empty() && r.chance(0.15) {
        // Domains so small that squared distances underflow or tie
        for b in case.spec.bounds.iter_mut() {
            *b = r.pick(&[(0.0, 1e-170), (1.0, 1.0 + 4.0 * f64::EPSILON), (0.0, 1e-9), (-1e-300, 1e-300)]);
        }
        if let Some(c) = &mut case.custom {
            for p in c.iter_mut() {
                *p = rand_point(&mut r, &case.spec.bounds);
            }
        }
        ctx.n("tiny_domains", 1);
    }
    ctx.classes.insert(case.class());
    // Stage 1: on and off, several pool sizes
    let (seq, ev) = run_stage1(&case, false, 1);
    for t in [case.threads, r.pick(&[1usize, 2, 4, 8])] {
        let (par, pev) = run_stage1(&case, true, t);
        match (&seq, &par) {
            (Ok(a), Ok(b)) => {
                let k = |s: &Stage1| s.refset.iter().map(|(p, v)| (bits(p), v.to_bits())).collect::<Vec<_>>();
                ctx.n("stage1_pairs", 1);
                ctx.check(k(a) == k(b), "stage1-reference-set", || format!("threads {t}; {}", case.brief()));
                ctx.check(bits(&a.best) == bits(&b.best), "stage1-best", || format!("{} vs {}; {}", a.best, b.best, case.brief()));
                ctx.check(bag(&ev) == bag(&pev), "stage1-evaluations", || format!("{} vs {}; {}", ev.len(), pev.len(), case.brief()));
            }
            (Err(a), Err(b)) => {
                let k = |s: &str| s.split([' ', '{', '(']).next().unwrap_or("").to_string();
                ctx.check(k(a) == k(b), "stage1-error", || format!("{a} vs {b}; {}", case.brief()));
            }
            (a, b) => {
                ctx.check(false, "stage1-outcome", || format!("sequential {} parallel {}; {}", a.as_ref().err().map_or("ok", |e| e), b.as_ref().err().map_or("ok", |e| e), case.brief()));
            }
        }
    }
    // Batch size one is the sequential run
    let mut one = case.clone();
    one.batch = Some(r.pick(&[1, 1, 0]));
    let mut sq = case.clone();
    sq.parallel = false;
    let a = exec_traced(ctx, &one, None);
    let b = exec_traced(ctx, &sq, None);
    ctx.n("batch_one_pairs", 1);
    ctx.check(a.out == b.out, "batch-one-result", || format!("{} vs {}; {}", a.out.short(), b.out.short(), case.brief()));
    if matches!(a.out, Outcome::Ok(_)) {
        ctx.check(bag(&a.evals) == bag(&b.evals), "batch-one-evaluations", || case.brief());
        let st = |v: &Vec<OQNLPCheckpoint>| {
            v.iter()
                .map(|c| {
                    let mut c = c.clone();
                    #[cfg(feature = "par")]
                    {
                        c.enable_parallel = false;
                        c.batch_iterations = None;
                    }
                    let c = &mut c;
                    ck_state(c)
                })
                .collect::<Vec<_>>()
        };
        ctx.check(st(&a.cks) == st(&b.cks), "batch-one-states", || case.brief());
    }
    // Larger batches follow the batch rule whatever finishes first
    let mut big = case.clone();
    big.batch = Some(r.pick(&[2usize, 3, 4, 7, 50]));
    big.delay = r.pick(&[0, 100, 400]);
    if r.chance(0.3) {
        aim_target(ctx, &mut big, &mut r);
    }
    let c = exec_traced(ctx, &big, None);
    if c.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", c.out.short(), big.brief()));
    } else if let Some(e) = against_model(ctx, &big, &c, "batch") {
        let want = if e.final_state.set.is_empty() { None } else { Some(sols_bits(&e.final_state.set)) };
        ctx.check(c.set.as_ref().map(set_bits) == want, "batch-result", || format!("{}; {}", c.out.short(), big.brief()));
    }
    ctx.d("threads_seen", c.threads_seen as u64);
    // Without a batch size the library chooses one: the rule holds for that size
    if PAR && r.chance(0.4) {
        let mut own = big.clone();
        own.batch = None;
        let d = exec_traced(ctx, &own, None);
        if let Some(b) = d.cks.iter().map(|c| c.current_iteration).find(|i| *i > 0) {
            own.batch = Some(b);
            ctx.n("batch_size_chosen_by_the_library", 1);
            ctx.d("chosen_batch_sizes", b as u64);
            if let Some(e) = against_model(ctx, &own, &d, "own-batch") {
                let want = if e.final_state.set.is_empty() { None } else { Some(sols_bits(&e.final_state.set)) };
                ctx.check(d.set.as_ref().map(set_bits) == want, "own-batch-result", || format!("{}; {}", d.out.short(), own.brief()));
            }
        }
    }
    ctx.sample(|| format!("{} -> {}", big.brief(), c.out.short()));
}

// ---------------------------------------------------------------------------------------- C09
pub fn c09(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 9));
    // The solvers whose own loops are bounded by their iteration limit come first: with those, a run
    // that does not end is this library's doing
    let sols = vec![Sol::NelderMead, Sol::Cobyla, Sol::NelderMead, Sol::Trust, Sol::Lbfgs, Sol::Steepest];
    let pf = Profile { p_target: 0.7, max_pop: 24, p_fault: 0.05, sols, ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    if let LocalSolverConfig::TrustRegion { trust_region_radius_method, .. } = &mut case.params.local_solver_config {
        *trust_region_radius_method = TrustRegionRadiusMethod::Cauchy;
    }
    ctx.runaway_is_violation = !matches!(case.sol, Sol::Lbfgs | Sol::Steepest);
    let late = r.chance(0.3);
    if late {
        late_improvements(&mut case, &mut r);
        ctx.runaway_is_violation = true;
        case.target.get_or_insert(f64::NEG_INFINITY);
    } else if r.chance(0.6) {
        many_searches(&mut case, &mut r);
    }
    match r.below(10) {
        0 => case.max_time = Some(-1.0),
        1 => case.max_time = Some(1e9),
        2 => case.max_time = Some(f64::INFINITY),
        _ => {}
    }
    if r.below(12) == 0 {
        return c09_time(seed, ctx);
    }
    if late || case.target.is_some() && r.chance(0.6) {
        aim_target(ctx, &mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    let dir = Tmp::new(&ctx.scratch);
    let run = exec(&case, Some(&Ckpts::trace(&dir.0)), None);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    let (s1, _) = run_stage1(&case, case.parallel, case.threads);
    let Ok(s1) = s1 else { return };
    let mut oracle = LocalOracle::new(&case);
    let rules = Rules::of(&case);
    let (st, l0) = after_stage1(&mut oracle, &s1.best, &rules);
    let Ok(st) = st else { return };
    if matches!(case.max_time, Some(t) if t < 0.0) && !st.target_hit(&rules) {
        ctx.n("expired_time_limit", 1);
        let mut want = s1.evals.clone();
        want.extend(l0.evals.clone());
        ctx.check(bag(&want) == bag(&run.evals), "work-after-time-limit", || format!("{} evaluations, Stage 1 needs {}; {}", run.evals.len(), want.len(), case.brief()));
        ctx.check(run.cks.last().map(|c| c.current_iteration) == Some(0), "iterations-after-time-limit", || case.brief());
        if !st.set.is_empty() {
            ctx.check(run.out == Outcome::Ok(sols_bits(&st.set)), "solutions-lost-on-timeout", || format!("{}; {}", run.out.short(), case.brief()));
        }
        return;
    }
    if let Some(e) = against_model(ctx, &case, &run, "budget") {
        let end = case.params.iterations.min(s1.refset.len());
        let done = run.cks.last().unwrap().current_iteration;
        ctx.check(done == e.completed, "iterations-at-stop", || format!("{done}, expected {}; {}", e.completed, case.brief()));
        ctx.check(done <= end, "too-many-iterations", || format!("{done} of {end}; {}", case.brief()));
        if !e.target_stop {
            ctx.check(done == end, "stopped-early", || format!("{done} of {end}; {}", case.brief()));
        } else {
            ctx.n("target_reached_stage2", 1);
            let mut last = e.snaps.iter().rev().map(|s| s.completed);
            let (a, b) = (last.next().unwrap_or(0), last.next().unwrap_or(0));
            let n = e.searched.iter().filter(|k| **k >= b && **k < a).count();
            ctx.n(&format!("target_reached_in_{}_batch_of_{}", if case.batch_eff() > 1 { "parallel" } else { "sequential" }, if n > 1 { "several" } else { "one" }), 1);
        }
        ctx.check(e.searched.len() + 1 <= end + 1, "too-many-searches", || case.brief());
        ctx.n("iterations", done as u64);
        let want = if e.final_state.set.is_empty() { None } else { Some(sols_bits(&e.final_state.set)) };
        ctx.check(run.set.as_ref().map(set_bits) == want, "result-at-stop", || format!("{}; {}", run.out.short(), case.brief()));
        if r.chance(0.4) {
            c09_resumed(ctx, &case, &run, &dir, &mut oracle, &mut r);
        }
    } else {
        ctx.discarded += 1;
    }
    ctx.sample(|| format!("{} -> {} after {:?} iterations", case.brief(), run.out.short(), run.cks.last().map(|c| c.current_iteration)));
}

/// The budget and the stops count over the whole history of a run: interrupted after some iteration
/// and continued, it processes no more candidates than in one go.
fn c09_resumed(ctx: &mut Ctx, case: &Case, run: &Run, dir: &Tmp, oracle: &mut LocalOracle, r: &mut Rng) {
    let last = run.cks.last().unwrap().clone();
    let ck = run.cks[r.below(run.cks.len())].clone();
    let d = Tmp::new(&ctx.scratch);
    crate::props_b::copy_upto(&dir.0, &d.0, ck.current_iteration);
    let mut c2 = Ckpts::trace(&d.0);
    c2.auto_resume = true;
    let mut again = case.clone();
    again.delay = 0;
    let late = case.max_time.is_none() && r.chance(0.2);
    if late {
        again.max_time = Some(-1.0);
    }
    let res = crate::props_b::resume_exec(&again, again.problem(), &c2);
    if res.out.is_panic() {
        ctx.check(false, "panic", || format!("resumed: {}; {}", res.out.short(), case.brief()));
        return;
    }
    ctx.n("resumed_runs", 1);
    let Some(l) = res.cks.last() else { return };
    if late {
        // The limit of a continued run applies as well: no candidate is searched
        ctx.n("resumed_with_expired_limit", 1);
        ctx.check(l.current_iteration == ck.current_iteration, "resumed-after-time-limit", || {
            format!("resumed after {} with an expired limit, ended after {}; {}", ck.current_iteration, l.current_iteration, case.brief())
        });
        let starts: std::collections::HashSet<_> = l.reference_set.iter().map(bits).collect();
        let other = res.evals.iter().filter(|e| !starts.contains(&bits(&e.point))).count();
        ctx.check(other == 0, "resumed-work-after-time-limit", || format!("{other} evaluations; {}", case.brief()));
        return;
    }
    ctx.check(l.current_iteration == last.current_iteration, "resumed-iterations", || {
        format!("resumed after {}, ended after {} instead of {} (budget {}); {}", ck.current_iteration, l.current_iteration, last.current_iteration, case.params.iterations, case.brief())
    });
    let rules = Rules::of(case);
    let cands = candidates(case, &last);
    let st = crate::props_b::state_of(&ck);
    let from = if st.target_hit(&rules) { case.params.iterations } else { ck.current_iteration };
    let e = model(oracle, &cands, from, case.params.iterations, case.batch_eff(), st, &rules);
    if e.error.is_none() {
        crate::props_b::check_resumed_work(ctx, "resumed", &res.evals, &e, &cands, ck.current_iteration, &format!("resumed after {}; {}", ck.current_iteration, case.brief()));
    }
}

/// Real time limits with an objective that takes at least a known time.
fn c09_time(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 99));
    let pf = Profile { p_target: 0.0, max_pop: 14, p_constraints: 0.0, p_custom: 0.0, p_big_pop: 0.0, max_dim: 2, p_delay: 0.0,
        sols: vec![Sol::NelderMead, Sol::Cobyla], ..Default::default() };
    let mut case = Case::generate(seed, &pf);
    case.params.wait_cycle = 1;
    case.params.threshold_factor = 1e6;
    case.params.distance_factor = 0.0;
    case.params.iterations = case.params.population_size;
    case.params.local_solver_config = match case.sol {
        Sol::Cobyla => LocalSolverConfig::COBYLA { max_iter: 8, initial_step_size: 0.1, ftol_rel: 0.0, ftol_abs: 0.0, xtol_rel: 0.0, xtol_abs: vec![] },
        _ => LocalSolverConfig::NelderMead { simplex_delta: 0.1, sd_tolerance: 1e-16, max_iter: 4, alpha: 1.0, gamma: 2.0, rho: 0.5, sigma: 0.5 },
    };
    case.max_time = Some(r.pick(&[0.03, 0.06, 0.1]));
    let (s1, _) = run_stage1(&case, case.parallel, case.threads);
    let Ok(s1) = s1 else { return };
    let mut oracle = LocalOracle::new(&case);
    let n0 = s1.evals.len() + oracle.solve(&s1.best).evals.len();
    let prob = case.problem();
    let slow_start = r.chance(0.4);
    let per = if slow_start { 0u64 } else { 4 }; // milliseconds each evaluation of Stage 2 takes at least
    prob.0.slow_after.store(n0 as u64, std::sync::atomic::Ordering::SeqCst);
    prob.0.slow_ms.store(per, std::sync::atomic::Ordering::SeqCst);
    if slow_start {
        // The limit is one of Stage 2: a Stage 1 that takes longer does not use it up
        prob.0.first_ms.store((case.max_time.unwrap() * 1000.0) as u64 + 15, std::sync::atomic::Ordering::SeqCst);
        ctx.n("timed_runs_with_slow_stage1", 1);
    }
    let probe = prob.clone();
    ctx.classes.insert(case.class());
    let t = Tmp::new(&ctx.scratch);
    let run = exec_with(&case, prob, Some(&Ckpts::trace(&t.0)), None);
    let ended = std::time::Instant::now();
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    let Some(ck) = run.cks.last() else { return };
    let cands = candidates(&case, ck);
    let rules = Rules::of(&case);
    let (st, _) = after_stage1(&mut oracle, &s1.best, &rules);
    let Ok(st) = st else { return };
    let e = model(&mut oracle, &cands, 0, case.params.iterations, case.batch_eff(), st, &rules);
    if e.error.is_some() {
        return;
    }
    // After a batch boundary at which the slowest chain of sleeps alone exceeds the limit, nothing
    // more may start. In a parallel batch every search of the batch may overlap; the longest counts.
    let max = case.max_time.unwrap();
    let mut elapsed_min = 0.0;
    let mut limit = None;
    for w in e.snaps.windows(2) {
        if elapsed_min > max {
            limit = Some(w[0].completed);
            break;
        }
        let in_batch: Vec<usize> = e.per_search.iter().filter(|(k, _)| *k >= w[0].completed && *k < w[1].completed).map(|(_, n)| *n).collect();
        let longest = in_batch.iter().max().copied().unwrap_or(0);
        elapsed_min += longest as f64 * per as f64 / 1000.0;
    }
    ctx.n("timed_runs", 1);
    let done = ck.current_iteration;
    if let Some(l) = limit {
        ctx.n("timed_runs_that_must_stop", 1);
        ctx.check(done <= l, "batch-started-after-time-limit", || format!("{done} iterations processed, at most {l} can start within {max}s; {}", case.brief()));
    }
    // From the last evaluation of Stage 1 to the end, which is longer than Stage 2
    let stage2 = probe.0.mark.get().map_or(f64::INFINITY, |t| ended.duration_since(*t).as_secs_f64());
    if stage2 < max {
        ctx.n("timed_runs_within_limit", 1);
        ctx.check(done == case.params.iterations.min(cands.len()), "stopped-before-time-limit", || format!("{done} iterations after {stage2}s of {max}s; {}", case.brief()));
    }
    // What was found so far is returned
    if let Some(s) = e.snaps.iter().find(|s| s.completed == done) {
        let want = if s.st.set.is_empty() { None } else { Some(sols_bits(&s.st.set)) };
        ctx.check(run.set.as_ref().map(set_bits) == want, "solutions-lost-on-timeout", || format!("{}; {}", run.out.short(), case.brief()));
    } else {
        ctx.check(false, "stopped-inside-batch", || format!("{done}; {}", case.brief()));
    }
}

/// One line per sequential run: digests of result, evaluations and checkpoints, for comparison with
/// the same runs by a build of the library without its parallel feature (C08).
pub fn child_digest(seed: u64, shard: u64, budget: f64, scratch: &std::path::Path) {
    let t0 = std::time::Instant::now();
    let mut i = 0;
    while t0.elapsed().as_secs_f64() < budget {
        let s = mix(mix(seed, 88), shard * (1 << 32) + i);
        let mut r = Rng::new(mix(s, 8));
        let mut case = Case::generate(s, &Profile { p_parallel: 0.0, p_fault: 0.1, p_custom: 0.3, p_big_pop: 0.2, p_delay: 0.0, ..Default::default() });
        if r.chance(0.5) {
            many_searches(&mut case, &mut r);
        }
        case.parallel = false;
        case.batch = None;
        RUNAWAY.store(false, std::sync::atomic::Ordering::SeqCst);
        let t = Tmp::new(scratch);
        let run = exec(&case, Some(&Ckpts::trace(&t.0)), None);
        let mut h = [Fnv::default(), Fnv::default(), Fnv::default()];
        h[0].s(&format!("{:?}", run.out));
        for e in &run.evals {
            h[1].fs(&e.point).f(e.value.unwrap_or(0.0));
        }
        for c in &run.cks {
            let mut c = c.clone();
            #[cfg(feature = "par")]
            {
                c.enable_parallel = false;
                c.batch_iterations = None;
            }
            c.elapsed_time = 0.0;
            h[2].s(&ck_state(&c));
        }
        let dropped = RUNAWAY.load(std::sync::atomic::Ordering::SeqCst) || case.spec.fault != Fault::None && run.out.is_panic();
        println!("{s} {} {:016x} {:016x} {:016x} {} {} | {}", dropped as u8, h[0].0, h[1].0, h[2].0, run.evals.len(), run.cks.len(), case.brief());
        i += 1;
    }
}

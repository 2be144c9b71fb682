//! Monitors of the surroundings of the search: C15 (observer), C16 (passive options), C17 (failing
//! evaluations), C18 (validation and extremes).
use crate::case::*;
use crate::ctx::Ctx;
use crate::model::*;
use crate::prob::*;
use crate::props_a::*;
use crate::props_b::{wild, wild_cfg};
use crate::util::*;
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

// ---------------------------------------------------------------------------------------- C15
#[derive(Clone, Debug, Default)]
struct S1 {
    substage: String,
    size: usize,
    best: f64,
    point: Option<Array1<f64>>,
    evals: usize,
    trials: usize,
    time: Option<f64>,
}
#[derive(Clone, Debug, Default)]
struct S2 {
    iter: usize,
    best: f64,
    point: Option<Array1<f64>>,
    last: Option<Array1<f64>>,
    size: usize,
    thr: f64,
    calls: usize,
    improved: usize,
    evals: usize,
    unch: usize,
    time: Option<f64>,
}
/// One callback: objective calls made so far and what the observer shows.
#[derive(Clone, Debug)]
struct Shot {
    count: u64,
    s1: Option<S1>,
    s2: Option<S2>,
    elapsed: Option<f64>,
}
fn shot(o: &Observer, count: u64, fin: bool) -> Shot {
    let s1 = if fin { o.stage1_final() } else { o.stage1() };
    Shot {
        count,
        s1: s1.map(|s| S1 {
            substage: s.current_substage().to_string(),
            size: s.reference_set_size(),
            best: s.best_objective(),
            point: s.best_point().cloned(),
            evals: s.function_evaluations(),
            trials: s.trial_points_generated(),
            time: s.total_time(),
        }),
        s2: o.stage2().map(|s| S2 {
            iter: s.current_iteration(),
            best: s.best_objective(),
            point: s.best_point().cloned(),
            last: s.last_added_point().cloned(),
            size: s.solution_set_size(),
            thr: s.threshold_value(),
            calls: s.local_solver_calls(),
            improved: s.improved_local_calls(),
            evals: s.function_evaluations(),
            unch: s.unchanged_cycles(),
            time: s.total_time(),
        }),
        elapsed: o.elapsed_time(),
    }
}

/// The recorded metrics by themselves: fresh values and every history of updates.
fn states_alone(ctx: &mut Ctx, r: &mut Rng) {
    use globalsearch::observers::{Stage1State, Stage2State};
    let (mut a, mut b) = (Stage1State::new(), Stage2State::new());
    let (mut best, mut pt): (f64, Option<Array1<f64>>) = (f64::NAN, None);
    let (mut size, mut ev, mut tr, mut sub) = (0, 0, 0, "not_started".to_string());
    let (mut it, mut thr, mut calls, mut imp, mut unch, mut last) = (0, f64::INFINITY, 0, 0, 0, None);
    let vals = [f64::NEG_INFINITY, -2.0, -1.0, 0.0, 1.0, 3.0, f64::INFINITY, f64::NAN];
    for _ in 0..14 {
        ctx.n("metric_histories", 1);
        let one = a.reference_set_size() == size
            && same(a.best_objective(), best)
            && a.best_point() == pt.as_ref()
            && a.current_substage() == sub
            && a.function_evaluations() == ev
            && a.trial_points_generated() == tr
            && a.total_time().is_none();
        ctx.check(one, "stage1-metrics", || format!("{a:?}; expected {size} {best} {pt:?} {sub} {ev} {tr}"));
        let two = b.solution_set_size() == size
            && same(b.best_objective(), best)
            && b.best_point() == pt.as_ref()
            && b.last_added_point() == last.as_ref()
            && b.current_iteration() == it
            && same(b.threshold_value(), thr)
            && b.local_solver_calls() == calls
            && b.improved_local_calls() == imp
            && b.function_evaluations() == ev
            && b.unchanged_cycles() == unch
            && b.total_time().is_none();
        ctx.check(two, "stage2-metrics", || format!("{b:?}; expected {size} {best} {pt:?} {last:?} {it} {thr} {calls} {imp} {ev} {unch}"));
        let (v, k) = (r.pick(&vals), r.below(9));
        match r.below(10) {
            0 => {
                size = k;
                a.set_reference_set_size(k);
                b.set_solution_set_size(k);
            }
            1 | 2 => {
                let p = Array1::from_elem(2, k as f64);
                if best.is_nan() || v < best {
                    best = v;
                    pt = Some(p.clone());
                }
                a.set_best_solution(v, &p);
                b.set_best_solution(v, &p);
            }
            3 => {
                if best.is_nan() || v < best {
                    best = v;
                }
                a.set_best_objective(v);
                b.set_best_objective(v);
            }
            4 => {
                ev += k;
                a.add_function_evaluations(k);
                b.add_function_evaluations(k);
            }
            5 => {
                tr += k;
                a.add_trial_points(k);
                calls += 1;
                imp += k % 2;
                b.add_local_solver_call(k % 2 == 1);
            }
            6 => {
                sub = format!("s{k}");
                a.enter_substage(&sub);
                it = k;
                b.set_iteration(k);
            }
            7 => {
                thr = v;
                b.set_threshold_value(v);
            }
            8 => {
                unch = k;
                b.set_unchanged_cycles(k);
            }
            _ => {
                let p = Array1::from_elem(3, v);
                if !v.is_nan() {
                    last = Some(p.clone());
                    b.set_last_added_solution(&p);
                }
            }
        }
    }
    a.end();
    b.end();
    ctx.check(a.total_time().is_none() && b.total_time().is_none(), "time-without-start", || format!("{a:?} {b:?}"));
    a.start();
    b.start();
    a.end();
    b.end();
    ctx.check(a.total_time().is_some_and(|t| t >= 0.0) && b.total_time().is_some_and(|t| t >= 0.0), "time", || format!("{a:?} {b:?}"));
}

pub fn c15(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 15));
    let mut r2 = Rng::new(mix(seed, 155));
    states_alone(ctx, &mut r2);
    let mut case = Case::generate(seed, &Profile { p_fault: 0.1, max_pop: 30, p_target: 0.15, p_delay: 0.2, ..Default::default() });
    if r.chance(0.7) {
        many_searches(&mut case, &mut r);
    }
    if case.target.is_some() && r.chance(0.5) {
        aim_target(ctx, &mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    let both = r.chance(0.6);
    let (t1, t2) = if both { (true, true) } else { (r.chance(0.6), r.chance(0.6)) };
    let mode = if both { ObserverMode::Both } else { r.pick(&[ObserverMode::Both, ObserverMode::Stage1Only, ObserverMode::Stage2Only]) };
    let freq = r.pick(&[1usize, 1, 1, 2, 3, 5, 0, 100]);
    let timing = r.chance(0.5);
    // Resume half-way in some cases
    let dir = Tmp::new(&ctx.scratch);
    let mut start = 0;
    let mut from = None;
    if r.chance(0.25) {
        let full = exec(&case, Some(&Ckpts::trace(&dir.0)), None);
        if full.set.is_some() && full.cks.len() > 1 {
            let ck = full.cks[r.below(full.cks.len())].clone();
            for f in list_ckpts(&dir.0) {
                let keep = read_ck(&dir.0.join(&f)).is_some_and(|c| c.current_iteration <= ck.current_iteration);
                if !keep {
                    let _ = std::fs::remove_file(dir.0.join(&f));
                }
            }
            start = ck.current_iteration;
            from = Some(ck);
        }
    }
    let prob = case.problem();
    let shots: Arc<Mutex<Vec<Shot>>> = Default::default();
    let mut obs = Observer::new().with_callback_frequency(freq);
    if t1 {
        obs = obs.with_stage1_tracking();
    }
    if t2 {
        obs = obs.with_stage2_tracking();
    }
    let (m1, m2) = (mode != ObserverMode::Stage2Only, mode != ObserverMode::Stage1Only);
    obs = obs.with_mode(mode);
    if timing {
        obs = obs.with_timing();
    }
    let seen = (obs.should_observe_stage1(), obs.should_observe_stage2(), obs.is_timing_enabled(), obs.stage1_final().is_some(), obs.stage2().is_some(), obs.elapsed_time().is_some());
    let want = (t1 && m1, t2 && m2, timing, t1, false, false);
    ctx.check(seen == want, "observer-before-the-run", || format!("{seen:?} expected {want:?}"));
    let (p2, sh) = (prob.clone(), shots.clone());
    obs = obs.with_callback(move |o| {
        let c = p2.count();
        sh.lock().unwrap().push(shot(o, c, false));
    });
    let mut ck = Ckpts::trace(&dir.0);
    ck.auto_resume = from.is_some();
    dependency_panic();
    let fin: Mutex<Option<(Shot, Shot)>> = Mutex::new(None);
    let t0 = std::time::Instant::now();
    let (out, set) = on_pool(case.threads, || {
        outcome(catch_unwind(AssertUnwindSafe(|| {
            let mut o = build(&case, prob.clone(), Some(&ck), Some(obs))?;
            let res = o.run();
            if let Some(ob) = o.observer() {
                let a = shot(ob, prob.count(), true);
                std::thread::sleep(std::time::Duration::from_millis(2));
                *fin.lock().unwrap() = Some((a, shot(ob, prob.count(), true)));
            }
            res
        })))
    });
    let run = collect(prob.clone(), out, set, Some(&ck), t0);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    if run.set.is_none() {
        ctx.discarded += 1;
        return;
    }
    let Some((end, later)) = fin.lock().unwrap().clone() else { return };
    let shots = shots.lock().unwrap().clone();
    ctx.n("callbacks", shots.len() as u64);
    let what = format!("mode {mode:?} tracking {t1}/{t2} freq {freq} resumed at {start}; {}", case.brief());
    let see1 = t1 && mode != ObserverMode::Stage2Only;
    let see2 = t2 && mode != ObserverMode::Stage1Only;
    // Stage times stop with their stage
    if see1 && from.is_none() {
        let (a, b) = (end.s1.as_ref().unwrap().time, later.s1.as_ref().unwrap().time);
        ctx.check(a.is_some() && a == b, "stage1-time-runs-on", || format!("{a:?} then {b:?}; {what}"));
        if let Some(t) = a {
            ctx.check(t <= run.wall && t >= 0.0, "stage1-time", || format!("{t} of {}; {what}", run.wall));
        }
    }
    if let (true, Some(a), Some(b)) = (see2, end.s2.as_ref(), later.s2.as_ref()) {
        ctx.check(a.time.is_some() && a.time == b.time, "stage2-time-runs-on", || format!("{:?} then {:?}; {what}", a.time, b.time));
        if let (Some(t), Some(u)) = (a.time, end.s1.as_ref().and_then(|s| s.time)) {
            ctx.check(t >= 0.0 && t + if see1 && from.is_none() { u } else { 0.0 } <= run.wall + 1e-3, "stage-times", || format!("{u}+{t} of {}; {what}", run.wall));
        }
    }
    ctx.check(end.elapsed.is_some() == timing, "elapsed-time", || format!("{:?} with timing {timing}; {what}", end.elapsed));
    // What the run did, from the log and the model
    let rules = Rules::of(&case);
    let mut oracle = LocalOracle::new(&case);
    let total = end.count as usize;
    let mut best_seen1 = f64::NAN;
    let mut best_seen2 = f64::NAN;
    for s in &shots {
        if let (true, Some(x)) = (see1, &s.s1) {
            ctx.check(best_seen1.is_nan() || x.best <= best_seen1, "stage1-best-worsens", || format!("{} after {best_seen1}; {what}", x.best));
            best_seen1 = x.best;
            ctx.check(x.evals as u64 <= s.count, "stage1-evaluations-ahead", || format!("{} shown, {} made at {}; {what}", x.evals, s.count, x.substage));
        }
        if let (true, Some(x)) = (see2, &s.s2) {
            ctx.check(best_seen2.is_nan() || x.best <= best_seen2, "stage2-best-worsens", || format!("{} after {best_seen2}; {what}", x.best));
            best_seen2 = x.best;
        }
    }
    let mut st1 = 0usize;
    let (cands, st) = if let Some(c) = &from {
        ctx.check(shots.iter().all(|s| s.s1.as_ref().is_none_or(|x| x.evals == 0)), "stage1-on-resume", || what.clone());
        (run.cks.last().map(|l| candidates(&case, l)), crate::props_b::state_of(c))
    } else {
        let (s1, _) = run_stage1(&case, case.parallel, case.threads);
        let Ok(s1) = s1 else { return };
        let (st, l0) = after_stage1(&mut oracle, &s1.best, &rules);
        let Ok(st) = st else { return };
        st1 = s1.evals.len() + l0.evals.len();
        let hit = st.target_hit(&rules);
        if see1 {
            let seq: Vec<&str> = shots.iter().filter(|s| s.s2.is_none()).filter_map(|s| s.s1.as_ref().map(|x| x.substage.as_str())).collect();
            let doc = ["initialization_complete", "diversification_complete", "intensification_complete", "scatter_search_complete", "local_optimization_complete", "stage1_complete"];
            ctx.check(seq == doc, "stage1-callbacks", || format!("{seq:?}; {what}"));
            ctx.check(shots.iter().filter(|s| s.s2.is_some()).all(|s| s.s1.is_none()), "stage1-after-its-end", || what.clone());
            let n0 = init_count(&case);
            let at = |n: &str| shots.iter().filter_map(|s| s.s1.as_ref().map(|x| (s.count, x.clone()))).find(|(_, x)| x.substage == n);
            if let Some((c, x)) = at("diversification_complete") {
                if let Some(n0) = n0 {
                    ctx.check(x.evals == n0 && x.size == n0 && c == n0 as u64, "diversification", || format!("{} evaluations and size {} shown, {c} made, {n0} expected; {what}", x.evals, x.size));
                }
            }
            if let Some((c, x)) = at("intensification_complete") {
                ctx.check(x.evals as u64 == c && x.evals == s1.evals.len(), "intensification", || format!("{} shown, {c} made, {} expected; {what}", x.evals, s1.evals.len()));
                ctx.check(x.size == s1.refset.len(), "intensification-size", || format!("{} shown, {}; {what}", x.size, s1.refset.len()));
                if let Some(n) = trial_count(&case) {
                    ctx.check(x.trials == n, "trial-points", || format!("{} shown, {n} generated; {what}", x.trials));
                }
            }
            if let Some((_, x)) = at("scatter_search_complete") {
                let b = case.spec.value(&s1.best).unwrap_or(f64::NAN);
                ctx.check(same(x.best, b), "stage1-best", || format!("{} shown, {b}; {what}", x.best));
                ctx.check(x.size == s1.refset.len(), "stage1-size", || format!("{} shown, {}; {what}", x.size, s1.refset.len()));
            }
            for n in ["local_optimization_complete", "stage1_complete"] {
                if let Some((c, x)) = at(n) {
                    ctx.check(x.evals == st1 && c as usize == st1, "stage1-evaluations", || format!("{} shown, {c} made, {st1} expected at {n}; {what}", x.evals));
                    let b = case.spec.value(&s1.best).unwrap_or(f64::NAN);
                    let l = l0.res.as_ref().unwrap();
                    let want = if b.is_nan() || l.objective < b { l.objective } else { b };
                    ctx.check(same(x.best, want), "stage1-local-best", || format!("{} shown, {want}; {what}", x.best));
                    let wp = if b.is_nan() || l.objective < b { &l.point } else { &s1.best };
                    if !want.is_nan() && !case.spec.value(wp).is_ok_and(|v| v.is_nan()) {
                        ctx.check(x.point.as_ref().is_some_and(|p| bits(p) == bits(wp) || same(case.spec.value(p).unwrap_or(f64::NAN), want)), "stage1-best-point", || format!("{:?}; {what}", x.point));
                    }
                }
            }
            let e1 = end.s1.as_ref().unwrap();
            ctx.check(e1.evals == st1, "stage1-final-evaluations", || format!("{} shown, {st1} made; {what}", e1.evals));
        }
        if hit {
            ctx.n("stage1_targets", 1);
            ctx.check(end.s2.is_none(), "stage2-without-stage2", || what.clone());
            return;
        }
        (run.cks.last().map(|l| candidates(&case, l)), st)
    };
    let Some(cands) = cands else { return };
    if !see2 {
        ctx.n("stage1_only", 1);
        return;
    }
    let already = from.is_some() && st.target_hit(&rules);
    let e = model(&mut oracle, &cands, start, if already { 0 } else { case.params.iterations }, case.batch_eff(), st.clone(), &rules);
    if e.error.is_some() {
        ctx.discarded += 1;
        return;
    }
    let sequential = case.batch_eff() == 1;
    let f = freq.max(1);
    // On resume the candidates themselves are evaluated again, one call each
    let resumed = from.is_some() as usize;
    let want: Vec<usize> = e.trace.iter().map(|t| t.iter).filter(|i| i % f == 0).collect();
    let got: Vec<usize> = shots.iter().filter_map(|s| s.s2.as_ref().map(|x| x.iter)).collect();
    let last_stop = sequential && e.target_stop && e.trace.last().is_some_and(|t| t.iter % f == 0);
    ctx.check(got == want || (last_stop && got == want[..want.len() - 1]), "callback-iterations", || format!("callbacks at {got:?}, expected {want:?}; {what}"));
    let mut best = st.best().unwrap_or(f64::NAN);
    let mut last: Option<Array1<f64>> = None;
    let mut k = 0;
    let s2shots: Vec<&Shot> = shots.iter().filter(|s| s.s2.is_some()).collect();
    let mut calls = 0;
    let mut improved = 0;
    let mut processed = 0;
    for t in &e.trace {
        processed += 1;
        if let Some(b) = t.after.best() {
            if best.is_nan() || b < best {
                best = b;
            }
        }
        if let Some(a) = t.admit {
            calls += 1;
            if matches!(a, Admit::First | Admit::Added | Admit::Replaced) {
                improved += 1;
            }
            if matches!(a, Admit::Added | Admit::Replaced) {
                last = t.result.as_ref().map(|s| s.point.clone());
            }
        }
        if t.iter % f != 0 || k >= s2shots.len() {
            continue;
        }
        let s = s2shots[k];
        let x = s.s2.as_ref().unwrap();
        k += 1;
        if x.iter != t.iter {
            break;
        }
        ctx.n("stage2_states", 1);
        ctx.check(x.calls == calls, "local-calls", || format!("{} shown, {calls} made at iteration {}; {what}", x.calls, t.iter));
        ctx.check(x.improved == improved, "improved-calls", || format!("{} shown, {improved} expected at iteration {}; {what}", x.improved, t.iter));
        ctx.check(same(x.best, best), "stage2-best", || format!("{} shown, {best} expected at iteration {}; {what}", x.best, t.iter));
        if !best.is_nan() {
            ctx.check(x.point.as_ref().is_some_and(|p| known_best(&st, &e, p, best)), "stage2-best-point", || format!("{:?} for {best}; {what}", x.point));
        }
        ctx.check(x.size == t.after.set.len(), "set-size", || format!("{} shown, {} at iteration {}; {what}", x.size, t.after.set.len(), t.iter));
        ctx.check(same(x.thr, t.before.thr) || same(x.thr, t.after.thr), "threshold", || format!("{} shown, {} before and {} after iteration {}; {what}", x.thr, t.before.thr, t.after.thr, t.iter));
        ctx.check(x.unch == t.before.unch || x.unch == t.after.unch, "unchanged-cycles", || format!("{} shown, {} before and {} after iteration {}; {what}", x.unch, t.before.unch, t.after.unch, t.iter));
        if sequential {
            let n = t.evals + resumed * processed;
            ctx.check(x.evals == n && s.count as usize == st1 + n, "stage2-evaluations", || format!("{} shown, {} made, {n} expected at iteration {}; {what}", x.evals, s.count as usize - st1, t.iter));
        } else {
            ctx.check(x.evals + st1 <= s.count as usize, "stage2-evaluations-ahead", || format!("{} shown, {} made; {what}", x.evals, s.count as usize - st1));
        }
        if let Some(l) = &last {
            ctx.check(x.last.as_ref().map(bits) == Some(bits(l)), "last-added", || format!("{:?} shown, {l} added last at iteration {}; {what}", x.last, t.iter));
        }
    }
    let x = end.s2.as_ref();
    let Some(x) = x else {
        ctx.check(false, "no-stage2", || what.clone());
        return;
    };
    // A target stop in the middle of a batch has made the calls of the whole batch, of which those
    // after the stop are not processed
    let cut = e.per_search.iter().map(|p| p.1).sum::<usize>() - e.trace.last().map_or(0, |t| t.evals);
    ctx.n("searches", calls as u64);
    let made = total - st1;
    ctx.check(x.evals == made || (e.target_stop && x.evals + cut == made), "stage2-final-evaluations", || format!("{} shown, {made} made; {what}", x.evals));
    ctx.check(x.calls == calls && x.improved == improved, "final-calls", || format!("{}/{} shown, {calls}/{improved}; {what}", x.calls, x.improved));
    if !(from.is_some() && e.trace.is_empty()) {
        ctx.check(x.size == run.set.as_ref().unwrap().len(), "final-size", || format!("{} shown, {}; {what}", x.size, run.set.as_ref().unwrap().len()));
        ctx.check(same(x.best, best), "final-best", || format!("{} shown, {best}; {what}", x.best));
    }
    ctx.sample(|| format!("{} callbacks, {calls} searches, {made} Stage 2 evaluations; {what}", shots.len()));
}

/// Is `p` the point of some solution of the run whose objective is `best`?
fn known_best(st: &State, e: &Expect, p: &Array1<f64>, best: f64) -> bool {
    st.set.iter().chain(e.trace.iter().filter_map(|t| t.result.as_ref())).any(|s| s.objective == best && bits(&s.point) == bits(p))
}
fn read_ck(p: &std::path::Path) -> Option<OQNLPCheckpoint> {
    globalsearch::checkpoint::read_checkpoint_file(p).ok()
}
/// Size of the initial population, measured.
pub fn init_count(case: &Case) -> Option<usize> {
    let prob = Prob::new(case.spec.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ss = ScatterSearch::new(prob.clone(), case.params.clone()).ok()?.par(false);
        if let Some(c) = &case.custom {
            ss = ss.with_custom_points(c.clone());
        }
        ss.initialize_reference_set().ok()
    }));
    match r {
        Ok(Some(())) => Some(prob.count() as usize),
        _ => None,
    }
}
fn trial_count(case: &Case) -> Option<usize> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ss = ScatterSearch::new(Prob::silent(&case.spec), case.params.clone()).ok()?.par(false);
        if let Some(c) = &case.custom {
            ss = ss.with_custom_points(c.clone());
        }
        ss.initialize_reference_set().ok()?;
        ss.generate_trial_points().ok().map(|t| t.len())
    }));
    r.ok().flatten()
}

/// A run with the default console callback, for the process that watches its standard error.
pub fn child_console(seed: u64, how: usize, freq: usize, unique: bool) {
    let case = console_case(seed);
    let mut obs = Observer::new().with_stage1_tracking().with_stage2_tracking();
    obs = match how {
        0 => obs.with_default_callback(),
        1 => obs.with_stage1_callback(),
        _ => obs.with_stage2_callback(),
    };
    obs = obs.with_callback_frequency(freq);
    if unique {
        obs = obs.unique_updates();
    }
    let run = exec(&case, None, Some(obs));
    println!("{}", run.out.short());
}
fn console_case(seed: u64) -> Case {
    let mut r = Rng::new(mix(seed, 1515));
    let mut case = Case::generate(seed, &Profile { max_pop: 20, p_constraints: 0.0, sols: vec![Sol::NelderMead, Sol::Cobyla], p_big_pop: 0.0, ..Default::default() });
    if r.chance(0.5) {
        many_searches(&mut case, &mut r);
    }
    case.delay = 0;
    case
}
/// Console output of the built-in callbacks: what is printed is what a recording callback sees.
pub fn c15_console(seed: u64, ctx: &mut Ctx) {
    let Some(me) = ctx.me.clone() else { return };
    let mut r = Rng::new(mix(seed, 151));
    let case = console_case(seed);
    let (how, freq, unique) = (r.below(3), r.pick(&[1usize, 1, 2, 4]), r.chance(0.5));
    let o = std::process::Command::new(me)
        .args(["--prop", "C15", "--scratch"])
        .arg(&ctx.scratch)
        .args(["--child", "console", "--case", &seed.to_string(), "--keep", &format!("{how},{freq},{}", unique as u8)])
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&o.stderr).to_string();
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("[Stage")).collect();
    let rec: Arc<Mutex<Vec<Shot>>> = Default::default();
    let s2 = rec.clone();
    let obs = Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback_frequency(freq).with_callback(move |o| s2.lock().unwrap().push(shot(o, 0, false)));
    let run = exec(&case, None, Some(obs));
    if run.set.is_none() {
        return;
    }
    let mut want: Vec<String> = vec![];
    let co = |p: &Array1<f64>| format!("[{}]", p.iter().map(|v| format!("{v:.6}")).collect::<Vec<_>>().join(", "));
    let mut prev: Option<(String, String)> = None;
    for s in rec.lock().unwrap().iter() {
        if let Some(x) = &s.s1 {
            if how != 2 {
                let at = x.point.as_ref().map_or(String::new(), |p| format!(" at {}", co(p)));
                match x.substage.as_str() {
                    "initialization_complete" => want.push("[Stage 1] Initialization Complete".into()),
                    "diversification_complete" => want.push(format!("[Stage 1] Diversification Complete | Ref. Set Size: {}", x.size)),
                    "intensification_complete" => want.push(format!("[Stage 1] Intensification Complete | Trial Points Generated: {} | Accepted: {}", x.trials, x.size)),
                    "scatter_search_complete" => want.push(format!("[Stage 1] Scatter Search Complete | Best: {:.6}{at}", x.best)),
                    "local_optimization_complete" => want.push(format!("[Stage 1] Local Optimization Complete | Best: {:.6}{at} | Total", x.best)),
                    _ => {}
                }
            }
        }
        if let Some(x) = &s.s2 {
            if how != 1 && x.iter > 0 {
                let at = x.last.as_ref().map_or(String::new(), |p| format!(" at {}", co(p)));
                let key = format!("{:?}", (x.best, x.size, x.thr, x.calls, x.improved, x.evals));
                let line = format!("[Stage 2] Iter {} | Best: {:.6}{at} | Solutions: {} | Threshold: {:.6} | Local Calls: {} | Fn Evals: {}", x.iter, x.best, x.size, x.thr, x.calls, x.evals);
                // Unique updates: an iteration in which nothing changed prints nothing
                if !(unique && how == 0 && prev.as_ref().is_some_and(|p| p.0 == key)) {
                    want.push(line.clone());
                }
                prev = Some((key, line));
            }
        }
    }
    ctx.n("console_lines", lines.len() as u64);
    let ok = lines.len() == want.len() && lines.iter().zip(&want).all(|(a, b)| a.starts_with(b.as_str()));
    ctx.check(ok, "console", || {
        let k = lines.iter().zip(&want).position(|(a, b)| !a.starts_with(b.as_str()));
        format!("callback {how} freq {freq} unique {unique}: {} lines, {} expected; first difference {:?}: {:?} vs {:?}; {}", lines.len(), want.len(), k, k.map(|k| lines[k]), k.map(|k| &want[k]), case.brief())
    });
}

// ---------------------------------------------------------------------------------------- C16
pub fn c16(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 16));
    let mut case = Case::generate(seed, &Profile { p_fault: 0.1, max_pop: 24, ..Default::default() });
    if r.chance(0.6) {
        many_searches(&mut case, &mut r);
    }
    case.max_time = if r.chance(0.2) { Some(1e9) } else { None };
    ctx.classes.insert(case.class());
    let base = exec(&case, None, None);
    if base.out.is_panic() {
        ctx.discarded += 1;
        return;
    }
    let n = if ctx.thorough { 5 } else { 3 };
    for _ in 0..n {
        let mut c = case.clone();
        let mut what = vec![];
        let obs = if r.chance(0.7) {
            let mut o = Observer::new();
            if r.chance(0.7) {
                o = o.with_stage1_tracking();
                what.push("stage 1".to_string());
            }
            if r.chance(0.7) {
                o = o.with_stage2_tracking();
                what.push("stage 2".into());
            }
            let m = r.pick(&[ObserverMode::Both, ObserverMode::Stage1Only, ObserverMode::Stage2Only]);
            o = o.with_mode(m);
            what.push(format!("{m:?}"));
            if r.chance(0.4) {
                o = o.with_timing();
            }
            let f = r.pick(&[1usize, 2, 10, 0]);
            o = o.with_callback_frequency(f);
            match r.below(5) {
                0 => {
                    what.push(format!("default callback {f}"));
                    o = o.with_default_callback();
                    if r.chance(0.5) {
                        o = o.unique_updates();
                    }
                }
                1 => {
                    what.push(format!("stage 1 callback {f}"));
                    o = o.with_stage1_callback();
                }
                2 => {
                    what.push(format!("stage 2 callback {f}"));
                    o = o.with_stage2_callback();
                }
                3 => {
                    what.push(format!("callback {f}"));
                    o = o.with_callback(|o| {
                        std::hint::black_box(o.stage2().map(|s| s.best_objective()));
                    });
                }
                _ => {}
            }
            Some(o)
        } else {
            None
        };
        let t = Tmp::new(&ctx.scratch);
        let ck = if r.chance(0.5) {
            let k = Ckpts { dir: t.0.clone(), freq: r.pick(&[1usize, 2, 3, 7, 0, 1000]), keep_all: r.chance(0.5), auto_resume: r.chance(0.5), name: "p".into() };
            what.push(format!("checkpoints {} {} {}", k.freq, k.keep_all, k.auto_resume));
            Some(k)
        } else {
            None
        };
        if r.chance(0.4) {
            c.verbose = true;
            what.push("verbose".into());
        }
        let run = exec(&c, ck.as_ref(), obs);
        let mut h = Fnv::default();
        h.s(&what.join(","));
        ctx.d("option_sets", h.0);
        ctx.n("twin_runs", 1);
        ctx.check(run.out == base.out, "result", || format!("with {what:?}: {} instead of {}; {}", run.out.short(), base.out.short(), case.brief()));
        if matches!(base.out, Outcome::Ok(_)) {
            if case.parallel {
                ctx.check(bag(&run.evals) == bag(&base.evals), "evaluations", || format!("with {what:?}: {} instead of {}; {}", run.evals.len(), base.evals.len(), case.brief()));
            } else {
                let same = run.evals.iter().map(ev_key).eq(base.evals.iter().map(ev_key));
                ctx.check(same, "evaluation-sequence", || format!("with {what:?}: {} instead of {}; {}", run.evals.len(), base.evals.len(), case.brief()));
            }
            ctx.check((run.grads, run.hess) == (base.grads, base.hess), "derivatives", || format!("with {what:?}; {}", case.brief()));
        }
        ctx.sample(|| format!("{what:?}: {}", run.out.short()));
    }
    if !matches!(base.out, Outcome::Ok(_)) {
        ctx.discarded += 1;
    }
}

// ---------------------------------------------------------------------------------------- C17
pub fn c17(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 17));
    let mut case = Case::generate(seed, &Profile { max_pop: 24, p_target: 0.1, p_constraints: 0.1, ..Default::default() });
    if r.chance(0.6) {
        many_searches(&mut case, &mut r);
    }
    ctx.classes.insert(case.class());
    // The undisturbed run tells where the calls fall
    let base = exec(&case, None, None);
    if base.out.is_panic() {
        ctx.check(false, "panic-undisturbed", || format!("{}; {}", base.out.short(), case.brief()));
        return;
    }
    let grad_solver = !matches!(case.sol, Sol::NelderMead | Sol::Cobyla);
    let hess_solver = matches!(case.sol, Sol::Trust | Sol::Newton);
    let base_ok = matches!(base.out, Outcome::Ok(_));
    let n0 = init_count(&case);
    let (s1, _) = run_stage1(&case, case.parallel, case.threads);
    let n1 = s1.as_ref().ok().map(|s| s.evals.len());
    let total = base.evals.len();
    let s = r.pick(&[-1.0, 1.0]);
    let t = r.fr(-1.0, 0.95);
    let pick = |r: &mut Rng, lo: usize, hi: usize| if hi > lo { lo + r.below(hi - lo) } else { lo };
    let fault = match r.below(23) {
        0 | 1 => Fault::ErrAt(pick(&mut r, 0, n0.unwrap_or(1)) as u64),
        2 | 3 => Fault::ErrAt(pick(&mut r, n0.unwrap_or(0), n1.unwrap_or(1)) as u64),
        4 | 5 => Fault::ErrAt(pick(&mut r, n1.unwrap_or(0), total) as u64),
        6 => Fault::ErrEvery(r.range(1, 60) as u64),
        7 => Fault::ErrRegion(s, t),
        8 | 9 => Fault::NanRegion(s, t),
        10 => Fault::NegNanRegion(s, t),
        11 | 12 => Fault::InfRegion(s, t),
        13 => Fault::NegInfRegion(s, t),
        14 => Fault::GradErrAt(r.below(base.grads as usize + 2) as u64),
        15 => Fault::HessErrAt(r.below(base.hess as usize + 2) as u64),
        16 => Fault::GradErrRegion(s, t),
        17 => Fault::GradNanRegion(s, t),
        20..=22 => Fault::GradNanOne(s, t, r.below(case.spec.dim())),
        18 => r.pick(&[Fault::NoGrad, Fault::NoHess]),
        _ => r.pick(&[Fault::AllNan, Fault::AllInf, Fault::AllErr]),
    };
    // The Newton-type solvers of the dependency never end on such data
    let fault = match fault {
        Fault::GradNanRegion(..) | Fault::GradNanOne(..) | Fault::AllInf | Fault::AllNan if hess_solver => Fault::GradErrRegion(s, t),
        Fault::NegInfRegion(..) if hess_solver => Fault::ErrRegion(s, t),
        f => f,
    };
    let mut c = case.clone();
    c.spec.fault = fault.clone();
    let obs = r.chance(0.3).then(|| Observer::new().with_stage1_tracking().with_stage2_tracking());
    let run = {
        let tmp = Tmp::new(&ctx.scratch);
        exec(&c, Some(&Ckpts::trace(&tmp.0)), obs)
    };
    let what = format!("{fault:?} (initial {n0:?}, Stage 1 {n1:?}, total {total}, gradients {}); {}", base.grads, c.brief());
    ctx.n(&format!("fault_{}", format!("{fault:?}").split('(').next().unwrap()), 1);
    ctx.n(match &run.out { Outcome::Ok(_) => "ended_with_solutions", Outcome::Err(_) => "ended_with_error", _ => "panicked" }, 1);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {what}", run.out.short()));
        return;
    }
    if let Some(set) = &run.set {
        let bad = set.solutions().any(|s| s.objective.is_nan() || s.point.iter().any(|v| v.is_nan()));
        ctx.check(!bad && set.len() > 0, "nan-returned", || format!("{:?}; {what}", set_bits(set)));
    }
    let failed_stage1 = matches!(&run.out, Outcome::Err(e) if e.starts_with("ScatterSearch"));
    let is_err = matches!(run.out, Outcome::Err(_));
    match (&fault, base_ok, n0, n1) {
        (Fault::ErrAt(k), _, Some(n0), Some(n1)) => {
            let k = *k as usize;
            if k < n0 {
                ctx.check(failed_stage1, "initial-error-swallowed", || format!("{}; {what}", run.out.short()));
            } else if k < n1 {
                ctx.check(!failed_stage1, "trial-error-fatal", || format!("{}; {what}", run.out.short()));
                // the point that failed takes no part
                if let Some(p) = run.evals.iter().find(|e| e.value.is_err()) {
                    let elsewhere = run.evals.iter().filter(|e| bits(&e.point) == bits(&p.point)).count() > 1;
                    if let (false, Some(ck)) = (elsewhere, run.cks.last()) {
                        ctx.check(!ck.reference_set.iter().any(|q| bits(q) == bits(&p.point)), "failed-point-kept", || format!("{}; {what}", p.point));
                    }
                }
            } else if k < total && base_ok {
                if case.sol == Sol::Cobyla {
                    ctx.check(!is_err || run.out == Outcome::Err("NoFeasibleSolution".into()), "cobyla-error-fatal", || format!("{}; {what}", run.out.short()));
                } else if case.sol != Sol::Lbfgs {
                    // (the dependency's L-BFGS ends its search where the line search failed)
                    ctx.check(is_err, "search-error-swallowed", || format!("{}; {what}", run.out.short()));
                }
            }
        }
        (Fault::GradErrAt(k), true, ..) if *k < base.grads && case.sol != Sol::Lbfgs => {
            ctx.check(is_err, "gradient-error-swallowed", || format!("{}; {what}", run.out.short()));
        }
        (Fault::HessErrAt(k), true, ..) if *k < base.hess => {
            ctx.check(is_err, "hessian-error-swallowed", || format!("{}; {what}", run.out.short()));
        }
        (Fault::NoGrad, true, ..) => {
            if grad_solver {
                ctx.check(is_err || base.grads == 0, "missing-gradient-ignored", || format!("{}; {what}", run.out.short()));
            } else {
                ctx.check(run.out == base.out, "gradient-needed", || format!("{}; {what}", run.out.short()));
            }
        }
        (Fault::NoHess, true, ..) => {
            if hess_solver {
                ctx.check(is_err || base.hess == 0, "missing-hessian-ignored", || format!("{}; {what}", run.out.short()));
            } else {
                ctx.check(run.out == base.out, "hessian-needed", || format!("{}; {what}", run.out.short()));
            }
        }
        (Fault::AllErr, ..) => {
            ctx.check(is_err, "all-errors-ignored", || format!("{}; {what}", run.out.short()));
        }
        (Fault::AllNan, ..) => {
            ctx.check(is_err || run.set.as_ref().is_some_and(|s| s.solutions().all(|s| s.objective == f64::INFINITY)), "all-nan-solved", || format!("{}; {what}", run.out.short()));
        }
        _ => {}
    }
    // A number is never lost to something that is none
    let worst_kind = |v: f64| !(v < f64::INFINITY);
    if !matches!(fault, Fault::ErrAt(_) | Fault::ErrEvery(_) | Fault::GradErrAt(_) | Fault::HessErrAt(_)) {
        let (s1, ev) = run_stage1(&c, c.parallel, c.threads);
        if let Ok(s1) = &s1 {
            let b = c.spec.value(&s1.best).unwrap_or(f64::NAN);
            let have = ev.iter().any(|e| e.value.is_ok_and(|v| v < f64::INFINITY));
            ctx.check(!(have && worst_kind(b)), "stage1-best-not-a-number", || format!("best Stage 1 value {b}; {what}"));
            let good = ev.iter().filter(|e| e.value.is_ok_and(|v| v < f64::INFINITY)).count();
            let bad_kept = s1.refset.iter().filter(|(_, v)| worst_kind(*v)).count();
            let kept_good = s1.refset.len() - bad_kept;
            ctx.check(bad_kept == 0 || kept_good >= good.min(s1.refset.len()), "number-displaced", || format!("{bad_kept} non-numbers kept, {kept_good} of {good} numbers; {what}"));
        }
    }
    if let Some(ck) = run.cks.last() {
        let rules = Rules::of(&c);
        let finite: Vec<f64> = ck.distance_filter_solutions.iter().filter(|s| !c.exclude || rules.inside(&s.point)).map(|s| s.objective).filter(|v| v.is_finite()).collect();
        if !finite.is_empty() && (run.set.is_some() || run.out == Outcome::Err("NoFeasibleSolution".into())) {
            ctx.n("finite_results_followed", 1);
            let b = run.set.as_ref().and_then(|s| s.best_solution().map(|b| b.objective));
            let m = finite.iter().cloned().fold(f64::INFINITY, f64::min);
            ctx.check(b.is_some_and(|b| b < f64::INFINITY && b - rules.tol(b, m) * 1.0000001 <= m), "finite-result-lost", || format!("best returned {b:?}, best found {m}; {what}"));
            let inf = run.set.as_ref().is_some_and(|s| s.solutions().any(|s| s.objective == f64::INFINITY));
            ctx.check(!inf, "infinite-beside-finite", || format!("{:?}; {what}", run.out.short()));
        }
        ctx.check(!ck.merit_threshold.is_nan() || matches!(fault, Fault::InfRegion(..) | Fault::NegInfRegion(..)), "nan-threshold", || format!("{what}"));
        ctx.check(!ck.distance_filter_solutions.iter().any(|s| s.objective.is_nan()), "nan-history", || what.clone());
    }
    ctx.sample(|| format!("{} -> {}", what, run.out.short()));
}

// ---------------------------------------------------------------------------------------- C18
fn nasty(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => f64::MIN_POSITIVE * 0.25,
        6 => f64::MAX,
        7 => -1.0,
        8 => 1e-300,
        _ => r.fr(0.0, 2.0),
    }
}
pub fn c18(seed: u64, ctx: &mut Ctx) {
    match seed % 4 {
        0 => c18_invalid(seed, ctx),
        1 => c18_bounds(seed, ctx),
        _ => c18_extreme(seed, ctx),
    }
}
fn c18_invalid(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 18));
    for _ in 0..20 {
        let case = crate::props_b::small_case(r.u64());
        let mut p = case.params.clone();
        let pops = [0usize, 1, 2, 3, 4, 5, 8, 20];
        p.population_size = r.pick(&pops);
        p.iterations = match r.below(5) {
            0 => p.population_size,
            1 => p.population_size + 1,
            2 => usize::MAX,
            3 => 0,
            _ => r.below(p.population_size + 3),
        };
        if r.chance(0.5) {
            p.threshold_factor = nasty(&mut r);
        }
        if r.chance(0.5) {
            p.distance_factor = nasty(&mut r);
        }
        if r.chance(0.3) {
            p.wait_cycle = r.pick(&[0usize, 1, usize::MAX]);
        }
        let mut bad = vec![];
        if p.population_size <= 3 {
            bad.push("InvalidPopulationSize");
        }
        if p.iterations > p.population_size {
            bad.push("InvalidIterations");
        }
        if p.threshold_factor.is_nan() || p.threshold_factor <= 0.0 {
            bad.push("InvalidThresholdFactor");
        }
        if p.distance_factor.is_nan() || p.distance_factor < 0.0 {
            bad.push("DistanceFilterError");
        }
        let mut h = Fnv::default();
        h.s(&format!("{bad:?} {} {} {} {}", p.population_size, p.iterations, p.threshold_factor, p.distance_factor));
        ctx.classes.insert(h.0);
        let prob = Prob::new(case.spec.clone());
        let res = catch_unwind(AssertUnwindSafe(|| OQNLP::new(prob.clone(), p.clone()).map(|_| ()).map_err(|e| format!("{e:?}"))));
        let what = format!("pop {} iterations {} threshold {} distance {}", p.population_size, p.iterations, p.threshold_factor, p.distance_factor);
        match res {
            Err(_) => {
                ctx.check(false, "panic-new", || what.clone());
            }
            Ok(Ok(())) => {
                ctx.n("accepted", 1);
                ctx.check(bad.is_empty(), "accepted", || format!("{what} accepted, {bad:?} expected"));
            }
            Ok(Err(e)) => {
                ctx.n("rejected", 1);
                ctx.check(bad.iter().any(|b| e.contains(b)), "wrong-rejection", || format!("{what} rejected with {e}, {bad:?} expected"));
            }
        }
        ctx.check(prob.count() == 0, "evaluated", || what.clone());
        // Custom points
        let dim = case.spec.dim();
        let n = r.range(0, 4);
        let cols = if r.chance(0.3) { r.range(0, 5) } else { dim };
        let mut m = Array2::from_shape_fn((n, cols), |(_, j)| {
            let (l, h) = case.spec.bounds[j.min(dim - 1)];
            l + (h - l) * 0.5
        });
        let mut inside = true;
        let mut first_bad = None;
        for i in 0..n {
            for j in 0..cols.min(dim) {
                if r.chance(0.3) {
                    let (l, h) = case.spec.bounds[j];
                    let v = match r.below(8) {
                        0 => l,
                        1 => h,
                        2 => down(l),
                        3 => up(h),
                        4 => f64::NAN,
                        5 => f64::INFINITY,
                        6 => f64::NEG_INFINITY,
                        _ => l + (h - l) * r.f(),
                    };
                    m[[i, j]] = v;
                    if !(v >= l && v <= h) {
                        inside = false;
                        first_bad.get_or_insert(i);
                    }
                }
            }
        }
        let o = OQNLP::new(Prob::new(case.spec.clone()), case.params.clone());
        let Ok(o) = o else { continue };
        let res = catch_unwind(AssertUnwindSafe(|| o.with_points(m.clone()).map(|_| ()).map_err(|e| format!("{e:?}"))));
        let what = format!("{n}x{cols} points {m:?} for bounds {:?}", case.spec.bounds);
        ctx.n("custom_point_sets", 1);
        match res {
            Err(_) => {
                ctx.check(false, "panic-points", || what);
            }
            Ok(Ok(())) => {
                ctx.check(n == 0 || (cols == dim && inside), "points-accepted", || what);
            }
            Ok(Err(e)) => {
                let dimension = e.contains("InvalidCustomPointsDimension");
                ctx.check(n > 0 && ((cols != dim && dimension) || (cols == dim && !inside && e.contains("CustomPointOutOfBounds") && e.contains(&format!("{}", first_bad.unwrap())))), "points-rejected", || format!("{e}: {what}"));
            }
        }
    }
    ctx.sample(|| "parameter table".into());
}
fn up(x: f64) -> f64 {
    if x == 0.0 { f64::from_bits(1) } else if x > 0.0 { f64::from_bits(x.to_bits() + 1) } else { f64::from_bits(x.to_bits() - 1) }
}
fn down(x: f64) -> f64 {
    -up(-x)
}
fn c18_bounds(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 182));
    for _ in 0..10 {
        let mut case = crate::props_b::small_case(r.u64());
        case.custom = None;
        case.exclude = false;
        case.spec.constraints.clear();
        let dim = case.spec.dim();
        let k = r.below(dim);
        let (l, h) = case.spec.bounds[k];
        let b = match r.below(9) {
            0 => (h, l),
            1 => (l, l),
            2 => (f64::NAN, h),
            3 => (l, f64::NAN),
            4 => (f64::NEG_INFINITY, h),
            5 => (l, f64::INFINITY),
            6 => (l, down(l)),
            7 => (0.0, -0.0),
            _ => (l, h),
        };
        case.spec.bounds[k] = b;
        let good = b.0 < b.1 && b.0.is_finite() && b.1.is_finite();
        let mut hsh = Fnv::default();
        hsh.f(b.0).f(b.1).w(k as u64);
        ctx.classes.insert(hsh.0);
        let run = exec(&case, None, None);
        let what = format!("bounds {:?}: {}; {}", case.spec.bounds, run.out.short(), case.brief());
        ctx.n("bounds_sets", 1);
        ctx.check(!run.out.is_panic(), "panic-bounds", || what.clone());
        if !good {
            ctx.check(matches!(&run.out, Outcome::Err(e) if e.starts_with("ScatterSearch")), "bad-bounds-accepted", || what.clone());
            ctx.check(run.evals.is_empty(), "bad-bounds-evaluated", || what.clone());
        } else {
            // (COBYLA may end with an error of its own, such as a round-off limit)
            let fine = matches!(&run.out, Outcome::Ok(_)) || matches!(&run.out, Outcome::Err(e) if e.starts_with("LocalSolver"));
            ctx.check(fine, "good-bounds-rejected", || what.clone());
        }
        // A configuration that belongs to another solver
        let (ty, cfg) = (r.pick(&SOLS), r.pick(&SOLS));
        let mut c2 = crate::props_b::small_case(r.u64());
        c2.params.local_solver_type = ty.ty();
        c2.params.local_solver_config = gen_cfg(&mut r, cfg, c2.spec.dim());
        if ty != cfg {
            c2.spec.newton_guard = true;
            let res = catch_unwind(AssertUnwindSafe(|| {
                LocalSolver::new(Prob::new(c2.spec.clone()), ty.ty(), c2.params.local_solver_config.clone()).solve(rand_point(&mut Rng::new(seed), &c2.spec.bounds)).map(|_| ()).map_err(|e| format!("{e:?}"))
            }));
            let want = match ty {
                Sol::Lbfgs => "InvalidLBFGSConfig",
                Sol::NelderMead => "InvalidNelderMeadConfig",
                Sol::Steepest => "InvalidSteepestDescentConfig",
                Sol::Trust => "InvalidTrustRegionConfig",
                Sol::Newton => "InvalidNewtonCG",
                Sol::Cobyla => "InvalidCOBYLAConfig",
            };
            ctx.n("foreign_configurations", 1);
            ctx.check(matches!(&res, Ok(Err(e)) if e.contains(want)), "foreign-configuration", || format!("{ty:?} with the configuration of {cfg:?}: {res:?}"));
            let run = exec(&c2, None, None);
            ctx.check(matches!(&run.out, Outcome::Err(e) if e.contains("LocalSolver")), "foreign-configuration-run", || format!("{ty:?} with the configuration of {cfg:?}: {}", run.out.short()));
        }
    }
    ctx.sample(|| "bounds and foreign configurations".into());
}
/// Does the solver dependency reject these values? (documented ranges, read off the builders' docs)
fn c18_extreme(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 183));
    let mut case = Case::generate(seed, &Profile { max_pop: 14, p_big_pop: 0.02, p_fault: 0.05, ..Default::default() });
    // Extremes of everything an optimizer accepts
    for _ in 0..r.range(1, 4) {
        match r.below(12) {
            0 => case.params.wait_cycle = r.pick(&[0usize, usize::MAX, 1]),
            1 => case.params.threshold_factor = r.pick(&[f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, 1e-320]),
            2 => case.params.distance_factor = r.pick(&[0.0, -0.0, f64::MAX, f64::INFINITY, 1e-320]),
            3 => case.params.seed = r.pick(&[0u64, u64::MAX]),
            4 => case.params.iterations = r.pick(&[0usize, 1, case.params.population_size]),
            5 => {
                case.params.population_size = r.pick(&[4usize, 5, 6]);
                case.params.iterations = case.params.iterations.min(case.params.population_size);
            }
            6 => case.target = Some(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 0.0])),
            7 => case.tol = Some((nasty(&mut r), nasty(&mut r))),
            8 => case.max_time = Some(r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e300, f64::NEG_INFINITY])),
            9 => {
                case.parallel = true;
                case.batch = Some(r.pick(&[0usize, 1, usize::MAX, usize::MAX / 2, 3]));
            }
            10 => {
                let k = r.below(case.spec.dim());
                case.custom = None;
                case.spec.constraints.clear();
                case.spec.bounds[k] = r.pick(&[
                    (-1e300, 1e300),
                    (-f64::MAX / 4.0, f64::MAX / 4.0),
                    (0.0, f64::from_bits(1)),
                    (1.0, 1.0 + f64::EPSILON),
                    (-1e-300, 1e-300),
                    (1e15, 1e15 + 1.0),
                    (-0.0, 1e-308),
                    (-5e-324, 5e-324),
                ]);
                // curvature extremes belong to the solver dependency's Newton loops
                if case.sol != Sol::NelderMead {
                    case.sol = Sol::NelderMead;
                    case.params.local_solver_type = case.sol.ty();
                    case.params.local_solver_config = gen_cfg(&mut r, case.sol, case.spec.dim());
                }
            }
            _ => {
                // Arbitrary numbers as solver parameters (iteration limits kept small)
                let s = r.pick(&[Sol::NelderMead, Sol::Cobyla, Sol::Lbfgs, Sol::Steepest]);
                let mut cfg = wild_cfg(&mut r, s);
                // COBYLA's trust region shrinks geometrically from its first step, and never ends from an
                // absurd one: that part belongs to the solver dependency
                if let LocalSolverConfig::COBYLA { initial_step_size, .. } = &mut cfg {
                    *initial_step_size = r.pick(&[0.01, 0.5, 3.0]);
                }
                match &mut cfg {
                    LocalSolverConfig::LBFGS { max_iter, history_size, .. } => {
                        *max_iter = r.below(20) as u64;
                        *history_size = r.below(20);
                    }
                    LocalSolverConfig::NelderMead { max_iter, .. }
                    | LocalSolverConfig::SteepestDescent { max_iter, .. }
                    | LocalSolverConfig::TrustRegion { max_iter, .. }
                    | LocalSolverConfig::NewtonCG { max_iter, .. }
                    | LocalSolverConfig::COBYLA { max_iter, .. } => *max_iter = r.below(20) as u64,
                }
                case.sol = s;
                case.spec.newton_guard = false;
                case.params.local_solver_type = s.ty();
                case.params.local_solver_config = cfg;
                ctx.n("wild_solver_parameters", 1);
            }
        }
    }
    ctx.classes.insert(mix(case.class(), case.params.threshold_factor.to_bits() ^ case.params.distance_factor.to_bits()));
    let t = Tmp::new(&ctx.scratch);
    let ck = r.chance(0.3).then(|| Ckpts { dir: t.0.clone(), freq: r.pick(&[0usize, 1, usize::MAX]), keep_all: r.chance(0.5), auto_resume: r.chance(0.5), name: r.pick(&["x", "a b", "ü_1"]).to_string() });
    let obs = r.chance(0.3).then(|| Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback_frequency(r.pick(&[0usize, 1, usize::MAX])).with_callback(|_| {}));
    let run = exec(&case, ck.as_ref(), obs);
    ctx.n(match &run.out { Outcome::Ok(_) => "runs_ok", Outcome::Err(_) => "runs_err", _ => "runs_panicked" }, 1);
    ctx.check(!run.out.is_panic(), "panic", || format!("{}; {} {}", run.out.short(), case.brief(), params_str(&case.params)));
    if let Some(set) = &run.set {
        ctx.check(!set.is_empty() && set.solutions().all(|s| s.point.len() == case.spec.dim()), "malformed", || case.brief());
    }
    let _ = wild;
    ctx.sample(|| format!("{} -> {}", case.brief(), run.out.short()));
}

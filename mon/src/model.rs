//! Reference model of Stage 2 (written from the documentation, not from the code), and helpers to
//! obtain the Stage 1 population and the local search results it is fed with through the public API.
#![allow(dead_code)]
use crate::case::*;
use crate::prob::*;
use crate::util::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use ndarray::Array1;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone)]
pub struct Stage1 {
    pub refset: Vec<(Array1<f64>, f64)>,
    pub best: Array1<f64>,
    pub evals: Vec<Eval>,
}

pub fn run_stage1(case: &Case, parallel: bool, threads: usize) -> (Result<Stage1, String>, Vec<Eval>) {
    let prob = Prob::new(case.spec.clone());
    let prob = if case.delay > 0 { prob.with_delays(case.seed | 1, case.delay) } else { prob };
    let p2 = prob.clone();
    let params = case.params.clone();
    let custom = case.custom.clone();
    let r = on_pool(threads, move || {
        catch_unwind(AssertUnwindSafe(|| {
            let mut ss = ScatterSearch::new(p2, params).map_err(|e| format!("{e:?}"))?.par(parallel);
            if let Some(c) = custom {
                ss = ss.with_custom_points(c);
            }
            ss.run().map_err(|e| format!("{e:?}"))
        }))
    });
    let evals = prob.take_log().evals;
    let out = match r {
        Ok(Ok((refset, best))) => Ok(Stage1 { refset, best, evals: evals.clone() }),
        Ok(Err(e)) => Err(e),
        Err(e) => Err(format!("PANIC {}", panic_text(e))),
    };
    (out, evals)
}

#[derive(Clone)]
pub struct Local {
    pub res: Result<LocalSolution, String>,
    pub evals: Vec<Eval>,
    pub grads: u64,
}

/// Local searches performed one at a time, away from the run under observation.
pub struct LocalOracle<'a> {
    pub spec: &'a Spec,
    pub ty: LocalSolverType,
    pub cfg: globalsearch::local_solver::builders::LocalSolverConfig,
    cache: HashMap<Vec<u64>, Local>,
}
impl<'a> LocalOracle<'a> {
    pub fn new(case: &'a Case) -> Self {
        Self::with(&case.spec, &case.params)
    }
    pub fn with(spec: &'a Spec, p: &OQNLPParams) -> Self {
        LocalOracle {
            spec,
            ty: p.local_solver_type.clone(),
            cfg: p.local_solver_config.clone(),
            cache: HashMap::new(),
        }
    }
    pub fn solve(&mut self, x: &Array1<f64>) -> Local {
        let k = bits(x);
        if let Some(l) = self.cache.get(&k) {
            return l.clone();
        }
        let prob = Prob::new(self.spec.clone());
        let p2 = prob.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            LocalSolver::new(p2, self.ty.clone(), self.cfg.clone()).solve(x.clone())
        }));
        let res = match r {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(e) => Err(format!("PANIC {}", panic_text(e))),
        };
        let l = Local { res, grads: prob.0.n_grad.load(std::sync::atomic::Ordering::SeqCst), evals: prob.take_log().evals };
        self.cache.insert(k, l.clone());
        l
    }
}

#[derive(Clone, Debug)]
pub struct Rules {
    pub wait: usize,
    pub tf: f64,
    pub df: f64,
    pub abs: f64,
    pub rel: f64,
    pub exclude: bool,
    pub target: Option<f64>,
    pub bounds: Vec<(f64, f64)>,
}
impl Rules {
    pub fn of(case: &Case) -> Self {
        Rules {
            wait: case.params.wait_cycle,
            tf: case.params.threshold_factor,
            df: case.params.distance_factor,
            abs: case.abs_tol(),
            rel: case.rel_tol(),
            exclude: case.exclude,
            target: case.target,
            bounds: case.spec.bounds.clone(),
        }
    }
    pub fn inside(&self, p: &Array1<f64>) -> bool {
        p.iter().zip(&self.bounds).all(|(v, (l, h))| *v >= *l && *v <= *h)
    }
    pub fn tol(&self, a: f64, b: f64) -> f64 {
        if a.is_finite() && b.is_finite() { self.abs.max(self.rel * a.abs().max(b.abs())) } else { 0.0 }
    }
}

#[derive(Clone, Debug)]
pub struct State {
    pub thr: f64,
    pub unch: usize,
    pub set: Vec<LocalSolution>,
    pub hist: Vec<LocalSolution>,
    pub improved: usize,
    pub calls: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Admit {
    Rejected,
    First,
    Replaced,
    Added,
    OutOfBounds,
    Nan,
}

impl State {
    pub fn new() -> Self {
        State { thr: f64::INFINITY, unch: 0, set: vec![], hist: vec![], improved: 0, calls: 0 }
    }
    /// The admission rule of the solution set.
    pub fn admit(&mut self, s: &LocalSolution, r: &Rules) -> Admit {
        if s.objective.is_nan() || s.point.iter().any(|v| v.is_nan()) {
            return Admit::Nan;
        }
        let out = if r.exclude && !r.inside(&s.point) {
            Admit::OutOfBounds
        } else if self.set.is_empty() {
            self.set.push(s.clone());
            self.thr = s.objective;
            Admit::First
        } else {
            let first = self.set[0].objective;
            let t = r.tol(s.objective, first);
            if s.objective < first - t {
                self.set = vec![s.clone()];
                self.thr = s.objective;
                Admit::Replaced
            } else if (s.objective - first).abs() <= t
                && !self.set.iter().any(|m| d2(&s.point, &m.point) < r.df * r.df)
            {
                self.set.push(s.clone());
                Admit::Added
            } else {
                Admit::Rejected
            }
        };
        self.hist.push(s.clone());
        out
    }
    pub fn best(&self) -> Option<f64> {
        self.set.iter().map(|s| s.objective).min_by(|a, b| a.total_cmp(b))
    }
    pub fn target_hit(&self, r: &Rules) -> bool {
        match (r.target, self.best()) {
            (Some(t), Some(b)) => b <= t,
            _ => false,
        }
    }
    pub fn passes(&self, p: &Array1<f64>, obj: f64, r: &Rules) -> bool {
        obj <= self.thr && self.hist.iter().all(|h| d2(p, &h.point) > r.df * r.df)
    }
    pub fn reject(&mut self, r: &Rules) {
        self.unch += 1;
        if self.unch >= r.wait {
            self.thr += r.tf * (1.0 + self.thr.abs());
            self.unch = 0;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub completed: usize,
    pub st: State,
}

pub struct Expect {
    pub snaps: Vec<Snap>,
    pub searched: Vec<usize>,
    /// expected local search evaluations, in order of the searched candidates
    pub evals: Vec<Eval>,
    pub error: Option<String>,
    pub target_stop: bool,
    pub final_state: State,
    pub completed: usize,
    /// (objective calls) per searched candidate
    pub per_search: Vec<(usize, usize)>,
    pub oob: usize,
    /// (candidate, how its result was admitted), in order of admission
    pub admitted: Vec<(usize, Admit)>,
    /// batch mode: order in which iterations are reported
    pub order: Vec<usize>,
    /// per processed candidate, in the order of processing
    pub trace: Vec<Step>,
}
#[derive(Clone)]
pub struct Step {
    pub iter: usize,
    pub before: State,
    pub after: State,
    /// objective calls of the searches processed up to and including this candidate
    pub evals: usize,
    pub admit: Option<Admit>,
    pub result: Option<LocalSolution>,
}

/// Process candidates `start..end` of `cands` (already in run order).
pub fn model(
    oracle: &mut LocalOracle,
    cands: &[(Array1<f64>, f64)],
    start: usize,
    iterations: usize,
    batch: usize,
    mut st: State,
    r: &Rules,
) -> Expect {
    let end = iterations.min(cands.len());
    let mut e = Expect {
        snaps: vec![Snap { completed: start, st: st.clone() }],
        searched: vec![],
        evals: vec![],
        error: None,
        target_stop: false,
        final_state: State::new(),
        completed: start,
        per_search: vec![],
        oob: 0,
        admitted: vec![],
        order: vec![],
        trace: vec![],
    };
    let mut done_evals = 0;
    let mut i = start;
    'run: while i < end {
        let hi = (i + batch.max(1)).min(end);
        let (pass, fail): (Vec<usize>, Vec<usize>) =
            (i..hi).partition(|k| st.passes(&cands[*k].0, cands[*k].1, r));
        for k in fail {
            let before = st.clone();
            st.reject(r);
            e.trace.push(Step { iter: k, before, after: st.clone(), evals: done_evals, admit: None, result: None });
            e.order.push(k);
        }
        let results: Vec<(usize, Local)> = pass.iter().map(|k| (*k, oracle.solve(&cands[*k].0))).collect();
        for (k, l) in &results {
            e.evals.extend(l.evals.iter().cloned());
            e.searched.push(*k);
            e.per_search.push((*k, l.evals.len()));
        }
        if let Some((_, l)) = results.iter().find(|(_, l)| l.res.is_err()) {
            e.error = Some(l.res.clone().err().unwrap());
            break 'run;
        }
        for (k, l) in &results {
            let s = l.res.clone().unwrap();
            let before = st.clone();
            st.thr = cands[*k].1;
            st.calls += 1;
            let b0 = st.best();
            let a = st.admit(&s, r);
            if matches!(a, Admit::First | Admit::Added | Admit::Replaced) || st.best() != b0 {
                st.improved += 1;
            }
            if a == Admit::OutOfBounds {
                e.oob += 1;
            }
            e.admitted.push((*k, a));
            done_evals += l.evals.len();
            e.trace.push(Step { iter: *k, before, after: st.clone(), evals: done_evals, admit: Some(a), result: Some(s.clone()) });
            e.order.push(*k);
            if st.target_hit(r) {
                e.target_stop = true;
                break;
            }
        }
        e.completed = hi;
        e.snaps.push(Snap { completed: hi, st: st.clone() });
        if e.target_stop {
            break;
        }
        i = hi;
    }
    e.final_state = st;
    e
}

/// The state after Stage 1: the local search from the best Stage 1 point has been admitted.
pub fn after_stage1(oracle: &mut LocalOracle, best: &Array1<f64>, r: &Rules) -> (Result<State, String>, Local) {
    let l = oracle.solve(best);
    let st = match &l.res {
        Ok(s) => {
            let mut st = State::new();
            if !s.objective.is_nan() {
                st.thr = s.objective;
            }
            st.admit(s, r);
            Ok(st)
        }
        Err(e) => Err(e.clone()),
    };
    (st, l)
}

pub fn sols_bits(v: &[LocalSolution]) -> Vec<(Vec<u64>, u64)> {
    v.iter().map(|s| (bits(&s.point), s.objective.to_bits())).collect()
}

/// Fold of the admission rule over a history of local search results.
pub fn fold_history(hist: &[LocalSolution], r: &Rules) -> State {
    let mut st = State::new();
    for h in hist {
        st.admit(h, r);
    }
    st
}

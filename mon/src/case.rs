//! Random optimization cases and the monitored execution of one of them.
#![allow(dead_code)]
use crate::prob::*;
use crate::util::*;
use globalsearch::checkpoint::read_checkpoint_file;
use globalsearch::local_solver::builders::*;
use globalsearch::observers::Observer;
use globalsearch::oqnlp::{OQNLP, OQNLPError};
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sol {
    Lbfgs,
    NelderMead,
    Steepest,
    Trust,
    Newton,
    Cobyla,
}
pub const SOLS: [Sol; 6] =
    [Sol::Lbfgs, Sol::NelderMead, Sol::Steepest, Sol::Trust, Sol::Newton, Sol::Cobyla];

impl Sol {
    pub fn ty(self) -> LocalSolverType {
        match self {
            Sol::Lbfgs => LocalSolverType::LBFGS,
            Sol::NelderMead => LocalSolverType::NelderMead,
            Sol::Steepest => LocalSolverType::SteepestDescent,
            Sol::Trust => LocalSolverType::TrustRegion,
            Sol::Newton => LocalSolverType::NewtonCG,
            Sol::Cobyla => LocalSolverType::COBYLA,
        }
    }
}

pub fn gen_ls(r: &mut Rng) -> LineSearchParams {
    if r.chance(0.7) {
        let c1 = r.pick(&[1e-4, 1e-3, 0.05, 0.2]);
        LineSearchParams {
            method: LineSearchMethod::MoreThuente {
                c1,
                c2: r.pick(&[0.9, 0.5, 0.3]),
                width_tolerance: r.pick(&[1e-10, 1e-6, 1e-3]),
                bounds: r.pick(&[
                    ndarray::array![1e-8, f64::INFINITY],
                    ndarray::array![1e-10, 10.0],
                    ndarray::array![1e-4, 1.0],
                ]),
            },
        }
    } else {
        LineSearchParams {
            method: LineSearchMethod::HagerZhang {
                delta: r.pick(&[0.1, 0.05, 0.3]),
                sigma: r.pick(&[0.9, 0.5]),
                epsilon: r.pick(&[1e-6, 1e-4, 1e-9]),
                theta: r.pick(&[0.5, 0.3, 0.7]),
                gamma: r.pick(&[0.66, 0.5, 0.9]),
                eta: r.pick(&[0.01, 0.1]),
                bounds: r.pick(&[ndarray::array![1e-8, 1e5], ndarray::array![1e-5, 5.0]]),
            },
        }
    }
}

/// A valid configuration of the given solver with a small budget.
pub fn gen_cfg(r: &mut Rng, sol: Sol, dim: usize) -> LocalSolverConfig {
    let max_iter = r.pick(&[1u64, 3, 10, 30, 60]);
    match sol {
        Sol::Lbfgs => LocalSolverConfig::LBFGS {
            max_iter,
            tolerance_grad: r.pick(&[1e-8, 1e-4, 1e-2]),
            tolerance_cost: r.pick(&[1e-16, 1e-8, 1e-3]),
            history_size: r.pick(&[1usize, 3, 10]),
            l1_coefficient: None,
            line_search_params: gen_ls(r),
        },
        Sol::NelderMead => LocalSolverConfig::NelderMead {
            simplex_delta: r.pick(&[0.1, 0.01, 0.5, 1.0]),
            sd_tolerance: r.pick(&[f64::EPSILON, 1e-8, 1e-4]),
            max_iter,
            alpha: r.pick(&[1.0, 0.8, 1.2]),
            gamma: r.pick(&[2.0, 1.5, 2.5]),
            rho: r.pick(&[0.5, 0.4]),
            sigma: r.pick(&[0.5, 0.6]),
        },
        Sol::Steepest => LocalSolverConfig::SteepestDescent {
            max_iter,
            line_search_params: gen_ls(r),
        },
        Sol::Trust => LocalSolverConfig::TrustRegion {
            trust_region_radius_method: if r.chance(0.5) {
                TrustRegionRadiusMethod::Cauchy
            } else {
                TrustRegionRadiusMethod::Steihaug
            },
            max_iter,
            radius: r.pick(&[0.1, 0.5, 1.0]),
            max_radius: r.pick(&[2.0, 10.0, 100.0]),
            eta: r.pick(&[0.125, 0.05, 0.2]),
        },
        Sol::Newton => LocalSolverConfig::NewtonCG {
            max_iter,
            curvature_threshold: r.pick(&[0.0, 1e-6, 0.1]),
            tolerance: r.pick(&[f64::EPSILON, 1e-8, 1e-3]),
            line_search_params: gen_ls(r),
        },
        Sol::Cobyla => LocalSolverConfig::COBYLA {
            max_iter: r.pick(&[5u64, 20, 60, 150]),
            initial_step_size: r.pick(&[0.5, 0.1, 1.0]),
            ftol_rel: r.pick(&[1e-6, 1e-3, 0.0]),
            ftol_abs: r.pick(&[1e-8, 0.0, 1e-3]),
            xtol_rel: r.pick(&[0.0, 1e-6, 1e-3]),
            xtol_abs: if r.chance(0.7) {
                vec![]
            } else {
                (0..dim).map(|_| r.pick(&[1e-8, 1e-4])).collect()
            },
        },
    }
}

pub fn set_max_iter(cfg: &mut LocalSolverConfig, n: u64) {
    match cfg {
        LocalSolverConfig::LBFGS { max_iter, .. }
        | LocalSolverConfig::NelderMead { max_iter, .. }
        | LocalSolverConfig::SteepestDescent { max_iter, .. }
        | LocalSolverConfig::TrustRegion { max_iter, .. }
        | LocalSolverConfig::NewtonCG { max_iter, .. }
        | LocalSolverConfig::COBYLA { max_iter, .. } => *max_iter = n,
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub seed: u64,
    pub spec: Spec,
    pub sol: Sol,
    pub params: OQNLPParams,
    pub parallel: bool,
    pub batch: Option<usize>,
    pub threads: usize,
    pub target: Option<f64>,
    pub tol: Option<(f64, f64)>,
    pub exclude: bool,
    pub custom: Option<Vec<Array1<f64>>>,
    pub max_time: Option<f64>,
    pub delay: u64,
    pub verbose: bool,
}

/// What kind of cases a property wants.
#[derive(Clone)]
pub struct Profile {
    pub kinds: Vec<Kind>,
    pub sols: Vec<Sol>,
    pub max_dim: usize,
    pub max_pop: usize,
    pub p_parallel: f64,
    pub p_constraints: f64,
    pub p_target: f64,
    pub p_custom: f64,
    pub p_exclude: f64,
    pub p_big_pop: f64,
    pub p_fault: f64,
    pub p_delay: f64,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            kinds: KINDS.to_vec(),
            sols: SOLS.to_vec(),
            max_dim: 4,
            max_pop: 26,
            p_parallel: 0.5,
            p_constraints: 0.15,
            p_target: 0.2,
            p_custom: 0.3,
            p_exclude: 0.3,
            p_big_pop: 0.1,
            p_fault: 0.0,
            p_delay: 0.3,
        }
    }
}

pub fn rand_point(r: &mut Rng, b: &[(f64, f64)]) -> Array1<f64> {
    Array1::from_iter(b.iter().map(|(l, h)| (l + (h - l) * r.f()).clamp(*l, *h)))
}

pub fn gen_constraints(r: &mut Rng) -> Vec<usize> {
    let n = r.pick(&[1usize, 1, 2, 3]);
    let mut v: Vec<usize> = (0..n).map(|_| r.below(10)).collect();
    if r.chance(0.12) {
        // A long list whose last members decide
        for _ in 0..r.range(3, 8) {
            v.insert(0, r.pick(&[8usize, 9]));
        }
    }
    v
}

pub fn gen_fault(r: &mut Rng) -> Fault {
    let s = r.pick(&[-1.0, 1.0]);
    let t = r.fr(-0.6, 0.9);
    match r.below(5) {
        0 => Fault::NanRegion(s, t),
        1 => Fault::NegNanRegion(s, t),
        2 => Fault::InfRegion(s, t),
        3 => Fault::NegInfRegion(s, t),
        _ => Fault::ErrRegion(s, t),
    }
}

/// Solver and line search of the case generated last (diagnostics only).
pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

impl Case {
    pub fn generate(seed: u64, pf: &Profile) -> Case {
        let mut r = Rng::new(seed);
        let r = &mut r;
        // Unusual sizes, drawn from a stream of their own
        let mut t = Rng::new(mix(seed, 4242));
        let mut dim = r.range(1, pf.max_dim);
        if pf.max_dim >= 4 && t.chance(0.04) {
            dim = t.range(5, 16);
        }
        let mut spec = gen_spec(r, dim, &pf.kinds);
        if r.chance(pf.p_constraints) {
            spec.bounds = (0..dim).map(|_| r.pick(&[(-3.0, 3.0), (-1.0, 4.0), (-5.0, 2.5)])).collect();
            // Half-spaces and shapes that leave room; "never" only rarely
            spec.constraints = gen_constraints(r);
            if r.chance(0.03) {
                spec.constraints.push(10);
            }
        }
        if r.chance(pf.p_fault) {
            spec.fault = gen_fault(r);
        }
        let pop = if pf.p_big_pop > 0.0 && t.chance(0.003 + 0.03 * pf.p_big_pop) {
            t.range(141, 400)
        } else if r.chance(pf.p_big_pop) {
            r.range(21, 140)
        } else {
            r.range(4, pf.max_pop.max(4))
        };
        let iterations = match r.below(6) {
            0 => pop,
            1 => r.range(0, 2.min(pop)),
            2 => r.range(0, pop),
            _ => r.range(pop / 2, pop),
        };
        let mut sol = r.pick(&pf.sols);
        if sol == Sol::Newton && pf.sols.contains(&Sol::Lbfgs) && !spec.tame_scaling() {
            sol = Sol::Lbfgs;
        }
        let mut cfg = gen_cfg(r, sol, dim);
        spec.newton_guard = matches!(sol, Sol::Newton | Sol::Trust);
        // Steihaug's inner loop (solver dependency) has an absolute stopping tolerance and never ends
        // on badly scaled data, so it is kept for well-scaled quadratics
        if let LocalSolverConfig::TrustRegion { trust_region_radius_method, .. } = &mut cfg {
            let d = spec.hess(&rand_point(r, &spec.bounds));
            let tame = spec.kind == Kind::Sphere && (0..dim).all(|i| (1e-2..1e2).contains(&d[[i, i]]));
            if !tame {
                *trust_region_radius_method = TrustRegionRadiusMethod::Cauchy;
            }
        }
        *LAST.lock().unwrap() = format!("{:?} {:?} {:?} {}", spec.kind, spec.fault, spec.constraints, cfg_str(&cfg));
        let width = spec.bounds.iter().map(|(l, h)| h - l).fold(0.0, f64::max);
        if t.chance(0.05) {
            set_max_iter(&mut cfg, t.pick(&[2, 200, 400]));
        }
        let mut params = OQNLPParams {
            iterations,
            population_size: pop,
            wait_cycle: r.pick(&[0usize, 1, 2, 3, 5, 15]),
            threshold_factor: r.pick(&[0.2, 0.05, 0.5, 1.0, 3.0]),
            distance_factor: r.pick(&[0.0, 0.02, 0.1, 0.3, 0.75]) * if r.chance(0.5) { width } else { 1.0 },
            local_solver_type: sol.ty(),
            local_solver_config: cfg,
            seed: if r.chance(0.05) { u64::MAX - r.u64() % 4 } else { r.u64() },
        };
        if t.chance(0.03) {
            params.wait_cycle = t.pick(&[4, 8, 40]);
        }
        if t.chance(0.03) {
            params.threshold_factor = t.pick(&[1e-9, 1e-3, 50.0]);
        }
        if t.chance(0.02) {
            params.seed = t.pick(&[0, 1, 1 << 63]);
        }
        let parallel = r.chance(pf.p_parallel) && PAR;
        let batch = if parallel {
            Some(r.pick(&[1usize, 2, 3, 4, 5, 8, 0, 1000]))
        } else if r.chance(0.2) {
            Some(r.range(0, 6))
        } else {
            None
        };
        let mut target = None;
        if r.chance(pf.p_target) {
            // Somewhere inside the range of values the function takes
            let vals: Vec<f64> = (0..20)
                .map(|_| spec.pure(&rand_point(r, &spec.bounds)))
                .filter(|v| v.is_finite())
                .collect();
            let lo = vals.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            target = Some(match r.below(4) {
                0 => lo - 0.5 * (hi - lo),
                1 => lo - 0.1 * (hi - lo),
                2 => f64::NEG_INFINITY,
                _ => lo,
            });
        }
        let tol = if r.chance(0.5) {
            None
        } else {
            Some((r.pick(&[0.0, 1e-8, 1e-4, 0.1, 1.0]), r.pick(&[0.0, 1e-6, 1e-3, 0.1])))
        };
        let custom = if r.chance(pf.p_custom) {
            let n = if r.chance(0.1) { r.range(90, 120) } else { r.range(0, 6) };
            let mut v: Vec<Array1<f64>> = (0..n).map(|_| rand_point(r, &spec.bounds)).collect();
            if n > 1 && r.chance(0.3) {
                v[1] = v[0].clone();
            }
            if n > 0 && r.chance(0.2) {
                let k = r.below(n);
                v[k] = Array1::from_iter(spec.bounds.iter().map(|b| b.1));
            }
            Some(v)
        } else {
            None
        };
        Case {
            seed,
            sol,
            params,
            parallel,
            batch,
            threads: r.pick(&[1usize, 2, 3, 4, 8]),
            target,
            tol,
            exclude: r.chance(pf.p_exclude),
            custom,
            max_time: None,
            delay: if r.chance(pf.p_delay) { 200 } else { 0 },
            verbose: false,
            spec,
        }
    }
    pub fn abs_tol(&self) -> f64 {
        self.tol.map_or(1e-8, |t| t.0)
    }
    pub fn rel_tol(&self) -> f64 {
        self.tol.map_or(1e-6, |t| t.1)
    }
    /// The batch size in force (1 = sequential processing).
    pub fn batch_eff(&self) -> usize {
        if self.parallel && PAR { self.batch.expect("harness fixes the batch").max(1) } else { 1 }
    }
    pub fn problem(&self) -> Prob {
        let p = Prob::new(self.spec.clone());
        if self.delay > 0 { p.with_delays(self.seed | 1, self.delay) } else { p }
    }
    pub fn brief(&self) -> String {
        format!(
            "{:?} d={} fault={:?} cons={:?} sol={:?} pop={} it={} wait={} tf={} df={:.3} par={} batch={:?} thr={} target={:?} tol={:?} excl={} custom={:?}",
            self.spec.kind,
            self.spec.dim(),
            self.spec.fault,
            self.spec.constraints,
            self.sol,
            self.params.population_size,
            self.params.iterations,
            self.params.wait_cycle,
            self.params.threshold_factor,
            self.params.distance_factor,
            self.parallel,
            self.batch,
            self.threads,
            self.target,
            self.tol,
            self.exclude,
            self.custom.as_ref().map(|c| c.len()),
        )
    }
    /// Coarse equivalence class of a case: used to count distinct non-trivial cases.
    pub fn class(&self) -> u64 {
        let mut h = Fnv::default();
        h.s(&format!(
            "{:?}{}{:?}{:?}{:?}{}{}{:?}{}{:?}{}{}{}{:?}",
            self.spec.kind,
            self.spec.dim(),
            std::mem::discriminant(&self.spec.fault),
            self.spec.constraints,
            self.sol,
            self.params.population_size,
            self.params.iterations,
            self.params.wait_cycle,
            self.parallel,
            self.batch,
            self.threads,
            self.target.is_some(),
            self.exclude,
            self.custom.as_ref().map(|c| c.len())
        ));
        h.0
    }
}

pub fn custom_matrix(c: &[Array1<f64>], dim: usize) -> Array2<f64> {
    let m = Array2::from_shape_fn((c.len(), dim), |(i, j)| c[i][j]);
    let k = c.first().and_then(|p| p.first()).map_or(0, |x| mix(x.to_bits(), c.len() as u64));
    memory_layout(m, k)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Vec<(Vec<u64>, u64)>),
    Err(String),
    Panic(String),
}
impl Outcome {
    pub fn is_panic(&self) -> bool {
        matches!(self, Outcome::Panic(_))
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Ok(v) => format!("{} solutions", v.len()),
            Outcome::Err(e) => format!("error {e}"),
            Outcome::Panic(e) => format!("panic {e}"),
        }
    }
}

pub fn set_bits(s: &SolutionSet) -> Vec<(Vec<u64>, u64)> {
    s.solutions.iter().map(|s| (bits(&s.point), s.objective.to_bits())).collect()
}

pub fn err_name(e: &OQNLPError) -> String {
    let d = format!("{e:?}");
    d.split([' ', '{']).next().unwrap_or("").to_string()
}

/// Where panics happened since the last look.
pub static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// Was the panic just caught raised by the solver dependencies themselves (argmin's line searches
/// unwrap comparisons of NaN, for instance)? Such a run counts as one that failed with an error.
pub fn dependency_panic() -> bool {
    let v = std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    !v.is_empty() && v.iter().all(|l| l.contains("/argmin-") || l.contains("/cobyla-"))
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub struct Ckpts {
    pub dir: PathBuf,
    pub freq: usize,
    pub keep_all: bool,
    pub auto_resume: bool,
    pub name: String,
}
impl Ckpts {
    pub fn trace(dir: &Path) -> Self {
        Ckpts { dir: dir.to_path_buf(), freq: 1, keep_all: true, auto_resume: false, name: "t".into() }
    }
    pub fn config(&self) -> CheckpointConfig {
        CheckpointConfig {
            checkpoint_dir: self.dir.clone(),
            checkpoint_name: self.name.clone(),
            save_frequency: self.freq,
            keep_all: self.keep_all,
            auto_resume: self.auto_resume,
        }
    }
}

/// Whether the monitored library is built with its parallel feature
pub const PAR: bool = cfg!(feature = "par");
pub trait Par: Sized {
    fn par(self, on: bool) -> Self;
}
impl Par for OQNLP<Prob> {
    #[cfg(feature = "par")]
    fn par(self, on: bool) -> Self {
        self.parallel(on)
    }
    #[cfg(not(feature = "par"))]
    fn par(self, _: bool) -> Self {
        self
    }
}
impl<P: globalsearch::problem::Problem + Sync + Send> Par for globalsearch::scatter_search::ScatterSearch<'_, P> {
    #[cfg(feature = "par")]
    fn par(self, on: bool) -> Self {
        self.parallel(on)
    }
    #[cfg(not(feature = "par"))]
    fn par(self, _: bool) -> Self {
        self
    }
}
#[cfg(feature = "par")]
pub fn ck_par(c: &OQNLPCheckpoint) -> (Option<usize>, bool) {
    (c.batch_iterations, c.enable_parallel)
}
#[cfg(not(feature = "par"))]
pub fn ck_par(_: &OQNLPCheckpoint) -> (Option<usize>, bool) {
    (None, false)
}

/// Run `f` on a rayon pool of the given size.
pub fn on_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static POOLS: RefCell<HashMap<usize, std::sync::Arc<rayon::ThreadPool>>> = RefCell::new(HashMap::new());
    }
    let pool = POOLS.with(|p| {
        p.borrow_mut()
            .entry(threads)
            .or_insert_with(|| {
                std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap())
            })
            .clone()
    });
    pool.install(f)
}

/// Build the optimizer of a case.
pub fn build(
    case: &Case,
    prob: Prob,
    ck: Option<&Ckpts>,
    obs: Option<Observer>,
) -> Result<OQNLP<Prob>, OQNLPError> {
    let mut o = OQNLP::new(prob, case.params.clone())?;
    // The options are independent of each other: any order, the last setting of each counts
    let mut r = Rng::new(mix(case.params.seed, 77));
    let mut order: Vec<u8> = (0..9).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut obs = obs;
    for k in order {
        let decoy = r.chance(0.1);
        match k {
            0 => {
                if decoy {
                    o = o.par(!case.parallel);
                }
                o = o.par(case.parallel);
            }
            1 => {
                #[cfg(feature = "par")]
                if let Some(b) = case.batch {
                    if decoy {
                        o = o.batch_iterations((b ^ 1).max(1));
                    }
                    o = o.batch_iterations(b);
                }
            }
            2 => {
                if let Some(t) = case.target {
                    if decoy {
                        o = o.target_objective(t + 1.0 + t.abs());
                    }
                    o = o.target_objective(t);
                }
            }
            3 => {
                if let Some((a, b)) = case.tol {
                    if decoy {
                        o = o.with_tolerance(b + 1.0, a + 2.0);
                    }
                    o = o.with_tolerance(a, b);
                }
            }
            4 => {
                if case.exclude {
                    if decoy {
                        o = o.set_exclude_out_of_bounds(false);
                    }
                    o = if r.chance(0.5) { o.exclude_out_of_bounds() } else { o.set_exclude_out_of_bounds(true) };
                } else if decoy {
                    o = o.exclude_out_of_bounds().set_exclude_out_of_bounds(false);
                }
            }
            5 => {
                if let Some(t) = case.max_time {
                    if decoy {
                        o = o.max_time(t + 1000.0);
                    }
                    o = o.max_time(t);
                }
            }
            6 => {
                if let Some(c) = &case.custom {
                    if decoy {
                        o = o.with_points(custom_matrix(&[], case.spec.dim()))?;
                    }
                    o = o.with_points(custom_matrix(c, case.spec.dim()))?;
                }
            }
            7 => {
                if let Some(c) = ck {
                    o = o.with_checkpointing(c.config())?;
                }
            }
            _ => {
                if let Some(ob) = obs.take() {
                    o = o.add_observer(ob);
                }
                if case.verbose {
                    o = o.verbose();
                }
            }
        }
    }
    Ok(o)
}

pub fn outcome(r: std::thread::Result<Result<SolutionSet, OQNLPError>>) -> (Outcome, Option<SolutionSet>) {
    match r {
        Ok(Ok(s)) => (Outcome::Ok(set_bits(&s)), Some(s)),
        Ok(Err(e)) => (Outcome::Err(err_name(&e)), None),
        Err(e) => {
            let at = PANICS.lock().unwrap_or_else(|e| e.into_inner()).last().cloned().unwrap_or_default();
            if dependency_panic() {
                (Outcome::Err("SolverPanic".into()), None)
            } else {
                (Outcome::Panic(format!("{} at {at}", panic_text(e).chars().take(200).collect::<String>())), None)
            }
        }
    }
}

pub struct Run {
    pub out: Outcome,
    pub set: Option<SolutionSet>,
    pub evals: Vec<Eval>,
    pub grads: u64,
    pub hess: u64,
    pub cks: Vec<OQNLPCheckpoint>,
    pub files: Vec<String>,
    pub threads_seen: usize,
    pub wall: f64,
}

pub fn list_ckpts(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).filter_map(|e| e.file_name().into_string().ok()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// Execute a case under full observation: evaluation log and (when `ck` is given) checkpoint trace.
pub fn exec(case: &Case, ck: Option<&Ckpts>, obs: Option<Observer>) -> Run {
    let prob = case.problem();
    exec_with(case, prob, ck, obs)
}

pub fn exec_with(case: &Case, prob: Prob, ck: Option<&Ckpts>, obs: Option<Observer>) -> Run {
    let t0 = std::time::Instant::now();
    dependency_panic();
    let (out, set) = on_pool(case.threads, || {
        outcome(catch_unwind(AssertUnwindSafe(|| {
            let mut o = build(case, prob.clone(), ck, obs)?;
            o.run()
        })))
    });
    collect(prob, out, set, ck, t0)
}

pub fn collect(prob: Prob, out: Outcome, set: Option<SolutionSet>, ck: Option<&Ckpts>, t0: std::time::Instant) -> Run {
    let wall = t0.elapsed().as_secs_f64();
    let mut cks = vec![];
    let mut files = vec![];
    if let Some(c) = ck {
        files = list_ckpts(&c.dir);
        for f in &files {
            if f.ends_with(".bin") {
                if let Ok(x) = read_checkpoint_file(&c.dir.join(f)) {
                    cks.push(x);
                }
            }
        }
        cks.sort_by_key(|c| c.current_iteration);
    }
    let log = prob.take_log();
    use std::sync::atomic::Ordering;
    let threads_seen = prob.0.threads_seen.lock().unwrap().len();
    Run {
        out,
        set,
        evals: log.evals,
        grads: prob.0.n_grad.load(Ordering::SeqCst),
        hess: prob.0.n_hess.load(Ordering::SeqCst),
        cks,
        files,
        threads_seen,
        wall,
    }
}

pub fn fresh_dir(base: &Path, tag: &str) -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = base.join(format!("{tag}{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// A scratch directory removed on drop.
pub struct Tmp(pub PathBuf);
impl Tmp {
    pub fn new(base: &Path) -> Self {
        Tmp(fresh_dir(base, "d"))
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Bit-exact identity of an evaluation: point bits and value bits (u64::MAX marker for errors).
pub fn ev_key(e: &Eval) -> (Vec<u64>, Option<u64>) {
    (bits(&e.point), e.value.ok().map(|v| v.to_bits()))
}
pub fn ev_points(v: &[Eval]) -> Vec<Vec<u64>> {
    v.iter().map(|e| bits(&e.point)).collect()
}
pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// State recorded in a checkpoint, without timing, as comparable bits.
pub fn ck_state(c: &OQNLPCheckpoint) -> String {
    let f = |x: f64| format!("{:016x}", x.to_bits());
    let sols = |v: &[LocalSolution]| {
        v.iter()
            .map(|s| format!("({:?},{})", bits(&s.point), f(s.objective)))
            .collect::<Vec<_>>()
            .join(";")
    };
    format!(
        "it={} thr={} unch={} seed={} set=[{}] hist=[{}] ref=[{}] target={:?} excl={} batch={:?} par={} abs={} rel={} params={}",
        c.current_iteration,
        f(c.merit_threshold),
        c.unchanged_cycles,
        c.current_seed,
        c.solution_set.as_ref().map_or("none".into(), |s| sols(s.solutions.as_slice().unwrap())),
        sols(&c.distance_filter_solutions),
        c.reference_set.iter().map(|p| format!("{:?}", bits(p))).collect::<Vec<_>>().join(";"),
        c.target_objective.map(|t| t.to_bits()),
        c.exclude_out_of_bounds,
        ck_par(c).0,
        ck_par(c).1,
        f(c.abs_tol),
        f(c.rel_tol),
        params_str(&c.params),
    )
}

pub fn ls_str(l: &LineSearchParams) -> String {
    let f = |x: &f64| format!("{:016x}", x.to_bits());
    match &l.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
            format!("MT {} {} {} {:?}", f(c1), f(c2), f(width_tolerance), bits(bounds))
        }
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => format!(
            "HZ {} {} {} {} {} {} {:?}",
            f(delta),
            f(sigma),
            f(epsilon),
            f(theta),
            f(gamma),
            f(eta),
            bits(bounds)
        ),
    }
}

/// Every field of a solver configuration, bit-exactly.
pub fn cfg_str(c: &LocalSolverConfig) -> String {
    let f = |x: &f64| format!("{:016x}", x.to_bits());
    match c {
        LocalSolverConfig::LBFGS {
            max_iter,
            tolerance_grad,
            tolerance_cost,
            history_size,
            l1_coefficient,
            line_search_params,
        } => format!(
            "LBFGS {max_iter} {} {} {history_size} {:?} {}",
            f(tolerance_grad),
            f(tolerance_cost),
            l1_coefficient.map(|x| x.to_bits()),
            ls_str(line_search_params)
        ),
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => {
            format!(
                "NM {max_iter} {} {} {} {} {} {}",
                f(simplex_delta),
                f(sd_tolerance),
                f(alpha),
                f(gamma),
                f(rho),
                f(sigma)
            )
        }
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => {
            format!("SD {max_iter} {}", ls_str(line_search_params))
        }
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => {
            format!(
                "TR {} {max_iter} {} {} {}",
                matches!(trust_region_radius_method, TrustRegionRadiusMethod::Cauchy),
                f(radius),
                f(max_radius),
                f(eta)
            )
        }
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => {
            format!("NCG {max_iter} {} {} {}", f(curvature_threshold), f(tolerance), ls_str(line_search_params))
        }
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => {
            format!(
                "COBYLA {max_iter} {} {} {} {} {:?}",
                f(initial_step_size),
                f(ftol_rel),
                f(ftol_abs),
                f(xtol_rel),
                xtol_abs.iter().map(|x| x.to_bits()).collect::<Vec<_>>()
            )
        }
    }
}

pub fn params_str(p: &OQNLPParams) -> String {
    format!(
        "it={} pop={} wait={} tf={:016x} df={:016x} type={:?} cfg=({}) seed={}",
        p.iterations,
        p.population_size,
        p.wait_cycle,
        p.threshold_factor.to_bits(),
        p.distance_factor.to_bits(),
        p.local_solver_type,
        cfg_str(&p.local_solver_config),
        p.seed
    )
}

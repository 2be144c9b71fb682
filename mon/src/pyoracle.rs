//! Counterpart of tools/pycheck.py: runs the cases it wrote in the Rust library and prints what the
//! Python binding has to reproduce. Functions use only correctly rounded operations in a fixed order,
//! so that both sides compute the same bits.
use globalsearch::local_solver::builders::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::{OQNLP, OQNLPError};
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

static LOG: Mutex<[Vec<f64>; 4]> = Mutex::new([vec![], vec![], vec![], vec![]]);
static CALLS: AtomicU64 = AtomicU64::new(0);
const CAP: u64 = 6000;
const CAP_TEXT: &str = "pyoracle: call cap";

fn note(kind: usize, x: &[f64]) {
    if CALLS.fetch_add(1, Ordering::SeqCst) > CAP {
        panic!("{CAP_TEXT}");
    }
    LOG.lock().unwrap_or_else(|e| e.into_inner())[kind].extend_from_slice(x);
}

type C = fn(&[f64], &mut ()) -> f64;
macro_rules! con {
    ($x:ident, $i:literal, $e:expr) => {{
        fn c($x: &[f64], _: &mut ()) -> f64 {
            // Which constraint it was goes with the point
            let mut v = vec![$i as f64];
            v.extend_from_slice($x);
            note(3, &v);
            $e
        }
        c as C
    }};
}
fn constraint(i: usize) -> C {
    match i {
        0 => con!(x, 0, x[0] + 0.5),
        1 => con!(x, 1, 0.75 - x[0]),
        2 => con!(x, 2, 4.0 - x[0] * x[0] - x[x.len() - 1] * x[x.len() - 1]),
        3 => con!(x, 3, x[0] * x[0] - 0.25),
        4 => con!(x, 4, x[0] + x[x.len() - 1] + 1.0),
        5 => con!(x, 5, 1.5 - (x[0] - 0.25).abs()),
        6 => con!(x, 6, -0.5 - x[0]),
        _ => con!(x, 7, x[x.len() - 1] - x[0] + 0.25),
    }
}

#[derive(Clone, Default)]
struct P {
    kind: usize,
    bounds: Vec<f64>,
    shift: Vec<f64>,
    cons: Vec<usize>,
    fail: HashMap<String, f64>,
    nograd: bool,
    nohess: bool,
}
impl P {
    fn check(&self, what: &str, x: &[f64]) -> Result<(), EvaluationError> {
        match self.fail.get(what) {
            Some(t) if x[0] > *t => Err(EvaluationError::InvalidInput { reason: format!("ValueError: boom {what}") }),
            _ => Ok(()),
        }
    }
    fn value(&self, x: &[f64]) -> f64 {
        let s = &self.shift;
        let mut v = 0.0;
        match self.kind {
            0 => {
                for i in 0..x.len() {
                    let d = x[i] - s[i];
                    v = v + (i as f64 + 1.0) * d * d;
                }
            }
            1 => {
                for i in 0..x.len() {
                    let d = x[i] * x[i] - 1.0;
                    v = v + d * d + 0.1 * s[i] * x[i];
                }
            }
            2 => {
                for i in 0..x.len() {
                    v = v + (x[i] - s[i]).abs() * (i as f64 + 0.5);
                }
            }
            3 => {
                for i in 0..x.len() {
                    let t = x[i] - x[i].floor();
                    v = v + t * (1.0 - t) * (s[i] + 3.0) + 0.05 * x[i] * x[i];
                }
            }
            4 => {
                for i in 0..x.len() {
                    let d = x[i] - s[i];
                    v = v + (1.0 + d * d).sqrt();
                }
                v = v + 0.25 * x[0] * x[x.len() - 1];
            }
            _ => {
                for i in 0..x.len() {
                    let a = x[i] - s[i];
                    let b = x[i] + s[i];
                    let (p, q) = (a * a, b * b);
                    v = v + if p < q { p } else { q };
                }
            }
        }
        v
    }
    fn grad(&self, x: &[f64]) -> Vec<f64> {
        let s = &self.shift;
        let n = x.len();
        let mut g = vec![0.0; n];
        for i in 0..n {
            g[i] = match self.kind {
                0 => 2.0 * (i as f64 + 1.0) * (x[i] - s[i]),
                1 => 4.0 * (x[i] * x[i] - 1.0) * x[i] + 0.1 * s[i],
                2 => if x[i] > s[i] { i as f64 + 0.5 } else { -(i as f64 + 0.5) },
                3 => {
                    let t = x[i] - x[i].floor();
                    (1.0 - 2.0 * t) * (s[i] + 3.0) + 0.1 * x[i]
                }
                4 => {
                    let d = x[i] - s[i];
                    d / (1.0 + d * d).sqrt()
                }
                _ => {
                    let a = x[i] - s[i];
                    let b = x[i] + s[i];
                    if a * a < b * b { 2.0 * a } else { 2.0 * b }
                }
            };
        }
        if self.kind == 4 {
            g[0] = g[0] + 0.25 * x[n - 1];
            g[n - 1] = g[n - 1] + 0.25 * x[0];
        }
        g
    }
    fn hess(&self, x: &[f64]) -> Vec<f64> {
        let n = x.len();
        let mut h = vec![0.0; n * n];
        for i in 0..n {
            h[i * n + i] = match self.kind {
                0 => 2.0 * (i as f64 + 1.0),
                1 => 12.0 * x[i] * x[i] - 4.0,
                4 => {
                    let d = x[i] - self.shift[i];
                    let q = 1.0 + d * d;
                    1.0 / (q * q.sqrt())
                }
                _ => 2.0,
            };
        }
        if n > 1 {
            h[1] = 0.0625;
            h[n] = 0.0625;
        }
        h
    }
}
impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let x = x.to_vec();
        note(0, &x);
        self.check("obj", &x)?;
        Ok(self.value(&x))
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        if self.nograd {
            return Err(EvaluationError::GradientNotImplemented);
        }
        let x = x.to_vec();
        note(1, &x);
        self.check("grad", &x)?;
        Ok(Array1::from_vec(self.grad(&x)))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        if self.nohess {
            return Err(EvaluationError::HessianNotImplemented);
        }
        let x = x.to_vec();
        note(2, &x);
        self.check("hess", &x)?;
        Ok(Array2::from_shape_vec((x.len(), x.len()), self.hess(&x)).unwrap())
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_vec((self.bounds.len() / 2, 2), self.bounds.clone()).unwrap()
    }
    fn constraints(&self) -> Vec<C> {
        self.cons.iter().map(|i| constraint(*i)).collect()
    }
}

fn f(t: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(t, 16).unwrap())
}
fn hex(v: impl IntoIterator<Item = f64>) -> String {
    v.into_iter().map(|x| if x.is_nan() { "nan".to_string() } else { format!("{:016x}", x.to_bits()) }).collect::<Vec<_>>().join(" ")
}
fn line_search(t: &[&str]) -> LineSearchParams {
    let v: Vec<f64> = t[1..].iter().map(|x| f(x)).collect();
    LineSearchParams {
        method: if t[0] == "mt" {
            LineSearchMethod::MoreThuente { c1: v[0], c2: v[1], width_tolerance: v[2], bounds: Array1::from_vec(v[3..].to_vec()) }
        } else {
            LineSearchMethod::HagerZhang { delta: v[0], sigma: v[1], epsilon: v[2], theta: v[3], gamma: v[4], eta: v[5], bounds: Array1::from_vec(v[6..].to_vec()) }
        },
    }
}
fn config(t: &[&str], ty: &LocalSolverType) -> LocalSolverConfig {
    let opt = |s: &str| if s == "none" { None } else { Some(f(s)) };
    match t[0] {
        "default" => match ty {
            LocalSolverType::LBFGS => LBFGSBuilder::default().build(),
            LocalSolverType::NewtonCG => NewtonCGBuilder::default().build(),
            LocalSolverType::TrustRegion => TrustRegionBuilder::default().build(),
            LocalSolverType::NelderMead => NelderMeadBuilder::default().build(),
            LocalSolverType::SteepestDescent => SteepestDescentBuilder::default().build(),
            LocalSolverType::COBYLA => COBYLABuilder::default().build(),
        },
        "lbfgs" => LocalSolverConfig::LBFGS {
            max_iter: t[1].parse().unwrap(),
            tolerance_grad: f(t[2]),
            tolerance_cost: f(t[3]),
            history_size: t[4].parse().unwrap(),
            l1_coefficient: opt(t[5]),
            line_search_params: line_search(&t[6..]),
        },
        "steepest" => LocalSolverConfig::SteepestDescent { max_iter: t[1].parse().unwrap(), line_search_params: line_search(&t[2..]) },
        "newton" => LocalSolverConfig::NewtonCG {
            max_iter: t[1].parse().unwrap(),
            curvature_threshold: f(t[2]),
            tolerance: f(t[3]),
            line_search_params: line_search(&t[4..]),
        },
        "trust" => LocalSolverConfig::TrustRegion {
            trust_region_radius_method: if t[1] == "cauchy" { TrustRegionRadiusMethod::Cauchy } else { TrustRegionRadiusMethod::Steihaug },
            max_iter: t[2].parse().unwrap(),
            radius: f(t[3]),
            max_radius: f(t[4]),
            eta: f(t[5]),
        },
        "nm" => LocalSolverConfig::NelderMead {
            simplex_delta: f(t[1]),
            sd_tolerance: f(t[2]),
            max_iter: t[3].parse().unwrap(),
            alpha: f(t[4]),
            gamma: f(t[5]),
            rho: f(t[6]),
            sigma: f(t[7]),
        },
        "cobyla" => {
            let mut b = COBYLABuilder::new(t[1].parse().unwrap(), f(t[2]));
            if let Some(v) = opt(t[3]) {
                b = b.ftol_rel(v);
            }
            if let Some(v) = opt(t[4]) {
                b = b.ftol_abs(v);
            }
            if let Some(v) = opt(t[5]) {
                b = b.xtol_rel(v);
            }
            if t[6] != "none" {
                b = b.xtol_abs(t[6..].iter().map(|x| f(x)).collect());
            }
            b.build()
        }
        other => panic!("{other}"),
    }
}

fn s1(o: &Observer) -> String {
    match o.stage1() {
        None => "none".into(),
        Some(s) => format!(
            "{} {} {} {} {} [{}]",
            s.reference_set_size(),
            hex([s.best_objective()]),
            s.current_substage().replace(' ', "_"),
            s.function_evaluations(),
            s.trial_points_generated(),
            s.best_point().map(|p| hex(p.to_vec())).unwrap_or("none".into())
        ),
    }
}
fn s2(o: &Observer) -> String {
    match o.stage2() {
        None => "none".into(),
        Some(s) => format!(
            "{} {} {} {} {} {} {} {} [{}] [{}]",
            hex([s.best_objective()]),
            s.solution_set_size(),
            s.current_iteration(),
            hex([s.threshold_value()]),
            s.local_solver_calls(),
            s.improved_local_calls(),
            s.function_evaluations(),
            s.unchanged_cycles(),
            s.best_point().map(|p| hex(p.to_vec())).unwrap_or("none".into()),
            s.last_added_point().map(|p| hex(p.to_vec())).unwrap_or("none".into())
        ),
    }
}

static SNAPS: Mutex<Vec<String>> = Mutex::new(vec![]);

fn run(c: &HashMap<String, Vec<&str>>, out: &mut dyn Write) {
    let fl = |k: &str| c.get(k).map(|v| v.iter().map(|x| f(x)).collect::<Vec<_>>()).unwrap_or_default();
    let p = P {
        kind: c["kind"][0].parse().unwrap(),
        bounds: fl("bounds"),
        shift: fl("shift"),
        cons: c.get("cons").map(|v| v.iter().map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
        fail: c.get("fail").map(|v| v.chunks(2).map(|q| (q[0].to_string(), f(q[1]))).collect()).unwrap_or_default(),
        nograd: c.contains_key("nograd"),
        nohess: c.contains_key("nohess"),
    };
    for l in LOG.lock().unwrap_or_else(|e| e.into_inner()).iter_mut() {
        l.clear();
    }
    CALLS.store(0, Ordering::SeqCst);
    SNAPS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let dim = p.bounds.len() / 2;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(Vec<LocalSolution>, Option<Observer>), String> {
        let es = |e: OQNLPError| e.to_string();
        let ty = LocalSolverType::from_string(c["solver"][0]).map_err(|e| e.to_string())?;
        let n: Vec<usize> = c["p"].iter().map(|x| x.parse().unwrap()).collect();
        let q = fl("pf");
        let params = OQNLPParams {
            iterations: n[0],
            population_size: n[1],
            wait_cycle: n[2],
            threshold_factor: q[0],
            distance_factor: q[1],
            seed: c["seed"][0].parse().unwrap(),
            local_solver_config: config(&c["cfg"], &ty),
            local_solver_type: ty,
        };
        let mut o = OQNLP::new(p.clone(), params).map_err(es)?;
        if c.contains_key("points") {
            let v = fl("points");
            o = o.with_points(Array2::from_shape_vec((v.len() / dim, dim), v).unwrap()).map_err(es)?;
        }
        if let Some(b) = c.get("obs") {
            let has = |k: &str| b.contains(&k);
            let mut w = Observer::new();
            if has("s1") {
                w = w.with_stage1_tracking();
            }
            if has("s2") {
                w = w.with_stage2_tracking();
            }
            if has("time") {
                w = w.with_timing();
            }
            if has("m1") {
                w = w.with_mode(ObserverMode::Stage1Only);
            }
            if has("m2") {
                w = w.with_mode(ObserverMode::Stage2Only);
            }
            if has("mb") {
                w = w.with_mode(ObserverMode::Both);
            }
            if has("unique") {
                w = w.unique_updates();
            }
            for (k, f) in [("f1", 1), ("f2", 2), ("f3", 3)] {
                if has(k) {
                    w = w.with_callback_frequency(f);
                }
            }
            if has("cb") {
                w = w.with_callback(|o| {
                    let s = format!("{} | {}", s1(o), s2(o));
                    SNAPS.lock().unwrap().push(s);
                });
            }
            o = o.add_observer(w);
        }
        #[cfg(feature = "par")]
        {
            o = o.parallel(c.contains_key("parallel"));
        }
        if let Some(t) = c.get("target") {
            o = o.target_objective(f(t[0]));
        }
        if let Some(t) = c.get("maxtime") {
            o = o.max_time(f(t[0]));
        }
        if c.contains_key("exclude") {
            o = o.exclude_out_of_bounds();
        }
        let mut o = o.with_tolerance(q[2], q[3]);
        let s = o.run().map_err(es)?;
        Ok((s.solutions().cloned().collect(), o.observer().cloned()))
    }));
    match r {
        Ok(Ok((v, o))) => {
            let _ = writeln!(out, "ok {}", v.len());
            for s in &v {
                let _ = writeln!(out, "sol {} {}", hex([s.objective]), hex(s.point.to_vec()));
            }
            if let Some(o) = o {
                let _ = writeln!(out, "obs {} | {}", s1(&o), s2(&o));
                let _ = writeln!(out, "fin {}", o.stage1_final().map(|s| format!("{} {} {}", s.reference_set_size(), s.function_evaluations(), s.trial_points_generated())).unwrap_or("none".into()));
            }
        }
        Ok(Err(e)) => {
            let _ = writeln!(out, "err {}", e.replace('\n', "\\n"));
        }
        Err(e) => {
            let t = crate::case::panic_text(e);
            let _ = writeln!(out, "{}", if t.contains(CAP_TEXT) { "cap".to_string() } else { format!("panic {}", t.replace('\n', " ")) });
        }
    }
    for s in SNAPS.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        let _ = writeln!(out, "snap {s}");
    }
    let mut log = LOG.lock().unwrap_or_else(|e| e.into_inner());
    for (i, l) in log.iter_mut().enumerate() {
        let _ = writeln!(out, "log {i} {}", hex(std::mem::take(l)));
    }
    let _ = writeln!(out, "end");
}

/// Reads cases ("key value ..." lines, each case closed by "run") from `path`, prints the answers.
pub fn main(path: &str) {
    let text = std::fs::read_to_string(path).expect("cases");
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut c: HashMap<String, Vec<&str>> = HashMap::new();
    for l in text.lines() {
        let mut t = l.split_whitespace();
        let Some(k) = t.next() else { continue };
        if k == "run" {
            run(&c, &mut out);
            let _ = out.flush();
            c.clear();
        } else {
            c.insert(k.to_string(), t.collect());
        }
    }
}

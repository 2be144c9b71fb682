//! The instrumented optimization problem: a family of analytic functions on arbitrary boxes whose
//! every evaluation is recorded, optionally delayed (to perturb schedules) and optionally failing.
#![allow(dead_code)]
use crate::util::{Rng, mix};
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2, Axis};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Sphere,
    Rastrigin,
    EqualMinima,
    SixHump,
    Rosenbrock,
    Styblinski,
    Step,
    AbsSum,
    Constant,
    DoubleWell,
    /// Equal-depth wells in every coordinate: many global minima
    TwinWell,
}
pub const KINDS: [Kind; 11] = [
    Kind::Sphere,
    Kind::Rastrigin,
    Kind::EqualMinima,
    Kind::SixHump,
    Kind::Rosenbrock,
    Kind::Styblinski,
    Kind::Step,
    Kind::AbsSum,
    Kind::Constant,
    Kind::DoubleWell,
    Kind::TwinWell,
];

/// Where the objective misbehaves. Regions are half-spaces u[0]*s > t in normalised coordinates, so
/// that the behaviour is a function of the point and does not depend on the schedule.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// The n-th objective call (0-based) fails
    ErrAt(u64),
    /// Every n-th objective call fails
    ErrEvery(u64),
    ErrRegion(f64, f64),
    NanRegion(f64, f64),
    NegNanRegion(f64, f64),
    InfRegion(f64, f64),
    NegInfRegion(f64, f64),
    GradErrAt(u64),
    HessErrAt(u64),
    GradErrRegion(f64, f64),
    GradNanRegion(f64, f64),
    /// Only one component of the gradient is not a number, and the objective ignores a coordinate
    /// that is not a number
    GradNanOne(f64, f64, usize),
    NoGrad,
    NoHess,
    AllNan,
    AllInf,
    AllErr,
}

pub type Cfn = fn(&[f64], &mut ()) -> f64;
fn c_half(x: &[f64], _: &mut ()) -> f64 {
    x[0] + x[x.len() - 1] - 0.5
}
fn c_disc(x: &[f64], _: &mut ()) -> f64 {
    9.0 - x.iter().map(|v| v * v).sum::<f64>()
}
fn c_outside(x: &[f64], _: &mut ()) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>() - 1.0
}
fn c_two(x: &[f64], _: &mut ()) -> f64 {
    x[0].abs() - 0.7
}
fn c_stripes(x: &[f64], _: &mut ()) -> f64 {
    (2.0 * x[0]).sin()
}
fn c_band(x: &[f64], _: &mut ()) -> f64 {
    0.35 - (x[0] - 1.0).abs()
}
fn c_always(_: &[f64], _: &mut ()) -> f64 {
    1.0
}
fn c_zero(_: &[f64], _: &mut ()) -> f64 {
    0.0
}
fn c_never(_: &[f64], _: &mut ()) -> f64 {
    -1.0
}
fn c_sum(x: &[f64], _: &mut ()) -> f64 {
    2.0 - x.iter().sum::<f64>()
}
fn c_left(x: &[f64], _: &mut ()) -> f64 {
    -x[0]
}
fn c_sliver(x: &[f64], _: &mut ()) -> f64 {
    1e-7 - (x[0] - 0.123).abs()
}
pub const CONSTRAINTS: [(&str, Cfn); 12] = [
    ("half", c_half),
    ("disc", c_disc),
    ("outside", c_outside),
    ("two", c_two),
    ("stripes", c_stripes),
    ("band", c_band),
    ("sum", c_sum),
    ("left", c_left),
    ("always", c_always),
    ("zero", c_zero),
    ("never", c_never),
    ("sliver", c_sliver),
];

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub bounds: Vec<(f64, f64)>,
    /// Half-width of the box in normalised coordinates
    pub r: f64,
    pub shift: Vec<f64>,
    pub weights: Vec<f64>,
    pub freq: f64,
    pub scale: f64,
    pub offset: f64,
    pub constraints: Vec<usize>,
    pub fault: Fault,
    /// Keep the gradient away from exact stationarity and report an error far out: the inner
    /// conjugate-gradient loop of the solver dependency's Newton-CG never ends on such data.
    pub newton_guard: bool,
}

impl Spec {
    pub fn dim(&self) -> usize {
        self.bounds.len()
    }
    fn s(&self, i: usize) -> f64 {
        let (l, h) = self.bounds[i];
        self.r / ((h - l) / 2.0)
    }
    fn u(&self, x: &Array1<f64>) -> Vec<f64> {
        (0..self.dim())
            .map(|i| {
                let (l, h) = self.bounds[i];
                let u = (x[i] - (l + (h - l) / 2.0)) * self.s(i) - self.shift[i];
                match self.fault {
                    Fault::GradNanOne(..) if u.is_nan() => -0.5,
                    _ => u,
                }
            })
            .collect()
    }
    fn region(&self, x: &Array1<f64>, sgn: f64, t: f64) -> bool {
        let (l, h) = self.bounds[0];
        let v = (x[0] - (l + (h - l) / 2.0)) / ((h - l) / 2.0);
        v * sgn > t
    }
    /// The fault-free mathematical objective.
    pub fn pure(&self, x: &Array1<f64>) -> f64 {
        let u = self.u(x);
        let w = &self.weights;
        let n = u.len();
        let v = match self.kind {
            Kind::Sphere => (0..n).map(|i| w[i] * u[i] * u[i]).sum::<f64>(),
            Kind::Rastrigin => (0..n)
                .map(|i| u[i] * u[i] * 0.3 + 2.0 * (1.0 - (self.freq * u[i]).cos()))
                .sum::<f64>(),
            Kind::EqualMinima => (0..n).map(|i| (self.freq * u[i]).cos()).sum::<f64>(),
            Kind::SixHump => {
                let (a, b) = (u[0], u[1 % n]);
                (4.0 - 2.1 * a * a + a.powi(4) / 3.0) * a * a + a * b + (-4.0 + 4.0 * b * b) * b * b
            }
            Kind::Rosenbrock => {
                if n == 1 {
                    (1.0 - u[0]).powi(2)
                } else {
                    (0..n - 1)
                        .map(|i| {
                            10.0 * (u[i + 1] - u[i] * u[i]).powi(2) + (1.0 - u[i]).powi(2)
                        })
                        .sum::<f64>()
                }
            }
            Kind::Styblinski => (0..n)
                .map(|i| (u[i].powi(4) - 16.0 * u[i] * u[i] + 5.0 * u[i]) / 2.0)
                .sum::<f64>(),
            Kind::Step => (0..n).map(|i| (2.0 * u[i]).abs().floor()).sum::<f64>(),
            Kind::AbsSum => (0..n).map(|i| w[i] * u[i].abs()).sum::<f64>(),
            Kind::Constant => 0.0,
            Kind::DoubleWell => {
                (0..n).map(|i| (u[i] * u[i] - 1.0).powi(2) + 0.1 * w[i] * u[i]).sum::<f64>()
            }
            Kind::TwinWell => (0..n).map(|i| (u[i] * u[i] - 1.0).powi(2)).sum::<f64>(),
        };
        v * self.scale + self.offset
    }
    /// The objective as the library sees it, when the fault is a function of the point.
    pub fn value(&self, x: &Array1<f64>) -> Result<f64, ()> {
        match self.fault {
            Fault::ErrRegion(s, t) if self.region(x, s, t) => Err(()),
            Fault::NanRegion(s, t) if self.region(x, s, t) => Ok(f64::NAN),
            Fault::NegNanRegion(s, t) if self.region(x, s, t) => Ok(-f64::NAN),
            Fault::InfRegion(s, t) if self.region(x, s, t) => Ok(f64::INFINITY),
            Fault::NegInfRegion(s, t) if self.region(x, s, t) => Ok(f64::NEG_INFINITY),
            Fault::AllNan => Ok(f64::NAN),
            Fault::AllInf => Ok(f64::INFINITY),
            Fault::AllErr => Err(()),
            _ => Ok(self.pure(x)),
        }
    }
    pub fn grad(&self, x: &Array1<f64>) -> Array1<f64> {
        let u = self.u(x);
        let w = &self.weights;
        let n = u.len();
        let mut g = vec![0.0; n];
        match self.kind {
            Kind::Sphere => (0..n).for_each(|i| g[i] = 2.0 * w[i] * u[i]),
            Kind::Rastrigin => (0..n)
                .for_each(|i| g[i] = 0.6 * u[i] + 2.0 * self.freq * (self.freq * u[i]).sin()),
            Kind::EqualMinima => (0..n).for_each(|i| g[i] = -self.freq * (self.freq * u[i]).sin()),
            Kind::SixHump => {
                let (a, b) = (u[0], u[1 % n]);
                g[0] = (8.0 - 8.4 * a * a + 2.0 * a.powi(4)) * a + b;
                if n > 1 {
                    g[1] = a + (-8.0 + 16.0 * b * b) * b;
                }
            }
            Kind::Rosenbrock => {
                if n == 1 {
                    g[0] = -2.0 * (1.0 - u[0]);
                } else {
                    for i in 0..n - 1 {
                        let d = u[i + 1] - u[i] * u[i];
                        g[i] += -40.0 * d * u[i] - 2.0 * (1.0 - u[i]);
                        g[i + 1] += 20.0 * d;
                    }
                }
            }
            Kind::Styblinski => {
                (0..n).for_each(|i| g[i] = (4.0 * u[i].powi(3) - 32.0 * u[i] + 5.0) / 2.0)
            }
            Kind::Step | Kind::Constant => {}
            Kind::AbsSum => (0..n).for_each(|i| g[i] = w[i] * u[i].signum()),
            Kind::DoubleWell => {
                (0..n).for_each(|i| g[i] = 4.0 * u[i] * (u[i] * u[i] - 1.0) + 0.1 * w[i])
            }
            Kind::TwinWell => (0..n).for_each(|i| g[i] = 4.0 * u[i] * (u[i] * u[i] - 1.0)),
        }
        Array1::from_shape_fn(n, |i| g[i] * self.s(i) * self.scale)
    }
    pub fn hess(&self, x: &Array1<f64>) -> Array2<f64> {
        let u = self.u(x);
        let w = &self.weights;
        let n = u.len();
        let mut h = Array2::<f64>::zeros((n, n));
        match self.kind {
            Kind::Sphere => (0..n).for_each(|i| h[[i, i]] = 2.0 * w[i]),
            Kind::Rastrigin => (0..n).for_each(|i| {
                h[[i, i]] = 0.6 + 2.0 * self.freq * self.freq * (self.freq * u[i]).cos()
            }),
            Kind::EqualMinima => {
                (0..n).for_each(|i| h[[i, i]] = -self.freq * self.freq * (self.freq * u[i]).cos())
            }
            Kind::SixHump => {
                let (a, b) = (u[0], u[1 % n]);
                h[[0, 0]] = 8.0 - 25.2 * a * a + 10.0 * a.powi(4);
                if n > 1 {
                    h[[0, 1]] = 1.0;
                    h[[1, 0]] = 1.0;
                    h[[1, 1]] = -8.0 + 48.0 * b * b;
                }
            }
            Kind::Rosenbrock => {
                if n == 1 {
                    h[[0, 0]] = 2.0;
                } else {
                    for i in 0..n - 1 {
                        h[[i, i]] += 120.0 * u[i] * u[i] - 40.0 * u[i + 1] + 2.0;
                        h[[i, i + 1]] += -40.0 * u[i];
                        h[[i + 1, i]] += -40.0 * u[i];
                        h[[i + 1, i + 1]] += 20.0;
                    }
                }
            }
            Kind::Styblinski => (0..n).for_each(|i| h[[i, i]] = (12.0 * u[i] * u[i] - 32.0) / 2.0),
            Kind::Step | Kind::Constant | Kind::AbsSum => {}
            Kind::DoubleWell | Kind::TwinWell => {
                (0..n).for_each(|i| h[[i, i]] = 12.0 * u[i] * u[i] - 4.0)
            }
        }
        Array2::from_shape_fn((n, n), |(i, j)| h[[i, j]] * self.s(i) * self.s(j) * self.scale)
    }
    /// Curvatures of moderate size everywhere in the box (needed by the solver dependency's Newton-CG).
    pub fn tame_scaling(&self) -> bool {
        (0..self.dim()).all(|i| (1e-2..1e2).contains(&self.s(i).abs())) && self.scale <= 10.0
    }
    pub fn in_bounds(&self, p: &Array1<f64>) -> bool {
        p.len() == self.dim()
            && p.iter().zip(&self.bounds).all(|(v, (l, h))| *v >= *l && *v <= *h)
    }
    pub fn feasible(&self, p: &Array1<f64>) -> bool {
        let s: Vec<f64> = p.to_vec();
        self.constraints.iter().all(|c| !((CONSTRAINTS[*c].1)(&s, &mut ()) < 0.0))
    }
}

#[derive(Clone, Debug)]
pub struct Eval {
    pub point: Array1<f64>,
    pub value: Result<f64, ()>,
    pub thread: u64,
}

#[derive(Default)]
pub struct Log {
    pub evals: Vec<Eval>,
    pub grads: u64,
    pub hess: u64,
    /// Named positions in `evals`
    pub marks: Vec<(String, usize)>,
}

/// Calls one problem instance answers before the execution counts as a runaway. Some line searches of
/// the solver dependency (Hager-Zhang) never stop on degenerate data; such a case is discarded.
pub const CALL_CAP: u64 = 60_000;
pub static RUNAWAY: AtomicBool = AtomicBool::new(false);
pub const RUNAWAY_TEXT: &str = "gsmon: call cap";

pub struct Inner {
    pub spec: Spec,
    pub log: Mutex<Log>,
    pub n_obj: AtomicU64,
    pub n_grad: AtomicU64,
    pub n_hess: AtomicU64,
    pub n_bounds: AtomicU64,
    pub n_cons: AtomicU64,
    pub record: AtomicBool,
    /// 0 = no injected delays
    pub delay_seed: AtomicU64,
    pub delay_us: AtomicU64,
    /// From this objective call on, every call takes at least `slow_ms`
    pub slow_after: AtomicU64,
    pub slow_ms: AtomicU64,
    /// The first call takes at least that long
    pub first_ms: AtomicU64,
    /// When the last call before `slow_after` began
    pub mark: std::sync::OnceLock<std::time::Instant>,
    pub threads_seen: Mutex<std::collections::HashSet<u64>>,
    pub inflight: AtomicU64,
    pub max_inflight: AtomicU64,
}

#[derive(Clone)]
pub struct Prob(pub Arc<Inner>);

impl Prob {
    pub fn new(spec: Spec) -> Self {
        Prob(Arc::new(Inner {
            spec,
            log: Mutex::new(Log::default()),
            n_obj: AtomicU64::new(0),
            n_grad: AtomicU64::new(0),
            n_hess: AtomicU64::new(0),
            n_bounds: AtomicU64::new(0),
            n_cons: AtomicU64::new(0),
            record: AtomicBool::new(true),
            delay_seed: AtomicU64::new(0),
            delay_us: AtomicU64::new(0),
            slow_after: AtomicU64::new(u64::MAX),
            slow_ms: AtomicU64::new(0),
            first_ms: AtomicU64::new(0),
            mark: Default::default(),
            threads_seen: Mutex::new(Default::default()),
            inflight: AtomicU64::new(0),
            max_inflight: AtomicU64::new(0),
        }))
    }
    /// The same problem without recording: used by oracles to evaluate without touching the log.
    pub fn silent(spec: &Spec) -> Self {
        let p = Prob::new(spec.clone());
        p.0.record.store(false, Ordering::Relaxed);
        p
    }
    pub fn with_delays(self, seed: u64, max_us: u64) -> Self {
        self.0.delay_seed.store(seed, Ordering::Relaxed);
        self.0.delay_us.store(max_us, Ordering::Relaxed);
        self
    }
    pub fn spec(&self) -> &Spec {
        &self.0.spec
    }
    pub fn count(&self) -> u64 {
        self.0.n_obj.load(Ordering::SeqCst)
    }
    pub fn mark(&self, name: &str) {
        let mut l = self.0.log.lock().unwrap();
        let n = l.evals.len();
        l.marks.push((name.to_string(), n));
    }
    pub fn evals(&self) -> Vec<Eval> {
        self.0.log.lock().unwrap().evals.clone()
    }
    pub fn take_log(&self) -> Log {
        std::mem::take(&mut *self.0.log.lock().unwrap())
    }
}

fn cap(k: u64) {
    if k > CALL_CAP {
        RUNAWAY.store(true, Ordering::SeqCst);
        std::panic::panic_any(RUNAWAY_TEXT);
    }
}

fn thread_id() -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::thread::current().id().hash(&mut h);
    h.finish()
}

/// The same matrix, in one of the memory layouts a caller may have it in
pub fn memory_layout(m: Array2<f64>, k: u64) -> Array2<f64> {
    let mut m = m;
    match k % 8 {
        0 => {
            let mut f = m.t().as_standard_layout().to_owned();
            f.swap_axes(0, 1);
            m = f;
        }
        1 => m.invert_axis(Axis(1)),
        2 => m.invert_axis(Axis(0)),
        3 => {
            m = memory_layout(m, 0);
            m.invert_axis(Axis(0));
        }
        _ => return m,
    }
    if matches!(k % 8, 1..=3) {
        // Put the inverted axis back in logical order, stored backwards
        let (r, c) = m.dim();
        let logical = Array2::from_shape_fn((r, c), |(i, j)| match k % 8 {
            1 => m[[i, c - 1 - j]],
            _ => m[[r - 1 - i, j]],
        });
        m.assign(&logical);
    }
    m
}

impl Problem for Prob {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let k = self.0.n_obj.fetch_add(1, Ordering::SeqCst);
        cap(k);
        let spec = &self.0.spec;
        let v = match spec.fault {
            Fault::ErrAt(n) if k == n => Err(()),
            Fault::ErrEvery(n) if n > 0 && k % n == n - 1 => Err(()),
            _ => spec.value(x),
        };
        if k.wrapping_add(1) == self.0.slow_after.load(Ordering::Relaxed) {
            let _ = self.0.mark.set(std::time::Instant::now());
        }
        if k == 0 {
            let ms = self.0.first_ms.load(Ordering::Relaxed);
            if ms > 0 {
                std::thread::sleep(std::time::Duration::from_millis(ms));
            }
        }
        if k >= self.0.slow_after.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(self.0.slow_ms.load(Ordering::Relaxed)));
        }
        if self.0.record.load(Ordering::Relaxed) {
            let t = thread_id();
            let fl = self.0.inflight.fetch_add(1, Ordering::SeqCst) + 1;
            self.0.max_inflight.fetch_max(fl, Ordering::SeqCst);
            let ds = self.0.delay_seed.load(Ordering::Relaxed);
            if ds != 0 && k < 20_000 {
                let mut h = ds;
                for b in x.iter() {
                    h = mix(h, b.to_bits());
                }
                let mut r = Rng::new(h);
                match r.below(6) {
                    0 => std::thread::sleep(std::time::Duration::from_micros(
                        r.u64() % self.0.delay_us.load(Ordering::Relaxed).max(1),
                    )),
                    1 | 2 => std::thread::yield_now(),
                    _ => {}
                }
            }
            let mut l = self.0.log.lock().unwrap();
            l.evals.push(Eval { point: x.clone(), value: v, thread: t });
            drop(l);
            self.0.threads_seen.lock().unwrap().insert(t);
            self.0.inflight.fetch_sub(1, Ordering::SeqCst);
        }
        v.map_err(|_| EvaluationError::InvalidInput { reason: "injected".to_string() })
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let k = self.0.n_grad.fetch_add(1, Ordering::SeqCst);
        cap(k);
        match self.0.spec.fault {
            Fault::NoGrad => return Err(EvaluationError::GradientNotImplemented),
            Fault::GradErrAt(n) if k == n => {
                return Err(EvaluationError::InvalidInput { reason: "injected".to_string() });
            }
            Fault::GradErrRegion(s, t) if self.0.spec.region(x, s, t) => {
                return Err(EvaluationError::InvalidInput { reason: "injected".to_string() });
            }
            Fault::GradNanRegion(s, t) if self.0.spec.region(x, s, t) => {
                return Ok(Array1::from_elem(x.len(), f64::NAN));
            }
            _ => {}
        }
        let mut g = self.0.spec.grad(x);
        if let Fault::GradNanOne(s, t, i) = self.0.spec.fault {
            if self.0.spec.region(x, s, t) {
                g[i % x.len()] = f64::NAN;
            }
        }
        if self.0.spec.newton_guard {
            let n = g.iter().map(|v| v * v).sum::<f64>().sqrt();
            if !(n < 1e60) || !x.iter().all(|v| v.abs() < 1e60) {
                return Err(EvaluationError::InvalidInput { reason: "far out".to_string() });
            }
            if n < 1e-10 {
                return Ok(g + 1e-10);
            }
        } else if mix(self.0.spec.bounds[0].1.to_bits(), 5) % 6 == 0 {
            // Stored backwards
            let mut b = Array1::from_iter(g.iter().rev().copied());
            b.invert_axis(Axis(0));
            g = b;
        }
        Ok(g)
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let k = self.0.n_hess.fetch_add(1, Ordering::SeqCst);
        match self.0.spec.fault {
            Fault::NoHess => return Err(EvaluationError::HessianNotImplemented),
            Fault::HessErrAt(n) if k == n => {
                return Err(EvaluationError::InvalidInput { reason: "injected".to_string() });
            }
            _ => {}
        }
        let h = self.0.spec.hess(x);
        if self.0.spec.newton_guard && !cg_ends(&self.0.spec.grad(x), &h) {
            return Err(EvaluationError::InvalidInput { reason: "ill-conditioned".to_string() });
        }
        Ok(h)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.0.n_bounds.fetch_add(1, Ordering::Relaxed);
        let b = &self.0.spec.bounds;
        let m = Array2::from_shape_fn((b.len(), 2), |(i, j)| if j == 0 { b[i].0 } else { b[i].1 });
        memory_layout(m, b.first().map_or(0, |b| mix(b.0.to_bits(), b.1.to_bits())))
    }
    fn constraints(&self) -> Vec<Cfn> {
        self.0.n_cons.fetch_add(1, Ordering::Relaxed);
        self.0.spec.constraints.iter().map(|c| CONSTRAINTS[*c].1).collect()
    }
}

/// Whether the inner loop of argmin's Newton-CG ends at a point with this gradient and Hessian: it
/// has no iteration limit and an absolute tolerance, so on ill-conditioned data it never does. (The
/// workload's problem answers with an error there instead; the loop is the dependency's, not ours.)
fn cg_ends(g: &Array1<f64>, h: &Array2<f64>) -> bool {
    let n = g.dot(g).sqrt();
    let tol = 0.5f64.min(n.sqrt()) * n;
    let mut r = g.clone();
    let mut p = -g;
    let mut rtr = r.dot(&r);
    for _ in 0..60 {
        let hp = h.dot(&p);
        let curv = p.dot(&hp);
        if curv <= 0.0 {
            return true;
        }
        let alpha = rtr / curv;
        r = &r + &(hp * alpha);
        let rn = r.dot(&r);
        // (a margin for rounding: what ends only just may not end in the other order of summation)
        if rn <= 0.5 * tol {
            return true;
        }
        let beta = rn / rtr;
        rtr = rn;
        p = &(p * beta) - &r;
    }
    false
}

pub fn gen_bounds(r: &mut Rng, dim: usize) -> Vec<(f64, f64)> {
    let style = r.below(8);
    (0..dim)
        .map(|_| {
            let s = if style == 7 { r.below(7) } else { style };
            match s {
                0 => (-5.0, 5.0),
                1 => {
                    let l = r.fr(-10.0, 5.0);
                    (l, l + r.fr(0.5, 12.0))
                }
                2 => {
                    let c = r.fr(500.0, 2000.0);
                    (c, c + r.fr(0.5, 3.0))
                }
                3 => {
                    let l = r.fr(-1.0, 1.0);
                    (l, l + r.logu(1e-4, 1e-1))
                }
                4 => {
                    let w = r.logu(1e2, 1e5);
                    (-w * r.f(), w * (0.1 + r.f()))
                }
                5 => (0.0, 1.0),
                _ => {
                    let h = -r.fr(0.0, 3.0);
                    (h - r.fr(0.5, 8.0), h)
                }
            }
        })
        .collect()
}

pub fn gen_spec(r: &mut Rng, dim: usize, kinds: &[Kind]) -> Spec {
    let kind = r.pick(kinds);
    let bounds = gen_bounds(r, dim);
    Spec {
        kind,
        r: match kind {
            Kind::SixHump => 2.0,
            Kind::Rosenbrock => 2.0,
            Kind::Styblinski => 5.0,
            _ => r.pick(&[1.0, 3.0, 5.0]),
        },
        shift: (0..dim)
            .map(|_| if r.chance(0.5) { 0.0 } else { r.fr(-0.8, 0.8) })
            .collect(),
        weights: (0..dim).map(|_| r.fr(0.5, 3.0)).collect(),
        freq: r.pick(&[1.0, 2.0, 3.0, 5.0]),
        scale: r.pick(&[1.0, 1.0, 1.0, 1e-3, 10.0, 1e4]),
        offset: r.pick(&[0.0, 0.0, 0.0, -3.0, 7.5, -1e3]),
        bounds,
        constraints: vec![],
        fault: Fault::None, newton_guard: false,
    }
}

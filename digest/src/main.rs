//! Digests of a fixed series of runs, for comparison between builds with different features.
//! One line per run: what was run, digest of the result, digest of the evaluations.
#[path = "../../mon/src/util.rs"]
mod util;
use globalsearch::local_solver::builders::*;
use globalsearch::observers::Observer;
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::sync::{Arc, Mutex};
use util::*;

type Cfn = fn(&[f64], &mut ()) -> f64;
fn c_disc(x: &[f64], _: &mut ()) -> f64 {
    9.0 - x.iter().map(|v| v * v).sum::<f64>()
}
fn c_half(x: &[f64], _: &mut ()) -> f64 {
    x[0] + x[x.len() - 1] + 0.5
}

#[derive(Clone)]
struct P {
    kind: usize,
    b: Vec<(f64, f64)>,
    cons: usize,
    log: Arc<Mutex<Vec<u64>>>,
}
impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let v = match self.kind {
            0 => x.iter().map(|v| v * v).sum::<f64>(),
            1 => x.iter().map(|v| (v * v - 1.0).powi(2) + 0.1 * v).sum::<f64>(),
            2 => x.iter().map(|v| v * v * 0.2 + 2.0 * (1.0 - (3.0 * v).cos())).sum::<f64>(),
            3 => x.iter().map(|v| (2.0 * v).abs().floor()).sum::<f64>(),
            4 => x.iter().map(|v| (2.0 * v).cos()).sum::<f64>(),
            _ => {
                if x[0] > 1.0 { f64::NAN } else { x.iter().map(|v| v.abs()).sum::<f64>() }
            }
        };
        let mut h = Fnv::default();
        h.fs(x).f(v);
        self.log.lock().unwrap().push(h.0);
        Ok(v)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let h = 1e-6;
        Ok(Array1::from_shape_fn(x.len(), |i| {
            let f = |d: f64| {
                let mut y = x.clone();
                y[i] += d;
                match self.kind {
                    0 => y[i] * y[i],
                    1 => (y[i] * y[i] - 1.0).powi(2) + 0.1 * y[i],
                    2 => y[i] * y[i] * 0.2 + 2.0 * (1.0 - (3.0 * y[i]).cos()),
                    4 => (2.0 * y[i]).cos(),
                    _ => y[i].abs(),
                }
            };
            (f(h) - f(-h)) / (2.0 * h)
        }))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.b.len(), 2), |(i, j)| if j == 0 { self.b[i].0 } else { self.b[i].1 })
    }
    fn constraints(&self) -> Vec<Cfn> {
        match self.cons {
            0 => vec![],
            1 => vec![c_disc],
            _ => vec![c_disc, c_half],
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let scratch = std::path::PathBuf::from(&a[3]);
    for i in 0..n {
        let mut r = Rng::new(mix(seed, i));
        let dim = r.range(1, 4);
        let kind = r.below(6);
        let b = (0..dim).map(|_| r.pick(&[(-3.0, 3.0), (-2.0, 4.0), (-5.0, 2.5)])).collect();
        let cons = if r.chance(0.3) { r.range(1, 2) } else { 0 };
        let p = P { kind, b, cons, log: Default::default() };
        let pop = if r.chance(0.2) { r.range(22, 120) } else { r.range(4, 24) };
        let mut solver = r.below(3);
        if matches!(kind, 3 | 5) && solver == 2 {
            solver = 1;
        }
        let (ty, cfg) = match solver {
            0 => (LocalSolverType::COBYLA, LocalSolverConfig::cobyla().max_iter(60).build()),
            #[cfg(feature = "argmin")]
            1 => (LocalSolverType::NelderMead, LocalSolverConfig::neldermead().max_iter(40).build()),
            #[cfg(feature = "argmin")]
            _ => (LocalSolverType::LBFGS, LocalSolverConfig::lbfgs().max_iter(20).build()),
            #[cfg(not(feature = "argmin"))]
            _ => continue,
        };
        let params = OQNLPParams {
            iterations: r.range(0, pop),
            population_size: pop,
            wait_cycle: r.range(0, 6),
            threshold_factor: r.pick(&[0.2, 1.0, 5.0]),
            distance_factor: r.pick(&[0.0, 0.3, 1.0]),
            local_solver_type: ty,
            local_solver_config: cfg,
            seed: r.u64(),
        };
        let parallel = r.chance(0.4);
        let batch = r.pick(&[1usize, 2, 4, 9]);
        let target = r.chance(0.15).then(|| r.fr(-1.0, 2.0));
        let custom = r.range(0, 3);
        let observe = r.chance(0.3);
        #[cfg(not(feature = "rayon"))]
        if parallel {
            continue;
        }
        let pts = Array2::from_shape_fn((custom, dim), |(_, j)| p.b[j].0 + (p.b[j].1 - p.b[j].0) * (0.3 + 0.1 * j as f64));
        let mut o = OQNLP::new(p.clone(), params).unwrap();
        #[cfg(feature = "rayon")]
        {
            o = o.parallel(parallel).batch_iterations(batch);
        }
        let _ = batch;
        if let Some(t) = target {
            o = o.target_objective(t);
        }
        if custom > 0 {
            o = o.with_points(pts).unwrap();
        }
        if observe {
            o = o.add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback(|_| {}));
        }
        #[cfg(feature = "checkpointing")]
        if r.chance(0.5) {
            let dir = scratch.join(format!("d{i}"));
            o = o
                .with_checkpointing(CheckpointConfig { checkpoint_dir: dir, checkpoint_name: "x".into(), save_frequency: r.range(1, 4), keep_all: r.chance(0.5), auto_resume: false })
                .unwrap();
        }
        let _ = &scratch;
        let res = o.run();
        let mut h = Fnv::default();
        match &res {
            Ok(s) => {
                for s in s.solutions() {
                    h.fs(&s.point).f(s.objective);
                }
            }
            Err(e) => {
                h.s(&format!("{e:?}"));
            }
        }
        let mut log = std::mem::take(&mut *p.log.lock().unwrap());
        if parallel {
            log.sort();
        }
        let mut g = Fnv::default();
        for x in &log {
            g.w(*x);
        }
        println!("{i} {} {:016x} {:016x} {} {}", if parallel { "par" } else { "seq" }, h.0, g.0, log.len(), res.map_or(0, |s| s.len()));
    }
}

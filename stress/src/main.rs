//! Workload of C23, built three times: natively (as much contention as possible), with
//! ThreadSanitizer, and for Miri. Prints one line per thing that went wrong and the counters.
//!
//!     gsstress <full|tiny> <seed> <budget s> <scratch dir>
use globalsearch::local_solver::builders::*;
use globalsearch::observers::Observer;
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64) < p * (1u64 << 53) as f64
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

#[derive(Default)]
struct Seen {
    calls: AtomicU64,
    hash: AtomicU64,
    threads: Mutex<HashSet<std::thread::ThreadId>>,
}

#[derive(Clone)]
struct P {
    kind: usize,
    dim: usize,
    fail: Option<f64>,
    jitter: u64,
    seen: Arc<Seen>,
}
impl P {
    fn note(&self, x: &Array1<f64>) {
        let n = self.seen.calls.fetch_add(1, Ordering::Relaxed);
        // The same for every order of the calls
        let h = x.iter().fold(17u64, |h, v| Rng(h ^ v.to_bits()).next());
        self.seen.hash.fetch_add(h, Ordering::Relaxed);
        if n % 8 == 0 {
            self.seen.threads.lock().unwrap().insert(std::thread::current().id());
        }
        // Other interleavings of what surrounds the calls
        if self.jitter > 0 && h % self.jitter == 0 {
            for _ in 0..h % 300 {
                std::hint::spin_loop();
            }
            if h % 5 == 0 {
                std::thread::yield_now();
            }
        }
    }
}
impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        self.note(x);
        if self.fail.is_some_and(|f| x[0] > f) {
            return Err(EvaluationError::DivisionByZero);
        }
        Ok(match self.kind {
            0 => x.iter().map(|v| 1.0 / (1.0 + 9.0 * v * v) + v * v * 0.1).sum(),
            1 => x.iter().map(|v| (v * v - 1.0) * (v * v - 1.0)).sum(),
            _ => x.iter().enumerate().map(|(i, v)| (i as f64 + 1.0) * (v - 0.3) * (v - 0.3)).sum(),
        })
    }
    // No transcendental functions: Miri varies their results
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        Ok(match self.kind {
            0 => x.mapv(|v| v * 0.2 - 18.0 * v / ((1.0 + 9.0 * v * v) * (1.0 + 9.0 * v * v))),
            1 => x.mapv(|v| 4.0 * v * (v * v - 1.0)),
            _ => x.iter().enumerate().map(|(i, v)| 2.0 * (i as f64 + 1.0) * (v - 0.3)).collect(),
        })
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.dim, 2), |(_, j)| if j == 0 { -2.0 } else { 2.5 })
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        if self.kind == 2 { vec![|x: &[f64], _: &mut ()| x[0] + 1.0] } else { vec![] }
    }
}

#[derive(Clone)]
struct Job {
    kind: usize,
    dim: usize,
    fail: Option<f64>,
    seed: u64,
    pop: usize,
    iters: usize,
    batch: usize,
    solver: usize,
    observe: bool,
    checkpoint: bool,
    points: usize,
}
fn job(r: &mut Rng, tiny: bool) -> Job {
    let pop = if tiny { r.pick(&[4, 5, 6]) } else { r.pick(&[6, 10, 20, 40, 60]) };
    Job {
        kind: r.below(3),
        dim: if tiny { 1 } else { r.pick(&[1, 2, 3]) },
        fail: if r.chance(0.15) { Some(r.pick(&[1.0, 2.0, 2.4])) } else { None },
        seed: r.next() >> r.pick(&[0, 40]),
        pop,
        iters: if tiny { 2 } else { 1 + r.below(pop) },
        batch: if tiny { 2 } else { r.pick(&[2, 3, 4, 8]) },
        solver: if tiny { r.below(2) } else { r.below(4) },
        observe: r.chance(0.7),
        checkpoint: r.chance(if tiny { 0.1 } else { 0.3 }),
        points: r.pick(&[0, 0, 1, 5]),
    }
}

/// What a run did, in a form two runs can be compared by.
#[derive(Clone, PartialEq, Debug)]
struct Did {
    out: String,
    calls: u64,
    hash: u64,
    shots: Vec<(usize, usize, usize, usize)>,
}

fn exec(j: &Job, parallel: bool, jitter: u64, dir: &str, bad: &Mutex<Vec<String>>) -> (Did, usize) {
    let prob = P { kind: j.kind, dim: j.dim, fail: j.fail, jitter, seen: Arc::default() };
    let config = match j.solver {
        0 => NelderMeadBuilder::default().max_iter(4).build(),
        1 => SteepestDescentBuilder::default().max_iter(3).build(),
        2 => LBFGSBuilder::default().max_iter(5).build(),
        _ => COBYLABuilder::default().max_iter(20).build(),
    };
    let params = OQNLPParams {
        iterations: j.iters,
        population_size: j.pop,
        wait_cycle: 2,
        seed: j.seed,
        threshold_factor: 1.0,
        distance_factor: 0.2,
        local_solver_type: [LocalSolverType::NelderMead, LocalSolverType::SteepestDescent, LocalSolverType::LBFGS, LocalSolverType::COBYLA][j.solver].clone(),
        local_solver_config: config,
        ..Default::default()
    };
    let shots: Arc<Mutex<Vec<(usize, usize, usize, usize)>>> = Arc::default();
    let last: Arc<Mutex<(usize, usize)>> = Arc::default();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut o = OQNLP::new(prob.clone(), params)?.parallel(parallel);
        if parallel {
            o = o.batch_iterations(j.batch);
        }
        if j.points > 0 {
            let pts = Array2::from_shape_fn((j.points, j.dim), |(i, k)| -1.0 + 0.1 * i as f64 + 0.2 * k as f64);
            o = o.with_points(pts)?;
        }
        if j.observe {
            let sh = shots.clone();
            o = o.add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking().with_timing().with_callback(move |ob| {
                let a = ob.stage1().map_or((9999, 0), |s| (s.reference_set_size(), s.function_evaluations()));
                let b = ob.stage2().map_or((9999, 0), |s| (s.current_iteration(), s.function_evaluations()));
                sh.lock().unwrap().push((a.0, a.1, b.0, b.1));
            }));
        }
        if j.checkpoint {
            let cfg = CheckpointConfig { checkpoint_dir: dir.into(), checkpoint_name: "s".into(), save_frequency: 1, keep_all: false, auto_resume: false };
            o = o.with_checkpointing(cfg)?;
        }
        let set = o.run()?;
        if let Some(ob) = o.observer() {
            let e1 = ob.stage1_final().map_or(0, |s| s.function_evaluations());
            let e2 = ob.stage2().map_or(0, |s| s.function_evaluations());
            *last.lock().unwrap() = (e1, e2);
        }
        Ok::<_, globalsearch::oqnlp::OQNLPError>(set)
    }));
    let calls = prob.seen.calls.load(Ordering::SeqCst);
    let out = match &res {
        Ok(Ok(s)) => {
            let sols: Vec<String> = s.solutions.iter().map(|s| format!("{:x}@{:?}", s.objective.to_bits(), s.point.iter().map(|v| v.to_bits()).collect::<Vec<_>>())).collect();
            sols.join(",")
        }
        Ok(Err(e)) => format!("error {e}"),
        Err(_) => "panic".into(),
    };
    if let (Ok(Ok(_)), true) = (&res, j.observe) {
        let (e1, e2) = *last.lock().unwrap();
        if (e1 + e2) as u64 != calls {
            bad.lock().unwrap().push(format!("lost-updates: {calls} evaluations, {e1}+{e2} counted; {}", brief(j)));
        }
    }
    if out == "panic" {
        bad.lock().unwrap().push(format!("panic: {}", brief(j)));
    }
    let n = prob.seen.threads.lock().unwrap().len();
    let shots = shots.lock().unwrap().clone();
    (Did { out, calls, hash: prob.seen.hash.load(Ordering::SeqCst), shots }, n)
}
fn brief(j: &Job) -> String {
    format!("kind {} dim {} fail {:?} seed {} pop {} iters {} batch {} solver {} observer {} checkpoint {} points {}", j.kind, j.dim, j.fail, j.seed, j.pop, j.iters, j.batch, j.solver, j.observe, j.checkpoint, j.points)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "none" {
        return;
    }
    let tiny = a[1] == "tiny";
    let mut r = Rng(a[2].parse::<u64>().unwrap().wrapping_mul(0x5851f42d4c957f2d));
    let budget: f64 = a[3].parse().unwrap();
    let scratch = a[4].clone();
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {i}")));
    let threads = if tiny { 2 } else { r.pick(&[2, 3, 4, 8, 8]) };
    rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
    let t0 = Instant::now();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let (mut rounds, mut runs, mut calls, mut errors, mut shared, mut ckpts) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut classes = HashSet::new();
    while rounds == 0 || (t0.elapsed().as_secs_f64() < budget && bad.lock().unwrap().len() < 5) {
        rounds += 1;
        let k = if tiny { 2 } else { r.pick(&[1, 2, 3, 5]) };
        let jobs: Vec<Job> = (0..k).map(|_| job(&mut r, tiny)).collect();
        // Each alone, then all at the same time
        let dir = |i: usize, w: &str| format!("{scratch}/{w}{i}");
        let solo: Vec<Did> = jobs.iter().enumerate().map(|(i, j)| exec(j, true, 0, &dir(i, "a"), &bad).0).collect();
        let jitter = r.pick(&[0, 3, 7]);
        let gate = Barrier::new(k);
        let both: Vec<(Did, usize)> = std::thread::scope(|s| {
            let (bad, gate, dir) = (&bad, &gate, &dir);
            let h: Vec<_> = jobs
                .iter()
                .enumerate()
                .map(|(i, j)| {
                    s.spawn(move || {
                        gate.wait();
                        exec(j, true, jitter, &dir(i, "b"), bad)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for ((j, a), (b, n)) in jobs.iter().zip(&solo).zip(&both) {
            runs += 2;
            calls += a.calls + b.calls;
            shared += (*n > 1) as u64;
            ckpts += j.checkpoint as u64;
            classes.insert(format!("{} {} {:?} {} {} {} {} {k}", j.kind, j.dim, j.fail.is_some(), j.batch, j.solver, j.observe, j.checkpoint));
            if a.out.starts_with("error") {
                errors += 1;
                // How much of a batch ran besides the failing evaluation is not determined
                if a.out != b.out {
                    bad.lock().unwrap().push(format!("other-error: {} alone, {} beside others; {}", a.out, b.out, brief(j)));
                }
            } else if a != b {
                bad.lock().unwrap().push(format!("disturbed: alone {a:?}, beside {} others {b:?}; {}", k - 1, brief(j)));
            }
        }
        if jobs.iter().any(|j| j.checkpoint) {
            for i in 0..k {
                let _ = std::fs::remove_dir_all(dir(i, "a"));
                let _ = std::fs::remove_dir_all(dir(i, "b"));
            }
        }
    }
    for b in bad.lock().unwrap().iter() {
        println!("BAD {}", &b[..b.len().min(1500)]);
    }
    println!("COUNT rounds {rounds} runs {runs} evaluations {calls} failing_runs {errors} runs_on_several_threads {shared} checkpointed_runs {ckpts}");
    for c in &classes {
        println!("CLASS {c}");
    }
    println!("DONE");
}

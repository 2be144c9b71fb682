//! Monitors of the parts: C19 (local solvers and builders), C20 (custom points), C21 (Stage 1),
//! C24 (solution sets).
use crate::case::*;
use crate::ctx::Ctx;
use crate::model::*;
use crate::prob::*;
use crate::props_a::*;
use crate::props_b::wild_cfg;
use crate::props_c::init_count;
use crate::util::*;
use argmin::core::{CostFunction, Error, Executor, Gradient, Hessian};
use argmin::solver::gradientdescent::SteepestDescent;
use argmin::solver::linesearch::{HagerZhangLineSearch, MoreThuenteLineSearch};
use argmin::solver::neldermead::NelderMead;
use argmin::solver::newton::NewtonCG;
use argmin::solver::quasinewton::LBFGS;
use argmin::solver::trustregion::{CauchyPoint, Steihaug, TrustRegion};
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};

// ---------------------------------------------------------------------------------------- C19
struct Direct(Prob);
impl CostFunction for Direct {
    type Param = Array1<f64>;
    type Output = f64;
    fn cost(&self, x: &Array1<f64>) -> Result<f64, Error> {
        self.0.objective(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Gradient for Direct {
    type Param = Array1<f64>;
    type Gradient = Array1<f64>;
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, Error> {
        self.0.gradient(x).map_err(|e| Error::msg(e.to_string()))
    }
}
impl Hessian for Direct {
    type Param = Array1<f64>;
    type Hessian = Array2<f64>;
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, Error> {
        self.0.hessian(x).map_err(|e| Error::msg(e.to_string()))
    }
}
type Res = Result<(Array1<f64>, f64), String>;

type Mt = MoreThuenteLineSearch<Array1<f64>, Array1<f64>, f64>;
type Hz = HagerZhangLineSearch<Array1<f64>, Array1<f64>, f64>;
fn more(c1: f64, c2: f64, w: f64, b: &Array1<f64>) -> Result<Mt, Error> {
    MoreThuenteLineSearch::new().with_c(c1, c2)?.with_bounds(b[0], b[1])?.with_width_tolerance(w)
}
macro_rules! hager {
    ($d:expr, $s:expr, $e:expr, $t:expr, $g:expr, $h:expr, $b:expr) => {
        HagerZhangLineSearch::new().with_delta_sigma(*$d, *$s)?.with_epsilon(*$e)?.with_theta(*$t)?.with_gamma(*$g)?.with_eta(*$h)?.with_bounds($b[0], $b[1])?
    };
}
macro_rules! execute {
    ($p:expr, $solver:expr, $x:expr, $n:expr) => {{
        let r = Executor::new(Direct($p), $solver).configure(|s| s.param($x).max_iters($n)).run()?;
        Ok((r.state().best_param.clone().ok_or_else(|| Error::msg("no parameters"))?, r.state().best_cost))
    }};
}
/// The algorithm run directly, without the library under observation.
pub fn direct(prob: Prob, cfg: &LocalSolverConfig, x0: &Array1<f64>) -> Result<(Array1<f64>, f64), Error> {
    let x = x0.clone();
    match cfg {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => {
            macro_rules! go {
                ($ls:expr) => {{
                    let mut s = LBFGS::new($ls, *history_size).with_tolerance_cost(*tolerance_cost)?.with_tolerance_grad(*tolerance_grad)?;
                    if let Some(c) = l1_coefficient {
                        s = s.with_l1_regularization(*c)?;
                    }
                    execute!(prob, s, x, *max_iter)
                }};
            }
            match &line_search_params.method {
                LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => go!(more(*c1, *c2, *width_tolerance, bounds)?),
                LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => {
                    let h: Hz = hager!(delta, sigma, epsilon, theta, gamma, eta, bounds);
                    go!(h)
                }
            }
        }
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => match &line_search_params.method {
            LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                execute!(prob, SteepestDescent::new(more(*c1, *c2, *width_tolerance, bounds)?), x, *max_iter)
            }
            LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => {
                let h: Hz = hager!(delta, sigma, epsilon, theta, gamma, eta, bounds);
                execute!(prob, SteepestDescent::new(h), x, *max_iter)
            }
        },
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => match &line_search_params.method {
            LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                let s = NewtonCG::new(more(*c1, *c2, *width_tolerance, bounds)?).with_curvature_threshold(*curvature_threshold).with_tolerance(*tolerance)?;
                execute!(prob, s, x, *max_iter)
            }
            LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => {
                let h: Hz = hager!(delta, sigma, epsilon, theta, gamma, eta, bounds);
                let s = NewtonCG::new(h).with_curvature_threshold(*curvature_threshold).with_tolerance(*tolerance)?;
                execute!(prob, s, x, *max_iter)
            }
        },
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => match trust_region_radius_method {
            TrustRegionRadiusMethod::Cauchy => {
                let s = TrustRegion::new(CauchyPoint::new()).with_radius(*radius)?.with_max_radius(*max_radius)?.with_eta(*eta)?;
                execute!(prob, s, x, *max_iter)
            }
            TrustRegionRadiusMethod::Steihaug => {
                let s = TrustRegion::new(Steihaug::new()).with_radius(*radius)?.with_max_radius(*max_radius)?.with_eta(*eta)?;
                execute!(prob, s, x, *max_iter)
            }
        },
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => {
            let mut sx = vec![x.clone()];
            for i in 0..x.len() {
                let mut p = x.clone();
                p[i] += simplex_delta;
                sx.push(p);
            }
            let s = NelderMead::new(sx).with_sd_tolerance(*sd_tolerance)?.with_alpha(*alpha)?.with_gamma(*gamma)?.with_rho(*rho)?.with_sigma(*sigma)?;
            let r = Executor::new(Direct(prob), s).configure(|s| s.max_iters(*max_iter)).run()?;
            Ok((r.state().best_param.clone().ok_or_else(|| Error::msg("no parameters"))?, r.state().best_cost))
        }
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => {
            let cons = prob.constraints();
            let b = prob.spec().bounds.clone();
            let f = |x: &[f64], _: &mut ()| prob.objective(&Array1::from_vec(x.to_vec())).unwrap_or(f64::INFINITY);
            let tols = cobyla::StopTols { ftol_rel: *ftol_rel, ftol_abs: *ftol_abs, xtol_rel: *xtol_rel, xtol_abs: xtol_abs.clone() };
            match cobyla::minimize(f, x.as_slice().unwrap(), &b, &cons, (), *max_iter as usize, cobyla::RhoBeg::All(*initial_step_size), Some(tols)) {
                Ok((_, x, v)) => Ok((Array1::from_vec(x), v)),
                Err(e) => Err(Error::msg(format!("{e:?}"))),
            }
        }
    }
}

/// A configuration in which every value differs from the default and from the other values.
fn rich_cfg(r: &mut Rng, sol: Sol, dim: usize) -> LocalSolverConfig {
    let max_iter = r.range(1, 60) as u64;
    let ls = |r: &mut Rng| {
        if r.chance(0.6) {
            LineSearchParams {
                method: LineSearchMethod::MoreThuente {
                    c1: r.logu(1e-5, 0.3),
                    c2: r.fr(0.31, 0.95),
                    width_tolerance: r.logu(1e-12, 1e-2),
                    bounds: ndarray::array![r.logu(1e-10, 1e-3), r.pick(&[f64::INFINITY, 10.0, 0.5, 1.5])],
                },
            }
        } else {
            LineSearchParams {
                method: LineSearchMethod::HagerZhang {
                    delta: r.fr(0.02, 0.4),
                    sigma: r.fr(0.45, 0.95),
                    epsilon: r.logu(1e-9, 1e-3),
                    theta: r.fr(0.2, 0.8),
                    gamma: r.fr(0.4, 0.9),
                    eta: r.fr(0.005, 0.3),
                    bounds: ndarray::array![r.logu(1e-8, 1e-4), r.pick(&[1e5, 10.0, 1.5])],
                },
            }
        }
    };
    match sol {
        Sol::Lbfgs => LocalSolverConfig::LBFGS {
            max_iter,
            tolerance_grad: r.logu(1e-10, 1.0),
            tolerance_cost: r.logu(1e-16, 1e-1),
            history_size: r.range(1, 12),
            l1_coefficient: if r.chance(0.25) { Some(r.logu(1e-3, 2.0)) } else { None },
            line_search_params: ls(r),
        },
        Sol::Steepest => LocalSolverConfig::SteepestDescent { max_iter, line_search_params: ls(r) },
        Sol::Newton => LocalSolverConfig::NewtonCG { max_iter, curvature_threshold: r.pick(&[0.0, 1e-6, 0.5, 5.0]), tolerance: r.logu(1e-14, 1e-1), line_search_params: ls(r) },
        Sol::Trust => LocalSolverConfig::TrustRegion {
            trust_region_radius_method: if r.chance(0.6) { TrustRegionRadiusMethod::Cauchy } else { TrustRegionRadiusMethod::Steihaug },
            max_iter,
            radius: r.logu(0.02, 2.0),
            max_radius: r.logu(2.0, 200.0),
            eta: r.fr(0.01, 0.24),
        },
        Sol::NelderMead => LocalSolverConfig::NelderMead {
            simplex_delta: r.logu(1e-3, 2.0) * r.pick(&[1.0, 1.0, -1.0]),
            sd_tolerance: r.logu(1e-16, 1e-1),
            max_iter,
            alpha: r.fr(0.6, 1.4),
            gamma: r.fr(1.4, 2.8),
            rho: r.fr(0.25, 0.5),
            sigma: r.fr(0.3, 0.8),
        },
        Sol::Cobyla => LocalSolverConfig::COBYLA {
            max_iter: r.range(1, 200) as u64,
            initial_step_size: r.logu(0.02, 2.0),
            ftol_rel: r.pick(&[0.0, 1e-6, 1e-3, 1e-1]),
            ftol_abs: r.pick(&[0.0, 1e-8, 1e-3, 1e-1]),
            xtol_rel: r.pick(&[0.0, 1e-6, 1e-2]),
            xtol_abs: if r.chance(0.5) { vec![] } else { (0..dim).map(|_| r.logu(1e-8, 1e-1)).collect() },
        },
    }
}

pub fn c19(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 19));
    builders(&mut r, ctx);
    for _ in 0..3 {
        let case = Case::generate(r.u64(), &Profile { p_fault: 0.15, p_constraints: 0.4, ..Default::default() });
        let mut spec = case.spec.clone();
        let mut sol = case.sol;
        if sol == Sol::Newton && !spec.tame_scaling() {
            sol = Sol::Steepest;
        }
        let mut cfg = if sol == Sol::NelderMead && r.chance(0.1) {
            let mut c = wild_cfg(&mut r, sol);
            if let LocalSolverConfig::NelderMead { max_iter, .. } = &mut c {
                *max_iter = r.below(40) as u64;
            }
            c
        } else {
            rich_cfg(&mut r, sol, spec.dim())
        };
        if let (LocalSolverConfig::TrustRegion { trust_region_radius_method, .. }, LocalSolverConfig::TrustRegion { trust_region_radius_method: safe, .. }) = (&mut cfg, &case.params.local_solver_config) {
            // (only where the case generator found Steihaug's loop to end)
            if matches!(safe, TrustRegionRadiusMethod::Cauchy) && spec.kind != Kind::Sphere {
                *trust_region_radius_method = TrustRegionRadiusMethod::Cauchy;
            }
            if spec.kind == Kind::Sphere {
                let d = spec.hess(&rand_point(&mut r, &spec.bounds));
                if !(0..spec.dim()).all(|i| (1e-2..1e2).contains(&d[[i, i]])) {
                    *trust_region_radius_method = TrustRegionRadiusMethod::Cauchy;
                }
            }
        }
        spec.newton_guard = matches!(sol, Sol::Newton | Sol::Trust);
        if spec.newton_guard && !matches!(spec.fault, Fault::ErrRegion(..)) {
            spec.fault = Fault::None;
        }
        let x0 = rand_point(&mut r, &spec.bounds);
        *LAST.lock().unwrap() = format!("{:?} {:?}", spec.kind, cfg_str(&cfg));
        let mut h = Fnv::default();
        h.s(&format!("{:?}{:?}{}{}", spec.kind, std::mem::discriminant(&spec.fault), spec.dim(), cfg_str(&cfg)));
        ctx.classes.insert(h.0);
        ctx.n(&format!("solver_{sol:?}"), 1);
        let run = |how: u8| -> (Res, u64, Vec<Eval>, u64, u64) {
            dependency_panic();
            let p = Prob::new(spec.clone());
            let p2 = p.clone();
            let res = catch_unwind(AssertUnwindSafe(|| match how {
                0 => direct(p2, &cfg, &x0).map(|r| (r, 0)).map_err(|e| e.to_string()),
                1 => LocalSolver::new(p2, sol.ty(), cfg.clone()).solve(x0.clone()).map(|s| ((s.point, s.objective), 0)).map_err(|e| format!("{e:?}")),
                _ => LocalSolver::new(p2, sol.ty(), cfg.clone()).solve_with_tracking(x0.clone(), how == 2).map(|(s, n)| ((s.point, s.objective), n)).map_err(|e| format!("{e:?}")),
            }));
            let (res, n) = match res {
                Ok(Ok((a, n))) => (Ok(a), n),
                Ok(Err(e)) => (Err(e), 0),
                Err(_) if dependency_panic() => (Err("solver panic".into()), 0),
                // argmin's Nelder-Mead unwraps an error of its first simplex
                Err(e) => (Err(format!("PANIC {}", panic_text(e))), 0),
            };
            use std::sync::atomic::Ordering::SeqCst;
            let (g, hs) = (p.0.n_grad.load(SeqCst), p.0.n_hess.load(SeqCst));
            (res, n, p.take_log().evals, g, hs)
        };
        let d = run(0);
        let what = || format!("{sol:?} {:?} fault {:?} from {x0} with {:?}", spec.kind, spec.fault, cfg);
        for how in 1..4u8 {
            let l = run(how);
            ctx.n("solves", 1);
            let panicked = matches!(&l.0, Err(e) if e.starts_with("PANIC"));
            ctx.check(!panicked, "panic", || format!("{:?}; {}", l.0, what()));
            match (&d.0, &l.0) {
                (Ok(a), Ok(b)) => {
                    ctx.check(bits(&a.0) == bits(&b.0), "point", || format!("{} instead of {} ({how}); {}", b.0, a.0, what()));
                    ctx.check(a.1.to_bits() == b.1.to_bits() || (a.1.is_nan() && b.1.is_nan()), "value", || format!("{} instead of {} ({how}); {}", b.1, a.1, what()));
                    let same = d.2.iter().map(ev_key).eq(l.2.iter().map(ev_key));
                    ctx.check(same, "evaluations", || format!("{} instead of {} ({how}); {}", l.2.len(), d.2.len(), what()));
                    ctx.check((d.3, d.4) == (l.3, l.4), "derivatives", || format!("{:?} instead of {:?} ({how}); {}", (l.3, l.4), (d.3, d.4), what()));
                    let want = if how == 2 { l.2.len() as u64 } else { 0 };
                    ctx.check(l.1 == want, "tracked-evaluations", || format!("{} shown, {want} made ({how}); {}", l.1, what()));
                }
                (Err(_), Err(_)) => {
                    ctx.n("errors_agree", 1);
                }
                (a, b) => {
                    ctx.check(false, "outcome", || format!("{b:?} instead of {a:?} ({how}); {}", what()));
                }
            }
        }
        ctx.sample(|| format!("{} -> {:?} after {} evaluations", what(), d.0, d.2.len()));
    }
}

/// Applies setters in a random order and remembers the last value of each.
fn builders(r: &mut Rng, ctx: &mut Ctx) {
    let v = |r: &mut Rng| r.pick(&[0.0, 1.0, -1.0, f64::INFINITY, 1e-300, 0.37]) + r.f();
    let n = r.range(0, 8);
    let ls_def = LineSearchParams::morethuente().build();
    let default_ls = "MT 3f1a36e2eb1c432d 3feccccccccccccd 3ddb7cdfd9d7bdbb";
    ctx.check(ls_str(&ls_def).starts_with(default_ls), "default-linesearch", || ls_str(&ls_def));
    macro_rules! line {
        () => {{
            if r.chance(0.5) {
                let mut b = LineSearchParams::morethuente();
                let (mut c1, mut c2, mut w, mut bs) = (1e-4, 0.9, 1e-10, ndarray::array![f64::EPSILON.sqrt(), f64::INFINITY]);
                if r.chance(0.3) {
                    (c1, c2, w, bs) = (v(r), v(r), v(r), ndarray::array![v(r), v(r)]);
                    b = MoreThuenteBuilder::new(c1, c2, w, bs.clone());
                }
                for _ in 0..r.below(6) {
                    match r.below(4) {
                        0 => { c1 = v(r); b = b.c1(c1); }
                        1 => { c2 = v(r); b = b.c2(c2); }
                        2 => { w = v(r); b = b.width_tolerance(w); }
                        _ => { bs = ndarray::array![v(r), v(r)]; b = b.bounds(bs.clone()); }
                    }
                }
                let want = LineSearchParams { method: LineSearchMethod::MoreThuente { c1, c2, width_tolerance: w, bounds: bs } };
                (b.build(), want)
            } else {
                let mut b = LineSearchParams::hagerzhang();
                let mut x = [0.1, 0.9, 1e-6, 0.5, 0.66, 0.01];
                let mut bs = ndarray::array![f64::EPSILON, 1e5];
                if r.chance(0.3) {
                    for q in x.iter_mut() { *q = v(r); }
                    bs = ndarray::array![v(r), v(r)];
                    b = HagerZhangBuilder::new(x[0], x[1], x[2], x[3], x[4], x[5], bs.clone());
                }
                for _ in 0..r.below(9) {
                    let k = r.below(7);
                    let q = v(r);
                    if k < 6 { x[k] = q; }
                    b = match k {
                        0 => b.delta(q),
                        1 => b.sigma(q),
                        2 => b.epsilon(q),
                        3 => b.theta(q),
                        4 => b.gamma(q),
                        5 => b.eta(q),
                        _ => { bs = ndarray::array![q, v(r)]; b.bounds(bs.clone()) }
                    };
                }
                let want = LineSearchParams { method: LineSearchMethod::HagerZhang { delta: x[0], sigma: x[1], epsilon: x[2], theta: x[3], gamma: x[4], eta: x[5], bounds: bs } };
                (b.build(), want)
            }
        }};
    }
    let (ls, ls_want) = line!();
    ctx.check(ls_str(&ls) == ls_str(&ls_want), "line-search-builder", || format!("{} instead of {}", ls_str(&ls), ls_str(&ls_want)));
    let (got, want) = match r.below(6) {
        0 => {
            let mut b = LocalSolverConfig::lbfgs();
            let (mut mi, mut tg, mut tc, mut hs, mut l1, mut l) = (300u64, f64::EPSILON.sqrt(), f64::EPSILON, 10usize, None, ls_def.clone());
            if r.chance(0.3) {
                (mi, tg, tc, hs, l1, l) = (r.u64(), v(r), v(r), r.below(99), Some(v(r)), ls.clone());
                b = LBFGSBuilder::new(mi, tg, tc, hs, l1, l.clone());
            }
            for _ in 0..n {
                match r.below(6) {
                    0 => { mi = r.u64(); b = b.max_iter(mi); }
                    1 => { tg = v(r); b = b.tolerance_grad(tg); }
                    2 => { tc = v(r); b = b.tolerance_cost(tc); }
                    3 => { hs = r.below(1000); b = b.history_size(hs); }
                    4 => { l1 = if r.chance(0.7) { Some(v(r)) } else { None }; b = b.l1_coefficient(l1); }
                    _ => { l = ls.clone(); b = b.line_search_params(l.clone()); }
                }
            }
            (b.build(), LocalSolverConfig::LBFGS { max_iter: mi, tolerance_grad: tg, tolerance_cost: tc, history_size: hs, l1_coefficient: l1, line_search_params: l })
        }
        1 => {
            let mut b = LocalSolverConfig::neldermead();
            let mut mi = 300u64;
            let mut x = [0.1, f64::EPSILON, 1.0, 2.0, 0.5, 0.5];
            if r.chance(0.3) {
                mi = r.u64();
                for q in x.iter_mut() { *q = v(r); }
                b = NelderMeadBuilder::new(x[0], x[1], mi, x[2], x[3], x[4], x[5]);
            }
            for _ in 0..n {
                let k = r.below(7);
                let q = v(r);
                if k < 6 { x[k] = q; }
                b = match k {
                    0 => b.simplex_delta(q),
                    1 => b.sd_tolerance(q),
                    2 => b.alpha(q),
                    3 => b.gamma(q),
                    4 => b.rho(q),
                    5 => b.sigma(q),
                    _ => { mi = r.u64(); b.max_iter(mi) }
                };
            }
            (b.build(), LocalSolverConfig::NelderMead { simplex_delta: x[0], sd_tolerance: x[1], max_iter: mi, alpha: x[2], gamma: x[3], rho: x[4], sigma: x[5] })
        }
        2 => {
            let mut b = LocalSolverConfig::steepestdescent();
            let (mut mi, mut l) = (300u64, ls_def.clone());
            if r.chance(0.3) {
                (mi, l) = (r.u64(), ls.clone());
                b = SteepestDescentBuilder::new(mi, l.clone());
            }
            for _ in 0..n {
                if r.chance(0.5) { mi = r.u64(); b = b.max_iter(mi); } else { l = ls.clone(); b = b.line_search_params(l.clone()); }
            }
            (b.build(), LocalSolverConfig::SteepestDescent { max_iter: mi, line_search_params: l })
        }
        3 => {
            let mut b = LocalSolverConfig::trustregion();
            let (mut mi, mut x, mut m) = (300u64, [1.0, 100.0, 0.125], TrustRegionRadiusMethod::Cauchy);
            if r.chance(0.3) {
                mi = r.u64();
                for q in x.iter_mut() { *q = v(r); }
                m = TrustRegionRadiusMethod::Steihaug;
                b = TrustRegionBuilder::new(m.clone(), mi, x[0], x[1], x[2]);
            }
            for _ in 0..n {
                let k = r.below(5);
                let q = v(r);
                if k < 3 { x[k] = q; }
                b = match k {
                    0 => b.radius(q),
                    1 => b.max_radius(q),
                    2 => b.eta(q),
                    3 => { mi = r.u64(); b.max_iter(mi) }
                    _ => { m = if r.chance(0.5) { TrustRegionRadiusMethod::Cauchy } else { TrustRegionRadiusMethod::Steihaug }; b.method(m.clone()) }
                };
            }
            (b.build(), LocalSolverConfig::TrustRegion { trust_region_radius_method: m, max_iter: mi, radius: x[0], max_radius: x[1], eta: x[2] })
        }
        4 => {
            let mut b = LocalSolverConfig::newton_cg();
            let (mut mi, mut ct, mut t, mut l) = (300u64, 0.0, f64::EPSILON, ls_def.clone());
            if r.chance(0.3) {
                (mi, ct, t, l) = (r.u64(), v(r), v(r), ls.clone());
                b = NewtonCGBuilder::new(mi, ct, t, l.clone());
            }
            for _ in 0..n {
                match r.below(4) {
                    0 => { mi = r.u64(); b = b.max_iter(mi); }
                    1 => { ct = v(r); b = b.curvature_threshold(ct); }
                    2 => { t = v(r); b = b.tolerance(t); }
                    _ => { l = ls.clone(); b = b.line_search_params(l.clone()); }
                }
            }
            (b.build(), LocalSolverConfig::NewtonCG { max_iter: mi, curvature_threshold: ct, tolerance: t, line_search_params: l })
        }
        _ => {
            let mut b = LocalSolverConfig::cobyla();
            let (mut mi, mut x, mut xa) = (300u64, [0.5, 1e-6, 1e-8, 0.0], Vec::<f64>::new());
            if r.chance(0.3) {
                mi = r.u64();
                x[0] = v(r);
                b = COBYLABuilder::new(mi, x[0]);
            }
            for _ in 0..n {
                let k = r.below(6);
                let q = v(r);
                if k < 4 { x[k] = q; }
                b = match k {
                    0 => b.initial_step_size(q),
                    1 => b.ftol_rel(q),
                    2 => b.ftol_abs(q),
                    3 => b.xtol_rel(q),
                    4 => { mi = r.u64(); b.max_iter(mi) }
                    _ => { xa = (0..r.below(4)).map(|_| v(r)).collect(); b.xtol_abs(xa.clone()) }
                };
            }
            (b.build(), LocalSolverConfig::COBYLA { max_iter: mi, initial_step_size: x[0], ftol_rel: x[1], ftol_abs: x[2], xtol_rel: x[3], xtol_abs: xa })
        }
    };
    ctx.n("builder_sequences", 1);
    ctx.check(cfg_str(&got) == cfg_str(&want), "builder", || format!("{got:?} instead of {want:?}"));
    // Names, in any mixture of cases
    let names = [("lbfgs", Sol::Lbfgs), ("nelder-mead", Sol::NelderMead), ("neldermead", Sol::NelderMead), ("steepestdescent", Sol::Steepest), ("trustregion", Sol::Trust), ("newton-cg", Sol::Newton), ("newtoncg", Sol::Newton), ("cobyla", Sol::Cobyla)];
    let (nm, s) = r.pick(&names);
    let mixed: String = nm.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect();
    ctx.check(LocalSolverType::from_string(&mixed) == Ok(s.ty()), "solver-name", || format!("{mixed}: {:?}", LocalSolverType::from_string(&mixed)));
    let bad = r.pick(&["", "bfgs", "lbfgs ", " cobyla", "nelder_mead", "newton", "trust-region", "x", "steepest", "lbfgs\0"]);
    ctx.check(LocalSolverType::from_string(bad).is_err(), "solver-name-accepted", || format!("{bad:?}: {:?}", LocalSolverType::from_string(bad)));
}

// ---------------------------------------------------------------------------------------- C20
fn seeds_of(spec: &Spec) -> Vec<Array1<f64>> {
    let b = &spec.bounds;
    vec![
        Array1::from_iter(b.iter().map(|b| b.0)),
        Array1::from_iter(b.iter().map(|b| b.1)),
        Array1::from_iter(b.iter().map(|b| (b.0 + b.1) / 2.0)),
    ]
}
fn near(a: &Array1<f64>, b: &Array1<f64>, spec: &Spec) -> bool {
    a.iter().zip(b).zip(&spec.bounds).all(|((x, y), (l, h))| (x - y).abs() <= 1e-11 * (h - l) + 4.0 * f64::EPSILON * l.abs().max(h.abs()))
}
pub fn c20(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 20));
    let mut case = Case::generate(seed, &Profile { p_fault: 0.05, p_constraints: 0.3, p_target: 0.05, max_pop: 24, ..Default::default() });
    if r.chance(0.5) {
        many_searches(&mut case, &mut r);
    }
    if matches!(case.spec.fault, Fault::ErrRegion(..)) {
        case.spec.fault = Fault::None;
    }
    let spec = &case.spec;
    let n = match r.below(8) {
        0 => r.range(98, 130),
        1 => r.range(20, 60),
        2 => 0,
        3 => case.params.population_size,
        _ => r.range(1, 8),
    };
    // A good point found beforehand, among others
    let mut best_known = rand_point(&mut r, &spec.bounds);
    for _ in 0..400 {
        let p = rand_point(&mut r, &spec.bounds);
        if spec.feasible(&p) && spec.value(&p).is_ok_and(|v| !(v >= spec.value(&best_known).unwrap_or(f64::INFINITY))) {
            best_known = p;
        }
    }
    let seeds = seeds_of(spec);
    let custom: Vec<Array1<f64>> = (0..n)
        .map(|i| match r.below(12) {
            0 => best_known.clone(),
            1 => seeds[r.below(3)].clone(),
            2 => Array1::from_iter(spec.bounds.iter().map(|(l, h)| if r.chance(0.5) { *l } else { *h })),
            3 if i > 0 => {
                // within a hair of the best one
                Array1::from_iter(best_known.iter().zip(&spec.bounds).map(|(x, (l, h))| (x + 1e-9 * (h - l)).clamp(*l, *h)))
            }
            _ => rand_point(&mut r, &spec.bounds),
        })
        .collect();
    case.custom = Some(custom.clone());
    let spec = case.spec.clone();
    ctx.classes.insert(case.class());
    let run = exec(&case, None, None);
    if run.out.is_panic() {
        ctx.check(false, "panic", || format!("{}; {}", run.out.short(), case.brief()));
        return;
    }
    let what = || case.brief();
    // Whatever the outcome: nothing that violates a constraint is evaluated in Stage 1, so no infeasible
    // custom point is among the evaluations of Stage 1
    let (s1, ev1) = run_stage1(&case, case.parallel, case.threads);
    let feas: Vec<&Array1<f64>> = custom.iter().filter(|p| spec.feasible(p)).collect();
    for p in custom.iter().filter(|p| !spec.feasible(p)) {
        ctx.check(!ev1.iter().any(|e| bits(&e.point) == bits(p)), "infeasible-evaluated", || format!("{p}; {}", what()));
    }
    ctx.n("infeasible_points", (custom.len() - feas.len()) as u64);
    let Ok(s1) = s1 else {
        ctx.discarded += 1;
        return;
    };
    let Some(n0) = init_count(&case) else { return };
    let init = &ev1[..n0.min(ev1.len())];
    let fs: Vec<&Array1<f64>> = seeds.iter().filter(|p| spec.feasible(p)).collect();
    ctx.n("custom_points", feas.len() as u64);
    // Exactly once per occurrence, bit by bit
    let mut need: std::collections::HashMap<Vec<u64>, usize> = Default::default();
    for p in &feas {
        *need.entry(bits(p)).or_default() += 1;
    }
    let mut near_seed = 0;
    for (k, c) in &need {
        let got = init.iter().filter(|e| &bits(&e.point) == k).count();
        let p = Array1::from_iter(k.iter().map(|b| f64::from_bits(*b)));
        let as_seed = fs.iter().filter(|s| near(s, &p, &spec)).count();
        near_seed += as_seed;
        ctx.check(got >= *c && got <= c + as_seed, "custom-point", || format!("{p} given {c} times, evaluated {got} times as such; {}", what()));
    }
    let _ = near_seed;
    for s in &fs {
        ctx.check(init.iter().any(|e| near(&e.point, s, &spec)), "seed-point", || format!("{s} not evaluated; {}", what()));
    }
    ctx.check(n0 == case.params.population_size.max(fs.len() + feas.len()), "population", || format!("{n0} initial points, {} seeds and {} custom points; {}", fs.len(), feas.len(), what()));
    // No further duplicate of a custom point in the population
    for k in need.keys() {
        let c = s1.refset.iter().filter(|(p, _)| &bits(p) == k).count();
        let got = ev1.iter().filter(|e| &bits(&e.point) == k).count();
        ctx.check(c <= got, "duplicated", || format!("{c} copies kept of {got} evaluated; {}", what()));
    }
    // The best custom point is not lost
    let best = feas.iter().filter_map(|p| spec.value(p).ok()).filter(|v| !v.is_nan()).fold(f64::INFINITY, f64::min);
    if best < f64::INFINITY {
        let b = spec.value(&s1.best).unwrap_or(f64::NAN);
        ctx.check(b <= best, "best-custom-lost", || format!("Stage 1 found {b}, custom point {best}; {}", what()));
        ctx.check(s1.refset.iter().any(|(_, v)| *v <= best), "best-custom-not-kept", || what());
        if let Some(set) = &run.set {
            // The local search of Stage 1 starts at a point at least as good
            let l = LocalOracle::new(&case).solve(&s1.best);
            if let Ok(l) = &l.res {
                let kept = !case.exclude || spec.in_bounds(&l.point);
                if l.objective <= b && kept && spec.constraints.is_empty() {
                    ctx.n("results_compared", 1);
                    let f = set.best_solution().unwrap().objective;
                    let tol = Rules::of(&case).tol(f, best);
                    ctx.check(f - tol * 1.0000001 <= best, "result-worse-than-custom", || format!("{f} returned, custom point {best}; {}", what()));
                }
            }
        }
    }
    ctx.sample(|| format!("{} custom points ({} feasible), population {n0}; {}", custom.len(), feas.len(), case.brief()));
}

// ---------------------------------------------------------------------------------------- C21
pub fn c21(seed: u64, ctx: &mut Ctx) {
    let mut case = Case::generate(seed, &Profile { p_fault: 0.1, p_constraints: 0.25, max_pop: 40, p_big_pop: 0.15, p_custom: 0.4, ..Default::default() });
    if matches!(case.spec.fault, Fault::ErrRegion(..)) {
        case.spec.fault = Fault::None;
    }
    let spec = case.spec.clone();
    let pop = case.params.population_size;
    ctx.classes.insert(case.class());
    let (s1, ev) = run_stage1(&case, case.parallel, case.threads);
    let what = || case.brief();
    let s1 = match s1 {
        Ok(s) => s,
        Err(e) => {
            ctx.check(!e.starts_with("PANIC"), "panic", || format!("{e}; {}", what()));
            ctx.discarded += 1;
            return;
        }
    };
    // A second instance, driven step by step
    let prob = Prob::new(spec.clone());
    let par = case.parallel;
    let fresh = |p: Prob| {
        let mut ss = ScatterSearch::new(p, case.params.clone()).unwrap().par(par);
        if let Some(c) = &case.custom {
            ss = ss.with_custom_points(c.clone());
        }
        ss
    };
    let stepped = on_pool(case.threads, || {
        catch_unwind(AssertUnwindSafe(|| {
            let mut ss = fresh(prob.clone());
            ss.initialize_reference_set().map_err(|e| format!("{e:?}"))?;
            let n0 = prob.count() as usize;
            let trials = ss.generate_trial_points().map_err(|e| format!("{e:?}"))?;
            // A second round: its trial points combine the best points of the updated set
            let before = prob.count();
            ss.update_reference_set(&trials);
            let second = if prob.count() > before { ss.generate_trial_points().map_err(|e| format!("{e:?}"))? } else { vec![] };
            let pool = fresh(Prob::silent(&spec));
            let mut samples = pool.generate_stratified_samples(pop).map_err(|e| format!("{e:?}"))?;
            if !spec.constraints.is_empty() {
                samples.retain(|p| spec.feasible(p));
                let mut k = 0;
                while samples.len() < pop && k < 10 {
                    samples.extend(pool.generate_stratified_samples(2 * pop).map_err(|e| format!("{e:?}"))?.into_iter().filter(|p| spec.feasible(p)));
                    k += 1;
                }
            }
            Ok::<_, String>((n0, trials, samples, second))
        }))
    });
    let (n0, trials, pool, second) = match stepped {
        Ok(Ok(x)) => x,
        other => {
            ctx.check(false, "steps", || format!("{:?}; {}", other.map(|r| r.map(|_| ())).map_err(panic_text), what()));
            return;
        }
    };
    let init: Vec<&Eval> = ev[..n0.min(ev.len())].iter().collect();
    ctx.n("initial_points", n0 as u64);
    // Samples lie in the box and are spread over it
    ctx.check(pool.iter().all(|p| spec.in_bounds(p)), "sample-out-of-bounds", || what());
    // 1. Initial population: corners, midpoint, custom points, samples chosen greedily
    let mut base: Vec<Array1<f64>> = seeds_of(&spec).into_iter().filter(|p| spec.feasible(p)).collect();
    base.extend(case.custom.iter().flatten().filter(|p| spec.feasible(p)).cloned());
    let take = pop.saturating_sub(base.len());
    ctx.check(n0 == base.len() + take, "population-size", || format!("{n0} initial points instead of {}; {}", base.len() + take, what()));
    let mut rest: Vec<Vec<u64>> = init.iter().map(|e| bits(&e.point)).collect();
    let mut missing = 0;
    for s in &base {
        match rest.iter().position(|q| q == &bits(s)).or_else(|| rest.iter().position(|q| near(&Array1::from_iter(q.iter().map(|b| f64::from_bits(*b))), s, &spec))) {
            Some(k) => {
                rest.swap_remove(k);
            }
            None => missing += 1,
        }
    }
    ctx.check(missing == 0, "seed-missing", || format!("{missing} of corners, midpoint and custom points not evaluated; {}", what()));
    // our own greedy choice; the comparison is dropped when two choices are (nearly) tied
    let mut chosen = base.clone();
    let mut left = pool.clone();
    let mut tie = false;
    let mut dist: Vec<f64> = left.iter().map(|p| chosen.iter().map(|q| d2(p, q)).fold(f64::INFINITY, f64::min)).collect();
    while chosen.len() < pop && !left.is_empty() {
        let k = (0..left.len()).max_by(|a, b| dist[*a].total_cmp(&dist[*b])).unwrap();
        let top = dist[k];
        if dist.iter().enumerate().any(|(i, d)| i != k && *d >= top * (1.0 - 1e-9)) {
            tie = true;
        }
        let p = left.swap_remove(k);
        dist.swap_remove(k);
        for (i, q) in left.iter().enumerate() {
            dist[i] = dist[i].min(d2(q, &p));
        }
        chosen.push(p);
    }
    if !tie && missing == 0 {
        let want = sorted(chosen[base.len().min(chosen.len())..].iter().map(bits).collect::<Vec<_>>());
        ctx.n("greedy_choices", want.len() as u64);
        ctx.check(sorted(rest.clone()) == want, "not-greedy", || {
            let odd = rest.iter().filter(|q| !want.contains(q)).count();
            format!("{odd} of {} chosen points are not the farthest ones; {}", rest.len(), what())
        });
    }
    // 2. Trial points combine pairs of the best points
    let key = |v: f64| if v.is_nan() { (1, 0.0) } else { (0, v) };
    let less = |a: f64, b: f64| key(a).0.cmp(&key(b).0).then(key(a).1.total_cmp(&key(b).1));
    let mut sortd: Vec<(Array1<f64>, f64)> = init.iter().map(|e| (e.point.clone(), e.value.unwrap_or(f64::NAN))).collect();
    sortd.sort_by(|a, b| less(a.1, b.1));
    let k = ((n0 as f64).sqrt() as usize).max(2).min(n0);
    let distinct_top = (0..k.min(n0 - 1)).all(|i| less(sortd[i].1, sortd[i + 1].1).is_lt());
    ctx.check(trials.len() == 6 * k * (k - 1) / 2, "trial-count", || format!("{} trial points from {k} points; {}", trials.len(), what()));
    if distinct_top {
        ctx.n("trial_sets", 1);
        let mut pool: Vec<&Array1<f64>> = trials.iter().collect();
        let clamp = |p: Array1<f64>| Array1::from_iter(p.iter().zip(&spec.bounds).map(|(v, (l, h))| v.clamp(*l, *h)));
        let mut lost = vec![];
        for i in 0..k {
            for j in i + 1..k {
                let (a, b) = (&sortd[i].0, &sortd[j].0);
                for al in [0.25, 0.5, 0.75, 1.25] {
                    let w = clamp(a * al + b * (1.0 - al));
                    match pool.iter().position(|p| near(p, &w, &spec)) {
                        Some(q) => {
                            pool.swap_remove(q);
                        }
                        None => lost.push((i, j, al)),
                    }
                }
            }
        }
        ctx.check(lost.is_empty(), "combination-missing", || format!("{lost:?}; {}", what()));
        // the others: perturbed midpoints, within a tenth of the width
        let bad = pool.iter().filter(|p| {
            !(0..k).any(|i| {
                (i + 1..k).any(|j| {
                    let m = (&sortd[i].0 + &sortd[j].0) / 2.0;
                    p.iter().zip(&m).zip(&spec.bounds).all(|((x, c), (l, h))| (x - c.clamp(*l, *h)).abs() <= 0.1 * (h - l) * (1.0 + 1e-9) + 4.0 * f64::EPSILON * l.abs().max(h.abs()))
                })
            })
        });
        let bad = bad.count();
        ctx.check(bad == 0, "perturbation", || format!("{bad} perturbed points far from every midpoint; {}", what()));
        ctx.check(trials.iter().all(|p| spec.in_bounds(p)), "trial-out-of-bounds", || what());
    }
    // 3. Which of them were evaluated
    let later = &ev[n0.min(ev.len())..];
    ctx.n("trial_evaluations", later.len() as u64);
    let mut bagged: std::collections::HashMap<Vec<u64>, i64> = Default::default();
    for t in &trials {
        *bagged.entry(bits(t)).or_default() += 1;
    }
    let mut extra = 0;
    for e in later {
        let c = bagged.entry(bits(&e.point)).or_default();
        *c -= 1;
        if *c < 0 {
            extra += 1;
        }
    }
    ctx.check(extra == 0, "unknown-trial", || format!("{extra} evaluated points are no trial points; {}", what()));
    if (0..(k + 1).max(5).min(n0 - 1)).all(|i| less(sortd[i].1, sortd[i + 1].1).is_lt()) && n0 >= 2 {
        let thr = (0..k).map(|i| d2(&sortd[i].0, &sortd[(i + 1) % n0].0)).sum::<f64>() / k as f64 * 0.10;
        for t in &trials {
            let c = trials.iter().filter(|q| bits(q) == bits(t)).count();
            let done = later.iter().filter(|e| bits(&e.point) == bits(t)).count();
            let m = sortd.iter().take(5).map(|(p, _)| d2(p, t)).fold(f64::INFINITY, f64::min);
            let scale = spec.bounds.iter().map(|(l, h)| (l.abs().max(h.abs()) * 1e-15).powi(2)).sum::<f64>().sqrt();
            if (m - thr).abs() <= 1e-9 * thr + scale * m.sqrt().max(thr.sqrt()) * 8.0 {
                continue;
            }
            let want = if spec.feasible(t) && m > thr { c } else { 0 };
            ctx.n("trial_decisions", 1);
            ctx.check(done == want, "trial-filter", || format!("{t} evaluated {done} times instead of {want}: distance² {m}, threshold {thr}, feasible {}; {}", spec.feasible(t), what()));
        }
    }
    // 4. The final reference set: the best of everything evaluated, each with its own value
    for (p, v) in &s1.refset {
        let ok = ev.iter().any(|e| bits(&e.point) == bits(p) && e.value.is_ok_and(|w| w.to_bits() == v.to_bits() || (w.is_nan() && v.is_nan())));
        ctx.check(ok, "pairing", || format!("{p} with {v}; {}", what()));
    }
    let worst = sortd.last().unwrap().1;
    let worst = if worst.is_nan() { f64::INFINITY } else { worst };
    let improving = later.iter().filter(|e| e.value.is_ok_and(|v| v < worst)).count();
    if improving > 0 && !second.is_empty() {
        let mut all = sortd.clone();
        all.extend(later.iter().filter(|e| e.value.is_ok_and(|v| v < worst)).map(|e| (e.point.clone(), e.value.unwrap())));
        all.sort_by(|a, b| less(a.1, b.1));
        let k = ((pop as f64).sqrt() as usize).max(2).min(pop);
        if all.len() > k && (0..k).all(|i| less(all[i].1, all[i + 1].1).is_lt()) {
            ctx.n("second_rounds", 1);
            let clamp = |p: Array1<f64>| Array1::from_iter(p.iter().zip(&spec.bounds).map(|(v, (l, h))| v.clamp(*l, *h)));
            let mut lost = 0;
            for i in 0..k {
                for j in i + 1..k {
                    let m = clamp(&all[i].0 * 0.5 + &all[j].0 * 0.5);
                    lost += !second.iter().any(|p| near(p, &m, &spec)) as usize;
                }
            }
            ctx.check(lost == 0, "second-round-not-best", || format!("{lost} of {} pairs of the best points of the updated set are not combined; {}", k * (k - 1) / 2, what()));
        }
    }
    let want: Vec<f64> = if improving == 0 {
        sortd.iter().map(|x| x.1).collect()
    } else {
        let mut v: Vec<f64> = sortd.iter().map(|x| x.1).chain(later.iter().filter_map(|e| e.value.ok()).filter(|v| *v < worst)).collect();
        v.sort_by(|a, b| less(*a, *b));
        v.truncate(pop);
        v
    };
    let mut got: Vec<f64> = s1.refset.iter().map(|x| x.1).collect();
    got.sort_by(|a, b| less(*a, *b));
    ctx.n("improving_trials", improving as u64);
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
    ctx.check(same, "reference-set", || format!("{} values kept, {} expected, first difference {:?}; {}", got.len(), want.len(), got.iter().zip(&want).find(|(a, b)| a != b), what()));
    // no evaluated point is kept more often than it was evaluated
    let mut copies: std::collections::HashMap<Vec<u64>, i64> = Default::default();
    for e in &ev {
        *copies.entry(bits(&e.point)).or_default() += 1;
    }
    let dup = s1.refset.iter().filter(|(p, _)| {
        let c = copies.entry(bits(p)).or_default();
        *c -= 1;
        *c < 0
    });
    let dup = dup.count();
    ctx.check(dup == 0, "copies", || format!("{dup} points kept more often than evaluated; {}", what()));
    let b = spec.value(&s1.best).unwrap_or(f64::NAN);
    ctx.check(want.first().is_some_and(|w| *w == b || (w.is_nan() && b.is_nan())), "best", || format!("{b} returned, {:?} best; {}", want.first(), what()));
    // Spread of the samples, over many cases: counts per half of each variable
    let (mut lo, mut hi) = (0u64, 0u64);
    for p in &pool {
        for (v, (l, h)) in p.iter().zip(&spec.bounds) {
            if *v < l + (h - l) / 2.0 { lo += 1 } else { hi += 1 }
        }
    }
    if spec.constraints.is_empty() {
        let n = (lo + hi) as f64;
        // eight standard deviations: no fair sample gets there
        ctx.check((lo as f64 - n / 2.0).abs() <= 4.0 * n.sqrt() + 1.0, "lopsided-samples", || format!("{lo} below, {hi} above; {}", what()));
        ctx.n("samples_below_middle", lo);
        ctx.n("samples_above_middle", hi);
    }
    ctx.sample(|| format!("{n0} initial points, {} trial points, {} evaluated, {improving} improving; {}", trials.len(), later.len(), case.brief()));
}

// ---------------------------------------------------------------------------------------- C24
pub fn c24(seed: u64, ctx: &mut Ctx) {
    let mut r = Rng::new(mix(seed, 24));
    for _ in 0..10 {
        let dim = if r.chance(0.1) { r.range(0, 12) } else { r.range(1, 4) };
        let n = if r.chance(0.1) { r.range(20, 60) } else { r.below(8) };
        let val = |r: &mut Rng| match r.below(12) {
            0 => f64::NAN,
            1 => -f64::NAN,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => 0.0,
            5 => -0.0,
            6 => 1.5,
            7 => r.fr(-1.0, 1.0) * 1e-300,
            8 => r.fr(-1.0, 1.0) * 1e300,
            _ => r.fr(-10.0, 10.0),
        };
        let fin = |r: &mut Rng| r.fr(-5.0, 5.0) * r.pick(&[1.0, 1e-9, 1e9]);
        let sols: Vec<LocalSolution> = (0..n).map(|_| LocalSolution { point: Array1::from_iter((0..dim).map(|_| fin(&mut r))), objective: val(&mut r) }).collect();
        let set = SolutionSet { solutions: Array1::from_vec(sols.clone()) };
        let mut h = Fnv::default();
        for s in &sols {
            h.f(s.objective).fs(&s.point);
        }
        h.w(dim as u64);
        ctx.classes.insert(h.0);
        check_set(&set, &sols, ctx);
        let nc = if dim == 0 { 0 } else { r.below(4) };
        let mut spec = gen_spec(&mut r, dim.max(1), &KINDS);
        spec.constraints = (0..nc).map(|_| r.below(12)).collect();
        let prob = Prob::silent(&spec);
        let nd = if r.chance(0.5) { nc } else { r.below(5) };
        let names: Vec<String> = (0..nd).map(|i| format!("name {i}")).collect();
        let ds: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let given = r.chance(0.6);
        let text = set.display_with_constraints(&prob, given.then_some(&ds[..]));
        check_text(&text, &sols, &spec, if given { &ds } else { &[] }, ctx);
        let text = set.display_with_problem(&prob);
        check_text(&text, &sols, &spec, &[], ctx);
        if nc == 0 {
            ctx.check(text == format!("{set}"), "plain-form", || text.clone());
        }
        ctx.sample(|| format!("{n} members of {dim} variables, {nc} constraints"));
    }
    // And the set of a real run
    let case = crate::props_b::small_case(seed);
    let run = exec(&case, None, None);
    if let Some(set) = &run.set {
        let sols: Vec<LocalSolution> = set.solutions.iter().cloned().collect();
        check_set(set, &sols, ctx);
        check_text(&set.display_with_problem(&Prob::silent(&case.spec)), &sols, &case.spec, &[], ctx);
        ctx.n("run_sets", 1);
    }
}
fn check_set(set: &SolutionSet, sols: &[LocalSolution], ctx: &mut Ctx) {
    let what = || format!("{:?}", sols.iter().map(|s| s.objective).collect::<Vec<_>>());
    let eq = |a: &LocalSolution, b: &LocalSolution| bits(&a.point) == bits(&b.point) && a.objective.to_bits() == b.objective.to_bits();
    ctx.n("sets", 1);
    ctx.check(set.len() == sols.len() && set.is_empty() == sols.is_empty(), "length", || format!("{} {}; {}", set.len(), set.is_empty(), what()));
    let it: Vec<&LocalSolution> = set.solutions().collect();
    ctx.check(it.len() == sols.len() && it.iter().zip(sols).all(|(a, b)| eq(a, b)), "iteration", || what());
    ctx.check((0..sols.len()).all(|i| eq(&set[i], &sols[i])), "index", || what());
    ctx.check(sols.iter().all(|s| s.fun().to_bits() == s.objective.to_bits() && bits(&s.x()) == bits(&s.point)), "member", || what());
    ctx.check(catch_unwind(AssertUnwindSafe(|| set[sols.len()].objective)).is_err(), "index-past-the-end", || what());
    match set.best_solution() {
        None => {
            ctx.check(sols.is_empty(), "no-best", || what());
        }
        Some(b) => {
            ctx.check(sols.iter().any(|s| eq(s, b)), "best-not-a-member", || what());
            let nums: Vec<f64> = sols.iter().map(|s| s.objective).filter(|v| !v.is_nan()).collect();
            if nums.is_empty() {
                ctx.check(b.objective.is_nan(), "best", || what());
            } else {
                ctx.check(!b.objective.is_nan() && nums.iter().all(|v| b.objective <= *v), "best", || format!("{} of {}", b.objective, what()));
            }
        }
    }
    check_plain(&format!("{set}"), sols, ctx);
}
fn check_plain(text: &str, sols: &[LocalSolution], ctx: &mut Ctx) {
    let mut spec = gen_spec(&mut Rng::new(1), 1, &KINDS);
    spec.constraints.clear();
    check_text(text, sols, &spec, &[], ctx);
}
/// Parses a printed set back.
fn check_text(text: &str, sols: &[LocalSolution], spec: &Spec, names: &[&str], ctx: &mut Ctx) {
    ctx.n("texts", 1);
    let total: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("Total solutions: ")).collect();
    ctx.check(total == [sols.len().to_string()], "printed-total", || text.to_string());
    let best: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("Best objective value: ")).collect();
    let nums = sols.iter().map(|s| s.objective).filter(|v| !v.is_nan()).fold(f64::INFINITY, f64::min);
    if sols.is_empty() {
        ctx.check(best.is_empty(), "printed-best", || text.to_string());
    } else {
        let all_nan = sols.iter().all(|s| s.objective.is_nan());
        let ok = best.len() == 1 && if all_nan { best[0].parse::<f64>().is_ok_and(|v| v.is_nan()) } else { best[0].parse::<f64>().ok() == format!("{nums:.8e}").parse::<f64>().ok() };
        ctx.check(ok, "printed-best", || text.to_string());
    }
    let blocks: Vec<&str> = text.split("Solution #").skip(1).collect();
    ctx.check(blocks.len() == sols.len(), "printed-members", || text.to_string());
    let close = |s: &str, v: f64| match s.trim().parse::<f64>() {
        Ok(x) => x == v || (x.is_nan() && v.is_nan()) || (x - v).abs() <= 1e-8 * v.abs() * 1.01,
        Err(_) => false,
    };
    for (i, (b, s)) in blocks.iter().zip(sols).enumerate() {
        let lines: Vec<&str> = b.lines().collect();
        ctx.check(lines[0].trim() == (i + 1).to_string(), "printed-number", || text.to_string());
        let obj: Vec<&str> = b.lines().filter_map(|l| l.trim().strip_prefix("Objective: ")).collect();
        ctx.check(obj.len() == 1 && close(obj[0], s.objective), "printed-objective", || format!("{obj:?} for {}", s.objective));
        let (a, z) = (b.find('['), b.find(']'));
        let ok = match (a, z) {
            (Some(a), Some(z)) if a < z => {
                let inner = &b[a + 1..z];
                let vals: Vec<&str> = if inner.trim().is_empty() { vec![] } else { inner.split(',').collect() };
                vals.len() == s.point.len() && vals.iter().zip(&s.point).all(|(t, v)| close(t, *v))
            }
            _ => false,
        };
        ctx.check(ok, "printed-parameters", || format!("{} in {b}", s.point));
        let cl: Vec<&str> = b.lines().map(|l| l.trim()).filter(|l| l.starts_with("Constraint ") && !l.starts_with("Constraint violations")).collect();
        ctx.check(cl.len() == spec.constraints.len(), "printed-constraints", || b.to_string());
        for (j, (l, c)) in cl.iter().zip(&spec.constraints).enumerate() {
            let v = (CONSTRAINTS[*c].1)(s.point.as_slice().unwrap(), &mut ());
            let violated = v < 0.0;
            ctx.n("constraint_lines", 1);
            ctx.check(l.contains('✗') == violated && l.contains('✓') != violated && l.contains("violated") == violated, "constraint-mark", || format!("{v}: {l}"));
            ctx.check(l.starts_with(&format!("Constraint {}", j + 1)), "constraint-number", || l.to_string());
            let shown = l.split(['✓', '✗']).nth(1).and_then(|t| t.trim().split(' ').next());
            ctx.check(shown.and_then(|t| t.parse::<f64>().ok()).is_some_and(|x| x == v || (x - v).abs() <= 1.01e-6 * v.abs()), "constraint-value", || format!("{v}: {l}"));
            ctx.check(match names.get(j) { Some(n) => l.contains(&format!("[{n}]")), None => !l.contains('[') }, "constraint-name", || l.to_string());
        }
    }
}

//! N02: Newton's method runs on monitored functions; every evaluation, Jacobian solve and line search step is logged
//! and the log and the returned state are judged.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::{DifferentiableVectorFunction, VectorFunction};
use fenris_optimize::newton::*;
use std::cell::RefCell;
use std::error::Error;
use vlib::{Case, Run};

#[derive(Clone, Debug)]
enum Fun {
    /// A x - b
    Linear(DMatrix<f64>, DVector<f64>),
    /// A atan(B (x - r)): Newton overshoots far away, backtracking converges
    Atan(DMatrix<f64>, DMatrix<f64>, DVector<f64>),
    /// A (y + e y^3 + d sin y_{i+1}) at y = x - r
    Smooth(DMatrix<f64>, f64, f64, DVector<f64>),
    /// (x_i - r_i)^2 + c: no real root for c > 0, singular Jacobian at the root for c = 0
    Square(DVector<f64>, f64),
    /// ln(x_i) - l_i: not defined for x_i <= 0
    Log(DVector<f64>),
}
impl Fun {
    fn n(&self) -> usize {
        match self {
            Fun::Linear(_, b) => b.len(),
            Fun::Atan(_, _, r) | Fun::Smooth(_, _, _, r) | Fun::Square(r, _) | Fun::Log(r) => r.len(),
        }
    }
    fn eval(&self, x: &DVector<f64>) -> DVector<f64> {
        let n = self.n();
        match self {
            Fun::Linear(a, b) => a * x - b,
            Fun::Atan(a, b, r) => a * (b * (x - r)).map(|v| v.atan()),
            Fun::Smooth(a, e, d, r) => {
                let y = x - r;
                a * DVector::from_fn(n, |i, _| y[i] + e * y[i].powi(3) + d * y[(i + 1) % n].sin())
            }
            Fun::Square(r, c) => DVector::from_fn(n, |i, _| (x[i] - r[i]).powi(2) + c),
            Fun::Log(l) => DVector::from_fn(n, |i, _| x[i].ln() - l[i]),
        }
    }
    fn jac(&self, x: &DVector<f64>) -> DMatrix<f64> {
        let n = self.n();
        match self {
            Fun::Linear(a, _) => a.clone(),
            Fun::Atan(a, b, r) => {
                let y = b * (x - r);
                a * DMatrix::from_diagonal(&y.map(|v| 1.0 / (1.0 + v * v))) * b
            }
            Fun::Smooth(a, e, d, r) => {
                let y = x - r;
                let mut m = DMatrix::zeros(n, n);
                for i in 0..n {
                    m[(i, i)] += 1.0 + 3.0 * e * y[i] * y[i];
                    m[(i, (i + 1) % n)] += d * y[(i + 1) % n].cos();
                }
                a * m
            }
            Fun::Square(r, _) => DMatrix::from_diagonal(&DVector::from_fn(n, |i, _| 2.0 * (x[i] - r[i]))),
            Fun::Log(_) => DMatrix::from_diagonal(&x.map(|v| 1.0 / v)),
        }
    }
}
#[derive(Debug)]
enum Ev {
    Eval(DVector<f64>, DVector<f64>),
    Solve(DVector<f64>, DVector<f64>, Option<DVector<f64>>),
    /// line search asked: f, x, direction on entry
    Step(DVector<f64>, DVector<f64>, DVector<f64>),
    /// f, x, step on exit
    Stepped(DVector<f64>, DVector<f64>, Option<f64>),
}
struct Mon<'a> {
    fun: &'a Fun,
    log: &'a RefCell<Vec<Ev>>,
    fail_at: Option<usize>,
    solves: usize,
    /// 0 exact, 1 wrong sign, 2 scaled, 3 garbage (NaN)
    quality: usize,
}
impl VectorFunction<f64> for Mon<'_> {
    fn dimension(&self) -> usize {
        self.fun.n()
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        let x = x.clone_owned();
        let v = self.fun.eval(&x);
        f.copy_from(&v);
        self.log.borrow_mut().push(Ev::Eval(x, v));
    }
}
impl DifferentiableVectorFunction<f64> for Mon<'_> {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let (x, rhs) = (x.clone_owned(), rhs.clone_owned());
        let k = self.solves;
        self.solves += 1;
        let lu = self.fun.jac(&x).lu();
        let s = match lu.solve(&rhs) {
            _ if self.fail_at == Some(k) => None,
            Some(s) => Some(match self.quality {
                0 => s,
                1 => -s,
                2 => s * 0.3,
                _ => s * f64::NAN,
            }),
            None => None,
        };
        self.log.borrow_mut().push(Ev::Solve(x, rhs, s.clone()));
        match s {
            Some(s) => {
                sol.copy_from(&s);
                Ok(())
            }
            None => Err(Box::from(format!("injected jacobian {k}"))),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ls {
    PlainNewton,
    None,
    Back,
    /// a user's line search taking fixed fractions, failing at call k
    Fixed(f64, usize),
}
struct LsMon<'a> {
    ls: Ls,
    calls: usize,
    log: &'a RefCell<Vec<Ev>>,
}
impl<F: VectorFunction<f64>> LineSearch<f64, F> for LsMon<'_> {
    fn step(&mut self, function: &mut F, mut f: DVectorViewMut<f64>, mut x: DVectorViewMut<f64>, d: DVectorView<f64>) -> Result<f64, Box<dyn Error>> {
        self.log.borrow_mut().push(Ev::Step(f.clone_owned(), x.clone_owned(), d.clone_owned()));
        let k = self.calls;
        self.calls += 1;
        let r = match self.ls {
            Ls::PlainNewton | Ls::None => NoLineSearch.step(function, DVectorViewMut::from(&mut f), DVectorViewMut::from(&mut x), d),
            Ls::Back => BacktrackingLineSearch.step(function, DVectorViewMut::from(&mut f), DVectorViewMut::from(&mut x), d),
            Ls::Fixed(a, fail) => {
                if k == fail {
                    Err(Box::from("injected line search"))
                } else {
                    x.axpy(a, &d, 1.0);
                    function.eval_into(&mut DVectorViewMut::from(&mut f), &DVectorView::from(&x));
                    Ok(a)
                }
            }
        };
        self.log.borrow_mut().push(Ev::Stepped(f.clone_owned(), x.clone_owned(), r.as_ref().ok().copied()));
        r
    }
}
struct Out {
    res: Result<usize, NewtonError>,
    x: DVector<f64>,
    f: DVector<f64>,
    log: Vec<Ev>,
}
fn solve(fun: &Fun, x0: &DVector<f64>, ls: Ls, set: NewtonSettings<f64>, fail_at: Option<usize>, quality: usize, garbage: f64, by_ref: bool) -> Out {
    let log = RefCell::new(vec![]);
    let n = fun.n();
    let mut x = x0.clone();
    // caller-provided buffers hold arbitrary old values
    let mut f = DVector::repeat(n, garbage);
    let mut dx = DVector::repeat(n, garbage);
    let mut m = Mon { fun, log: &log, fail_at, solves: 0, quality };
    let mut l = LsMon { ls, calls: 0, log: &log };
    let res = match (ls, by_ref) {
        (Ls::PlainNewton, true) => newton(&mut m, &mut x, &mut f, &mut dx, set),
        (Ls::PlainNewton, false) => newton(m, &mut x, &mut f, &mut dx, set),
        _ => newton_line_search(m, &mut x, &mut f, &mut dx, set, &mut l),
    };
    Out { res, x, f, log: log.into_inner() }
}
fn same(a: &DVector<f64>, b: &DVector<f64>) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

fn judge(c: &mut Case, fun: &Fun, x0: &DVector<f64>, ls: Ls, set: NewtonSettings<f64>, o: &Out) {
    let tol = set.tolerance;
    let fx = fun.eval(&o.x);
    let solves = o.log.iter().filter(|e| matches!(e, Ev::Solve(..))).count();
    let evals = o.log.iter().filter(|e| matches!(e, Ev::Eval(..))).count();
    c.count("evaluations_observed", evals as u64);
    c.count("jacobian_solves_observed", solves as u64);
    if let Some(m) = set.max_iterations {
        c.check(solves <= m, "iteration_limit_exceeded", || format!("{solves} Jacobian solves, limit {m}"));
    }
    match &o.res {
        Ok(k) => {
            c.check(fx.norm() <= tol * (1.0 + 1e-14), "success_without_solution", || format!("|F(x)| = {:e}, tolerance {tol:e}, {k} iterations", fx.norm()));
            c.check(*k == solves, "iteration_count", || format!("{k} reported, {solves} Jacobian systems solved"));
            c.check(same(&o.f, &fx), "residual_output", || "returned residual is not F at the returned point".into());
            c.count("converged", 1);
        }
        Err(NewtonError::MaximumIterationsReached(k)) => {
            c.check(Some(*k) == set.max_iterations && *k == solves, "max_iterations_report", || format!("{k} {:?} {solves}", set.max_iterations));
            c.check(!(fx.norm() <= tol * (1.0 - 1e-14)), "failure_at_solution", || format!("|F(x)| = {:e} <= {tol:e}", fx.norm()));
            c.count("ended_max_iterations", 1);
        }
        Err(NewtonError::JacobianError(e)) => {
            let last = o.log.last();
            c.check(matches!(last, Some(Ev::Solve(_, _, None))) && e.to_string().starts_with("injected jacobian"), "jacobian_error_report", || e.to_string());
            c.count("ended_jacobian_error", 1);
        }
        Err(NewtonError::LineSearchError(e)) => {
            let stepped = o.log.iter().rev().find_map(|e| if let Ev::Stepped(_, _, s) = e { Some(s.is_none()) } else { None });
            let nan = fx.norm().is_nan() || o.f.norm().is_nan();
            c.check(stepped == Some(true) || nan, "line_search_error_report", || e.to_string());
            c.count("ended_line_search_error", 1);
        }
    }
    // the trace: eval at x0, then (solve, step)*, with consistent data handed over
    c.check(matches!(o.log.first(), Some(Ev::Eval(x, _)) if x == x0), "first_evaluation", || "F is not evaluated at the initial guess".into());
    let mut cur: Option<(DVector<f64>, DVector<f64>)> = None;
    let mut sol: Option<DVector<f64>> = None;
    for e in &o.log {
        match e {
            Ev::Eval(x, f) => cur = Some((x.clone(), f.clone())),
            Ev::Solve(x, rhs, s) => {
                if let Some((cx, cf)) = &cur {
                    c.check(same(x, cx) && same(rhs, cf), "jacobian_system", || "Jacobian system is not at the current point with the current residual".into());
                    c.check(!(rhs.norm() <= tol), "iterates_after_convergence", || format!("residual {:e} tol {tol:e}", rhs.norm()));
                }
                sol = s.clone();
            }
            Ev::Step(f, x, d) => {
                if let Some((cx, cf)) = &cur {
                    c.check(same(f, cf) && same(x, cx), "line_search_arguments", || "state handed to the line search".into());
                }
                c.check(sol.as_ref().map_or(false, |s| same(&-s, d)), "direction", || "line search direction is not minus the solution of the Jacobian system".into());
            }
            Ev::Stepped(..) => {}
        }
    }
    // without a line search every step is the full step
    if matches!(ls, Ls::PlainNewton | Ls::None) {
        let mut it = o.log.iter().peekable();
        while let Some(e) = it.next() {
            if let Ev::Solve(x, _, Some(s)) = e {
                if let Some(Ev::Eval(y, _)) = it.clone().find(|e| matches!(e, Ev::Eval(..))) {
                    let sc = x.amax() + s.amax();
                    let bad = (0..x.len()).any(|i| (y[i] - (x[i] - s[i])).abs() > 1e-14 * sc);
                    c.check(!bad, "full_step", || format!("from {:?} by {:?} to {:?}", x.as_slice(), s.as_slice(), y.as_slice()));
                }
            }
        }
    }
    // backtracking: accepted steps decrease enough, state consistent, full step preferred
    if ls == Ls::Back {
        let mut k = 0;
        while k < o.log.len() {
            if let Ev::Step(f, x, d) = &o.log[k] {
                let end = (k..o.log.len()).find(|j| matches!(o.log[*j], Ev::Stepped(..)));
                let Some(end) = end else { break };
                let trials: Vec<(&DVector<f64>, &DVector<f64>)> = o.log[k + 1..end].iter().filter_map(|e| if let Ev::Eval(x, f) = e { Some((x, f)) } else { None }).collect();
                let g0 = 0.5 * f.norm_squared();
                let dn = d.norm_squared();
                let alpha = |y: &DVector<f64>| (y - x).dot(d) / dn;
                let slack = 1e-12 * g0;
                if let Ev::Stepped(f1, x1, step) = &o.log[end] {
                    c.count("backtracking_steps", 1);
                    if let Some(s) = step {
                        let g1 = 0.5 * fun.eval(x1).norm_squared();
                        c.check(g1 <= (1.0 - 1e-4 * s) * g0 + slack && *s > 0.0, "insufficient_decrease", || format!("{g1:e} after {g0:e}, step {s}"));
                        c.check(same(f1, &fun.eval(x1)), "line_search_residual", || "f is not F(x) after the step".into());
                        let sc = x.amax() + d.amax();
                        let bad = (0..x.len()).any(|i| (x1[i] - (x[i] + s * d[i])).abs() > 1e-13 * sc);
                        c.check(!bad, "line_search_point", || format!("x after the step is not x + {s} d"));
                        if *s < 1.0 {
                            c.count("shortened_steps", 1);
                        }
                    }
                    // earlier trials that would have been fine are not skipped
                    let stop = trials.len() - step.is_some() as usize;
                    for (y, fy) in &trials[..stop] {
                        if !(x.amax() < 1e8 * d.amax()) {
                            break;
                        }
                        let a = alpha(y);
                        let g = 0.5 * fy.norm_squared();
                        c.check(!(g <= (1.0 - 1e-4 * a) * g0 - slack), "acceptable_step_rejected", || format!("step {a}: {g:e} after {g0:e}"));
                    }
                    // the search moves backwards from the full step, never past it or forth again
                    if dn > 0.0 && dn.is_finite() && x.amax() < 1e3 * d.amax() {
                        for w in trials.windows(2) {
                            let (a0, a1) = (alpha(w[0].0), alpha(w[1].0));
                            c.check(a1 < a0 + 1e-9 && a1 > -1e-9, "search_not_backwards", || format!("trial step {a1} after {a0}"));
                        }
                    }
                    if let Some(s) = step {
                        c.check(*s <= 1.0, "step_beyond_full", || format!("step {s}"));
                    }
                    if let Some((y, _)) = trials.first() {
                        if dn > 0.0 && dn.is_finite() && x.amax() < 1e8 * d.amax() {
                            let a = alpha(y);
                            c.check((a - 1.0).abs() < 1e-6, "full_step_first", || format!("first trial step {a}"));
                        }
                    }
                    if step.is_none() {
                        c.count("line_searches_failed", 1);
                        if dn.is_finite() && dn > 0.0 {
                            c.check(trials.len() >= 5, "gave_up_early", || format!("{} trials", trials.len()));
                            let amin = trials.iter().map(|t| alpha(t.0)).fold(1.0, f64::min);
                            if x.amax() < 1e3 * d.amax() {
                                c.check(amin < 1e-5, "gave_up_early", || format!("smallest step {amin:e}"));
                            }
                        }
                    }
                }
                k = end;
            }
            k += 1;
        }
    }
}

fn conditioned(c: &mut Case, n: usize) -> DMatrix<f64> {
    let q = DMatrix::from_fn(n, n, |_, _| c.rng.normal()).qr().q();
    let p = DMatrix::from_fn(n, n, |_, _| c.rng.normal()).qr().q();
    let d = DVector::from_fn(n, |_, _| c.rng.logf(0.3, 3.0));
    q * DMatrix::from_diagonal(&d) * p
}
fn randv(c: &mut Case, n: usize, s: f64) -> DVector<f64> {
    DVector::from_fn(n, |_, _| s * c.rng.normal())
}

pub fn n02(run: &mut Run) {
    run.assumption("user functions are deterministic; the Armijo constant 1e-4 and first trial step 1 are those the line search documents");
    run.section(
        "histories",
        "linear, nonlinear, rootless, singular and undefined-domain functions with exact, wrong and failing Jacobian solvers, all line searches and tight limits",
        20000,
        800000,
        |c| {
            let n = c.rng.sized(1, 6, 60);
            let r = randv(c, n, 1.0);
            let fun = match c.rng.below(6) {
                0 => {
                    let a = conditioned(c, n);
                    Fun::Linear(a, r.clone())
                }
                1 => {
                    let (a, b) = (conditioned(c, n), conditioned(c, n));
                    Fun::Atan(a, b, r.clone())
                }
                2 => {
                    let a = conditioned(c, n);
                    Fun::Smooth(a, c.rng.f(0.0, 1.0), c.rng.f(0.0, 0.5), r.clone())
                }
                3 => Fun::Square(r.clone(), c.rng.f(0.0, 1.0)),
                4 => Fun::Square(r.clone(), if c.rng.bool() { 0.0 } else { -c.rng.f(0.0, 2.0) }),
                _ => Fun::Log(r.clone()),
            };
            let mut x0 = match c.rng.below(4) {
                0 => r.clone(),
                1 => &r + randv(c, n, 0.1),
                2 => &r + randv(c, n, 10.0),
                _ => randv(c, n, 1.0),
            };
            if matches!(fun, Fun::Log(_)) && c.rng.chance(0.8) {
                x0 = x0.map(|v| v.abs() + 0.01);
            }
            let ls = *c.rng.pick(&[Ls::PlainNewton, Ls::None, Ls::Back, Ls::Back, Ls::Fixed(0.5, 5)]);
            let ls = if let Ls::Fixed(..) = ls { Ls::Fixed(c.rng.f(0.1, 1.0), c.rng.below(12)) } else { ls };
            let set = NewtonSettings {
                max_iterations: Some(*c.rng.pick(&[0, 1, 2, 3, 5, 10, 40])),
                tolerance: *c.rng.pick(&[0.0, 1e-14, 1e-10, 1e-6, 1e-2, 1.0]),
            };
            let fail_at = if c.rng.chance(0.2) { Some(c.rng.below(5)) } else { None };
            let quality = *c.rng.pick(&[0, 0, 0, 0, 1, 2, 3]);
            let garbage = *c.rng.pick(&[0.0, 1.0, f64::NAN, f64::INFINITY]);
            let by_ref = c.rng.bool();
            c.desc(format!("{fun:?} x0 {:?} {ls:?} {set:?} fail {fail_at:?} quality {quality}", x0.as_slice()));
            c.keyf(x0.as_slice());
            let Some(o) = c.no_panic("newton_panic", || solve(&fun, &x0, ls, set, fail_at, quality, garbage, by_ref)) else { return };
            if fun.eval(&x0).norm().is_nan() {
                c.count("undefined_at_start", 1);
            } else if o.f.norm().is_nan() {
                c.count("became_undefined", 1);
            }
            judge(c, &fun, &x0, ls, set, &o);
            let solves = o.log.iter().filter(|e| matches!(e, Ev::Solve(..))).count();
            if fail_at.map_or(false, |k| k < solves) {
                c.check(matches!(o.res, Err(NewtonError::JacobianError(_))), "fault_swallowed", || format!("{:?}", o.res));
            }
            let ls_failed = o.log.iter().any(|e| matches!(e, Ev::Stepped(_, _, None)));
            if ls_failed {
                c.check(matches!(o.res, Err(NewtonError::LineSearchError(_))), "line_search_failure_swallowed", || format!("{:?}", o.res));
            }
        },
    );
    run.section(
        "convergence",
        "linear systems in one iteration; quadratic convergence near regular roots; global convergence of backtracking where plain Newton diverges; exact tolerance boundary",
        6000,
        300000,
        |c| {
            let n = c.rng.sized(1, 8, 60);
            let r = randv(c, n, 1.0);
            let a = conditioned(c, n);
            let ls = *c.rng.pick(&[Ls::PlainNewton, Ls::None, Ls::Back]);
            let unlimited = NewtonSettings { max_iterations: None, tolerance: 1e-9 };
            match c.rng.below(4) {
                0 => {
                    let s = c.rng.logf(1e-3, 1e3);
                    let x0 = randv(c, n, s);
                    let b = &a * &r;
                    let fun = Fun::Linear(a, b);
                    let start = fun.eval(&x0).norm();
                    c.desc(format!("linear n={n} {ls:?}"));
                    c.keyf(x0.as_slice());
                    let tol = 1e-11 * (1.0 + s);
                    let o = solve(&fun, &x0, ls, NewtonSettings { max_iterations: Some(3), tolerance: tol }, None, 0, 0.0, true);
                    judge(c, &fun, &x0, ls, unlimited_with(tol), &o);
                    c.check(matches!(o.res, Ok(k) if k == (start > tol) as usize), "linear_in_one", || format!("{:?}", o.res));
                    c.count("linear_solved", 1);
                }
                1 => {
                    let (e, d) = (c.rng.f(0.0, 1.0), c.rng.f(0.0, 0.3));
                    let fun = Fun::Smooth(a, e, d, r.clone());
                    let x0 = &r + randv(c, n, 0.03);
                    c.desc(format!("near root n={n} {ls:?}"));
                    c.keyf(x0.as_slice());
                    let o = solve(&fun, &x0, ls, unlimited, None, 0, 0.0, false);
                    judge(c, &fun, &x0, ls, unlimited, &o);
                    c.check(matches!(o.res, Ok(k) if k <= 5) && (&o.x - &r).amax() < 1e-7, "quadratic_convergence", || format!("{:?} {:e}", o.res, (&o.x - &r).amax()));
                    c.count("near_root_converged", 1);
                }
                2 => {
                    // one-dimensional in each component: backtracking always finds the root
                    let id = DMatrix::identity(1, 1);
                    let r = randv(c, 1, 3.0);
                    let fun = Fun::Atan(id.clone(), id * c.rng.f(0.3, 3.0), r.clone());
                    let x0 = &r + randv(c, 1, 30.0);
                    c.desc(format!("atan {ls:?} {x0:?}"));
                    c.keyf(x0.as_slice());
                    let set = NewtonSettings { max_iterations: Some(200), tolerance: 1e-9 };
                    let o = solve(&fun, &x0, Ls::Back, set, None, 0, 0.0, true);
                    judge(c, &fun, &x0, Ls::Back, set, &o);
                    c.check(o.res.is_ok(), "backtracking_global", || format!("{:?}", o.res));
                    c.count("global_converged", 1);
                    let p = solve(&fun, &x0, Ls::None, set, None, 0, 0.0, true);
                    judge(c, &fun, &x0, Ls::None, set, &p);
                    if p.res.is_err() {
                        c.count("plain_newton_diverged", 1);
                    }
                }
                _ => {
                    // |F| equal to the tolerance counts as converged, a hair above does not
                    let b = DVector::from_fn(n, |i, _| if i == 0 { 0.375 } else { 0.0 });
                    let fun = Fun::Linear(DMatrix::identity(n, n), b);
                    let x0 = DVector::zeros(n);
                    c.keyf(&[n as f64]);
                    let o = solve(&fun, &x0, ls, unlimited_with(0.375), None, 0, 0.0, true);
                    c.check(matches!(o.res, Ok(0)), "tolerance_boundary", || format!("{:?}", o.res));
                    c.check(o.x == x0, "moved_without_need", || "converged initially but x changed".into());
                    let o = solve(&fun, &x0, ls, unlimited_with(0.37499999), None, 0, 0.0, true);
                    c.check(matches!(o.res, Ok(1)), "tolerance_boundary", || format!("{:?}", o.res));
                    // nothing permitted: no iteration, error
                    let o = solve(&fun, &x0, ls, NewtonSettings { max_iterations: Some(0), tolerance: 0.1 }, None, 0, 0.0, true);
                    c.check(matches!(o.res, Err(NewtonError::MaximumIterationsReached(0))) && o.x == x0, "no_iterations_allowed", || format!("{:?}", o.res));
                    // converging with the very last permitted iteration is a success
                    let o = solve(&fun, &x0, ls, NewtonSettings { max_iterations: Some(1), tolerance: 0.1 }, None, 0, 0.0, true);
                    c.check(matches!(o.res, Ok(1)), "last_iteration_wasted", || format!("{:?}", o.res));
                    c.count("boundary_cases", 1);
                }
            }
        },
    );
    for k in ["ended_max_iterations", "ended_jacobian_error", "ended_line_search_error", "undefined_at_start", "became_undefined", "shortened_steps", "plain_newton_diverged", "boundary_cases", "linear_solved", "near_root_converged", "global_converged"] {
        run.require(k, 15);
    }
    run.require("converged", 300);
}
fn unlimited_with(tol: f64) -> NewtonSettings<f64> {
    NewtonSettings { max_iterations: None, tolerance: tol }
}

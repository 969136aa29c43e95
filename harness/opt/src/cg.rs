//! N01: the solver runs against monitored operators, preconditioners and stopping criteria. Everything they are asked
//! is logged, and the log is judged against the defining properties of preconditioned conjugate gradients.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris::nalgebra_sparse::{CooMatrix, CsrMatrix};
use fenris_sparse::cg::*;
use std::cell::RefCell;
use std::error::Error;
use vlib::{Case, Run};

#[derive(Default)]
struct Log {
    /// (is_operator, input, output); output is None if the application was made to fail
    apps: Vec<(bool, DVector<f64>, Option<DVector<f64>>)>,
    /// (x, r, iteration, b_norm, b, answer); index into apps when asked
    asked: Vec<(DVector<f64>, DVector<f64>, usize, f64, bool, usize)>,
    resets: Vec<(DVector<f64>, usize)>,
}

/// Applies the real operator implementation (dense, CSR or identity) and logs it.
struct Mon<'a> {
    kind: bool,
    imp: Imp<'a>,
    fail_at: Option<usize>,
    log: &'a RefCell<Log>,
}
#[derive(Clone, Copy)]
enum Imp<'a> {
    Dense(&'a DMatrix<f64>),
    Csr(&'a CsrMatrix<f64>),
    Id,
}
impl LinearOperator<f64> for Mon<'_> {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let count = self.log.borrow().apps.iter().filter(|a| a.0 == self.kind).count();
        let xin = x.clone_owned();
        if self.fail_at == Some(count) {
            y.fill(f64::NAN);
            self.log.borrow_mut().apps.push((self.kind, xin, None));
            return Err(Box::from(format!("injected {} at {count}", self.kind)));
        }
        match self.imp {
            Imp::Dense(a) => a.apply(y.rows_mut(0, xin.len()), x)?,
            Imp::Csr(a) => (&a).apply(y.rows_mut(0, xin.len()), x)?,
            Imp::Id => IdentityOperator.apply(y.rows_mut(0, xin.len()), x)?,
        }
        self.log.borrow_mut().apps.push((self.kind, xin, Some(y.clone_owned())));
        Ok(())
    }
}
/// Asks the library's relative residual criterion, or judges by itself, and logs.
struct Crit<'a> {
    tol: f64,
    mode: CritMode,
    log: &'a RefCell<Log>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum CritMode {
    Relative,
    TrueResidual,
    AfterIters(usize),
    FailAt(usize),
    Never,
}
impl CgStoppingCriterion<f64> for Crit<'_> {
    fn reset(&self, _a: &dyn LinearOperator<f64>, x: DVectorView<f64>, _b: DVectorView<f64>) {
        let n = self.log.borrow().asked.len();
        self.log.borrow_mut().resets.push((x.clone_owned(), n));
    }
    fn has_converged(
        &self,
        a: &dyn LinearOperator<f64>,
        x: DVectorView<f64>,
        b: DVectorView<f64>,
        b_norm: f64,
        iteration: usize,
        r: DVectorView<f64>,
    ) -> Result<bool, SolveErrorKind> {
        let rel = RelativeResidualCriterion::new(self.tol);
        let ans = match self.mode {
            CritMode::Relative => rel.has_converged(a, x, b, b_norm, iteration, r)?,
            CritMode::TrueResidual => {
                // uses the operator it was handed, like a user's criterion would
                let n_before = self.log.borrow().apps.len();
                let mut ax = DVector::repeat(x.len(), 7.0);
                let res = a.apply(DVectorViewMut::from(&mut ax), x);
                self.log.borrow_mut().apps.truncate(n_before);
                res.map_err(SolveErrorKind::StoppingCriterionError)?;
                (b - ax).norm() <= self.tol * b_norm
            }
            CritMode::AfterIters(k) => iteration >= k,
            CritMode::FailAt(k) => {
                if self.log.borrow().asked.len() == k {
                    return Err(SolveErrorKind::StoppingCriterionError(Box::from("injected criterion")));
                }
                rel.has_converged(a, x, b, b_norm, iteration, r)?
            }
            CritMode::Never => false,
        };
        let k = self.log.borrow().apps.len();
        self.log.borrow_mut().asked.push((x.clone_owned(), r.clone_owned(), iteration, b_norm, ans, k));
        Ok(ans)
    }
}

fn orthogonal(c: &mut Case, n: usize) -> DMatrix<f64> {
    if n == 0 {
        return DMatrix::zeros(0, 0);
    }
    DMatrix::from_fn(n, n, |_, _| c.rng.normal()).qr().q()
}
fn with_spectrum(c: &mut Case, ev: &[f64]) -> DMatrix<f64> {
    let q = orthogonal(c, ev.len());
    let a = &q * DMatrix::from_diagonal(&DVector::from_column_slice(ev)) * q.transpose();
    (&a + a.transpose()) * 0.5
}
fn to_csr(a: &DMatrix<f64>, keep_zeros: bool) -> CsrMatrix<f64> {
    let mut coo = CooMatrix::new(a.nrows(), a.ncols());
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            if a[(i, j)] != 0.0 || keep_zeros {
                coo.push(i, j, a[(i, j)]);
            }
        }
    }
    CsrMatrix::from(&coo)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Spd,
    IllSpd,
    Sparse,
    Indefinite,
    Negative,
    Singular,
    Zero,
}
fn operator(c: &mut Case, n: usize, op: Op, scale: f64) -> (DMatrix<f64>, f64) {
    let cond = match op {
        Op::IllSpd => c.rng.logf(1e3, 1e9),
        _ => c.rng.logf(1.0, 200.0),
    };
    let mut ev: Vec<f64> = (0..n).map(|_| scale * c.rng.logf(1.0, cond)).collect();
    let a = match op {
        Op::Spd | Op::IllSpd => with_spectrum(c, &ev),
        Op::Sparse => {
            let mut a = DMatrix::zeros(n, n);
            for i in 0..n {
                a[(i, i)] = scale * c.rng.f(0.1, 2.0);
            }
            for _ in 0..2 * n {
                let (i, j) = (c.rng.below(n), c.rng.below(n));
                if i != j {
                    let v = scale * c.rng.f(0.0, 1.0);
                    let s = if c.rng.bool() { 1.0 } else { -1.0 };
                    a[(i, i)] += v;
                    a[(j, j)] += v;
                    a[(i, j)] += s * v;
                    a[(j, i)] += s * v;
                }
            }
            a
        }
        Op::Indefinite => {
            for x in ev.iter_mut() {
                if c.rng.chance(0.4) {
                    *x = -*x;
                }
            }
            with_spectrum(c, &ev)
        }
        Op::Negative => with_spectrum(c, &ev) * -1.0,
        Op::Singular => {
            let k = c.rng.range(1, n.max(1));
            for x in ev.iter_mut().take(k) {
                *x = 0.0;
            }
            with_spectrum(c, &ev)
        }
        Op::Zero => DMatrix::zeros(n, n),
    };
    (a, cond)
}

struct Outcome {
    x: DVector<f64>,
    res: Result<usize, (usize, SolveErrorKind)>,
    log: Log,
}
fn kind_name(k: &SolveErrorKind) -> &'static str {
    match k {
        SolveErrorKind::OperatorError(_) => "operator_error",
        SolveErrorKind::PreconditionerError(_) => "preconditioner_error",
        SolveErrorKind::StoppingCriterionError(_) => "criterion_error",
        SolveErrorKind::IndefiniteOperator => "indefinite_operator",
        SolveErrorKind::IndefinitePreconditioner => "indefinite_preconditioner",
        SolveErrorKind::MaxIterationsReached { .. } => "max_iterations",
        _ => "other",
    }
}
struct Problem<'a> {
    a: Imp<'a>,
    p: Imp<'a>,
    b: &'a DVector<f64>,
    x0: &'a DVector<f64>,
    tol: f64,
    mode: CritMode,
    max_iter: Option<usize>,
    fail_a: Option<usize>,
    fail_p: Option<usize>,
}
fn solve(pr: &Problem, ws: Option<&mut CgWorkspace<f64>>, strided: bool) -> Outcome {
    let log = RefCell::new(Log::default());
    let n = pr.b.len();
    let mut x = pr.x0.clone();
    let res = {
        let a = Mon { kind: true, imp: pr.a, fail_at: pr.fail_a, log: &log };
        let p = Mon { kind: false, imp: pr.p, fail_at: pr.fail_p, log: &log };
        let crit = Crit { tol: pr.tol, mode: pr.mode, log: &log };
        let base = match ws {
            Some(w) => ConjugateGradient::with_workspace(w),
            None => ConjugateGradient::new(),
        };
        let mut cg = base.with_operator(a).with_preconditioner(&p).with_stopping_criterion(crit);
        if let Some(m) = pr.max_iter {
            cg = cg.with_max_iter(m);
        }
        let r = if strided {
            // b and x are columns of larger matrices
            let mut bm = DMatrix::repeat(n, 3, 5.0);
            bm.set_column(1, pr.b);
            let mut xm = DMatrix::repeat(n, 3, 6.0);
            xm.set_column(2, pr.x0);
            let r = cg.solve_with_guess(bm.column(1), xm.column_mut(2));
            x.copy_from(&xm.column(2));
            r
        } else {
            cg.solve_with_guess(pr.b, &mut x)
        };
        match r {
            Ok(o) => Ok(o.num_iterations),
            Err(e) => Err((e.output.num_iterations, e.kind)),
        }
    };
    Outcome { x, res, log: log.into_inner() }
}

fn judge(c: &mut Case, pr: &Problem, ad: &DMatrix<f64>, pd: &DMatrix<f64>, o: &Outcome) {
    let eps = f64::EPSILON;
    let n = pr.b.len();
    let log = &o.log;
    let b_norm = pr.b.norm();
    let an = ad.norm();
    c.count("operator_applications_observed", log.apps.len() as u64);
    c.count("convergence_checks_observed", log.asked.len() as u64);
    // every application did what the matrix says
    for (is_op, x, y) in &log.apps {
        if let Some(y) = y {
            let m = if *is_op { ad } else { pd };
            let want = m * x;
            let tol = 20.0 * eps * (n as f64 + 1.0) * m.amax() * x.amax() * n as f64;
            c.close_slices(y.as_slice(), want.as_slice(), tol, "operator_apply", || format!("operator {is_op}"));
        }
    }
    if b_norm == 0.0 {
        if let Ok(k) = &o.res {
            c.check(*k == 0 && o.x.iter().all(|v| *v == 0.0), "zero_rhs", || format!("{k} iterations, x {:?}", o.x.as_slice()));
            c.count("zero_rhs", 1);
        }
        return;
    }
    // the criterion is reset once at the start of the solve
    c.check(log.resets.len() <= 1, "reset_repeatedly", || format!("{} resets", log.resets.len()));
    if !log.asked.is_empty() {
        c.check(log.resets.len() == 1 && log.resets[0].1 == 0 && log.resets[0].0 == *pr.x0, "criterion_not_reset", || {
            "documented to be called at the start of a new solve".into()
        });
    }
    // trace of iterates
    let mut xmax = pr.x0.amax();
    for (i, (x, r, it, bn, ans, _)) in log.asked.iter().enumerate() {
        xmax = xmax.max(x.amax());
        c.check(*it == i, "iteration_argument", || format!("call {i} got iteration {it}"));
        c.close(*bn, b_norm, 1e-14 * b_norm * (n as f64 + 4.0), "b_norm", || "criterion argument".into());
        if i == 0 {
            c.check(x == pr.x0, "first_iterate", || "not the guess".into());
        }
        c.check(!*ans || i + 1 == log.asked.len(), "continues_after_convergence", || format!("call {i}"));
        // residual recursion: drift bounded by rounding
        let true_r = pr.b - ad * x;
        let tol = 50.0 * eps * (n as f64 + 3.0) * (i as f64 + 2.0) * (an * xmax * (n as f64).sqrt() + b_norm);
        c.close_slices(r.as_slice(), true_r.as_slice(), tol, "residual_of_iterate", || format!("iterate {i}"));
        // an iterate moved
        if i > 0 {
            c.check(x != &log.asked[i - 1].0 || r == &log.asked[i - 1].1 || x.amax() > 0.0, "iterate_stuck", || format!("{i}"));
        }
    }
    let done = log.asked.len();
    let iters = match &o.res {
        Ok(k) => *k,
        Err((k, _)) => *k,
    };
    if let Some(m) = pr.max_iter {
        c.check(iters <= m, "iteration_limit_exceeded", || format!("{iters} > {m}"));
    }
    if let Some((lx, lr, _, _, ans, at)) = log.asked.last() {
        let last_ops: Vec<&(bool, DVector<f64>, Option<DVector<f64>>)> = log.apps[*at..].iter().collect();
        match &o.res {
            Ok(k) => {
                c.check(*ans, "success_without_convergence", || format!("criterion answered false at the last of {done} calls"));
                c.check(*k == done - 1, "iteration_count", || format!("{k} reported, {done} convergence checks"));
                c.check(o.x == *lx, "iterate_changed_after_convergence", || "returned vector was not the one judged".into());
                c.check(last_ops.is_empty(), "work_after_convergence", || format!("{} applications", last_ops.len()));
                if pr.mode == CritMode::Relative {
                    c.check(lr.norm() <= pr.tol * b_norm * (1.0 + 1e-12), "criterion_formula", || format!("{:e} vs {:e}", lr.norm(), pr.tol * b_norm));
                    let drift = 50.0 * eps * (n as f64 + 3.0) * (done as f64 + 2.0) * (an * xmax * (n as f64).sqrt() + b_norm);
                    let tr = (pr.b - ad * &o.x).norm();
                    c.check(tr <= pr.tol * b_norm + drift * (n as f64).sqrt(), "not_a_solution", || format!("true residual {tr:e}, tol {:e}", pr.tol * b_norm));
                }
                c.count("converged", 1);
            }
            Err((k, kind)) => {
                // x was updated after the last check iff a new residual was preconditioned
                let updated = last_ops.iter().any(|a| !a.0);
                c.check(*k == done - 1 + updated as usize, "iteration_count_on_error", || format!("{k} reported, {done} checks, updated {updated}"));
                if !updated {
                    c.check(o.x == *lx, "iterate_changed_on_error", || kind_name(kind).into());
                } else {
                    c.check(o.x != *lx || lx.amax() > 0.0, "iterate_not_updated_on_error", || kind_name(kind).into());
                }
                let op_last = last_ops.iter().find(|a| a.0);
                let pap = op_last.and_then(|a| a.2.as_ref().map(|y| (a.1.dot(y), a.1.norm() * y.norm())));
                // z'r of the last preconditioner application before the step
                let ztr = log.apps[..*at].iter().rev().find(|a| !a.0).and_then(|a| a.2.as_ref().map(|z| (z.dot(&a.1), z.norm() * a.1.norm())));
                match kind {
                    SolveErrorKind::MaxIterationsReached { max_iter } => {
                        c.check(Some(*max_iter) == pr.max_iter && k == max_iter && !*ans, "max_iterations_report", || format!("{max_iter} {k} {ans}"));
                    }
                    SolveErrorKind::IndefiniteOperator => {
                        c.check(pap.map_or(false, |(v, s)| v <= 1e-13 * (n as f64 + 1.0) * s), "wrongly_indefinite_operator", || format!("p'Ap, scale: {pap:?}"));
                    }
                    SolveErrorKind::IndefinitePreconditioner => {
                        c.check(ztr.map_or(false, |(v, s)| v <= 1e-13 * (n as f64 + 1.0) * s), "wrongly_indefinite_preconditioner", || format!("z'r, scale: {ztr:?}"));
                    }
                    SolveErrorKind::OperatorError(e) => {
                        c.check(op_last.map_or(false, |a| a.2.is_none()) && e.to_string().starts_with("injected true"), "operator_error_report", || e.to_string());
                    }
                    SolveErrorKind::PreconditionerError(e) => {
                        let failed = last_ops.iter().any(|a| !a.0 && a.2.is_none());
                        c.check(failed && e.to_string().starts_with("injected false"), "preconditioner_error_report", || e.to_string());
                    }
                    SolveErrorKind::StoppingCriterionError(e) => {
                        // the failing call itself is not in the log: the iterate was updated before it
                        c.check(matches!(pr.mode, CritMode::FailAt(q) if q == done) && e.to_string() == "injected criterion", "criterion_error_report", || e.to_string());
                    }
                    _ => c.fail("unknown_error_kind", "unknown"),
                }
            }
        }
    } else {
        match &o.res {
            Ok(k) => c.fail("success_without_check", format!("{k} iterations, the criterion was never asked")),
            Err((k, kind)) => {
                c.check(*k == 0 && o.x == *pr.x0, "early_error", || format!("{k} iterations"));
                match kind {
                    SolveErrorKind::OperatorError(_) => c.check(pr.fail_a == Some(0), "early_operator_error", || "".into()),
                    SolveErrorKind::PreconditionerError(_) => c.check(pr.fail_p == Some(0), "early_preconditioner_error", || "".into()),
                    SolveErrorKind::StoppingCriterionError(_) => c.check(pr.mode == CritMode::FailAt(0), "early_criterion_error", || "".into()),
                    _ => c.check(false, "early_other_error", || kind_name(kind).into()),
                };
            }
        }
    }
    if let Err((_, k)) = &o.res {
        match kind_name(k) {
            "operator_error" => c.count("ended_operator_error", 1),
            "preconditioner_error" => c.count("ended_preconditioner_error", 1),
            "criterion_error" => c.count("ended_criterion_error", 1),
            "indefinite_operator" => c.count("ended_indefinite_operator", 1),
            "indefinite_preconditioner" => c.count("ended_indefinite_preconditioner", 1),
            _ => c.count("ended_max_iterations", 1),
        }
    }
    // no step was taken along a direction of nonpositive curvature or against a nonpositive preconditioner
    for w in 0..log.asked.len().saturating_sub(1) {
        let (s, e) = (log.asked[w].5, log.asked[w + 1].5);
        for (is_op, x, y) in &log.apps[s..e] {
            if let (true, Some(y)) = (*is_op, y) {
                let v = x.dot(y);
                c.check(v > -1e-13 * (n as f64 + 1.0) * x.norm() * y.norm() && v != 0.0, "step_with_nonpositive_curvature", || format!("p'Ap = {v:e}"));
            }
        }
        if let Some((_, r, Some(z))) = log.apps[..s].iter().rev().find(|a| !a.0) {
            let v = z.dot(r);
            c.check(v > -1e-13 * (n as f64 + 1.0) * z.norm() * r.norm() && v != 0.0, "step_with_nonpositive_preconditioner", || format!("z'r = {v:e}"));
        }
    }
}

/// Conditions that characterise conjugate gradients among iterations: optimality of the iterates.
fn judge_optimal(c: &mut Case, ad: &DMatrix<f64>, pd: &DMatrix<f64>, pr: &Problem, o: &Outcome) {
    let n = pr.b.len();
    let Some(chol) = ad.clone().cholesky() else { return };
    let xs = chol.solve(pr.b);
    let err = |x: &DVector<f64>| {
        let e = x - &xs;
        e.dot(&(ad * &e)).max(0.0).sqrt()
    };
    let e0 = err(pr.x0);
    // condition number of the preconditioned operator
    let l = pd.clone().cholesky();
    let Some(l) = l else { return };
    let l = l.l();
    let m = l.transpose() * ad * &l;
    let ev = ((&m + m.transpose()) * 0.5).symmetric_eigen().eigenvalues;
    let (lo, hi) = (ev.min(), ev.max());
    if !(lo > 0.0) || hi / lo > 1e6 {
        return;
    }
    let kappa = hi / lo;
    let q = (kappa.sqrt() - 1.0) / (kappa.sqrt() + 1.0);
    let floor = 1e-10 * e0 + 1e-9 * kappa * (xs.norm() + pr.x0.norm()) * ad.norm().sqrt();
    let mut last = f64::INFINITY;
    for (i, (x, r, ..)) in o.log.asked.iter().enumerate() {
        // beyond attainable accuracy rounding takes over
        if i > 2 * n + 30 || r.norm() <= 1e-10 * o.log.asked[0].1.norm() {
            break;
        }
        let e = err(x);
        c.check(e <= last * (1.0 + 1e-9) + floor, "energy_error_grows", || format!("iterate {i}: {e:e} after {last:e}"));
        let bound = 2.0 * q.powi(i as i32) * e0;
        c.check(e <= bound * (1.0 + 1e-6) + floor, "slower_than_cg", || format!("iterate {i}: energy error {e:e} > {bound:e} for kappa {kappa}"));
        // residuals are P-orthogonal (early iterates of well conditioned problems)
        if i <= 6 && i < n && kappa < 300.0 && r.norm() > 1e-5 * o.log.asked[0].1.norm() {
            for j in 0..i {
                let rj = &o.log.asked[j].1;
                let pr_ = pd * rj;
                let v = r.dot(&pr_);
                let s = pd.norm() * rj.norm() * r.norm();
                c.check(v.abs() <= 1e-5 * kappa * s, "residuals_not_orthogonal", || format!("{i} {j}: {v:e} scale {s:e}"));
                c.count("orthogonality_pairs", 1);
            }
        }
        last = e;
    }
    if n > 0 {
        c.count("energy_errors_tracked", o.log.asked.len() as u64);
    }
}

fn precond(c: &mut Case, a: &DMatrix<f64>, which: usize) -> DMatrix<f64> {
    let n = a.nrows();
    match which {
        0 => DMatrix::identity(n, n),
        1 => DMatrix::from_diagonal(&a.diagonal().map(|x| if x != 0.0 { 1.0 / x.abs() } else { 1.0 })),
        2 => a.clone().try_inverse().map(|x| (&x + x.transpose()) * 0.5).unwrap_or_else(|| DMatrix::identity(n, n)),
        3 => {
            let s = c.rng.logf(1e-3, 1e3);
            let ev: Vec<f64> = (0..n).map(|_| s * c.rng.logf(1.0, 30.0)).collect();
            with_spectrum(c, &ev)
        }
        4 => {
            let ev: Vec<f64> = (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect();
            with_spectrum(c, &ev)
        }
        5 => DMatrix::zeros(n, n),
        _ => DMatrix::identity(n, n) * -1.0,
    }
}

pub fn n01(run: &mut Run) {
    run.assumption("residual recursion and energy-error oracles carry rounding tolerances proportional to eps, size, condition and iterate magnitude; faults are deterministic");
    run.section(
        "spd",
        "positive definite systems with positive definite preconditioners: success, optimal iterates, CG convergence rate, identical results with a reused workspace",
        6000,
        300000,
        |c| {
            let n = if c.rng.chance(0.05) { 0 } else { c.rng.sized(1, if c.thorough { 60 } else { 24 }, 200) };
            let op = if n == 0 { Op::Zero } else { *c.rng.pick(&[Op::Spd, Op::Spd, Op::Sparse]) };
            let scale = c.rng.logf(1e-6, 1e6);
            let (a, _) = operator(c, n, op, scale);
            let pw = c.rng.below(4);
            let p = precond(c, &a, pw);
            let keep = c.rng.chance(0.3);
            let csr = to_csr(&a, keep);
            let use_csr = c.rng.bool();
            let xs = DVector::from_fn(n, |_, _| c.rng.normal());
            let b = match c.rng.below(8) {
                0 => DVector::zeros(n),
                1 => DVector::from_fn(n, |i, _| if i == 0 { 1.0 } else { 0.0 }),
                _ => &a * &xs,
            };
            let g = c.rng.below(5);
            let x0 = match g {
                0 | 1 => DVector::zeros(n),
                2 => xs.clone(),
                3 => DVector::from_fn(n, |_, _| 100.0 * c.rng.normal()),
                _ => DVector::from_fn(n, |_, _| c.rng.normal()),
            };
            let tol = c.rng.logf(1e-10, 0.5);
            let mode = *c.rng.pick(&[CritMode::Relative, CritMode::Relative, CritMode::Relative, CritMode::TrueResidual]);
            c.desc(format!("n={n} {op:?} scale={scale:e} precond={pw} csr={use_csr} guess={g} tol={tol:e} {mode:?}"));
            c.keyf(a.as_slice());
            let pcsr = to_csr(&p, false);
            let pr = Problem {
                a: if use_csr { Imp::Csr(&csr) } else { Imp::Dense(&a) },
                p: if pw == 0 { Imp::Id } else if use_csr { Imp::Csr(&pcsr) } else { Imp::Dense(&p) },
                b: &b,
                x0: &x0,
                tol: if mode == CritMode::TrueResidual { tol.max(1e-8) } else { tol },
                mode,
                max_iter: if c.rng.bool() || mode != CritMode::Relative { Some(40 * n + 400) } else { None },
                fail_a: None,
                fail_p: None,
            };
            let Some(o) = c.no_panic("solve_panic", || solve(&pr, None, false)) else { return };
            judge(c, &pr, &a, &p, &o);
            if b.norm() > 0.0 {
                judge_optimal(c, &a, &p, &pr, &o);
            }
            // attainable: the residual floor is eps * |A||x|
            let floor = 1e-13 * (n as f64 + 1.0) * a.norm() * (xs.norm() + x0.norm());
            if tol * b.norm() > 1e3 * floor {
                c.check(o.res.is_ok(), "spd_not_solved", || format!("{:?}", o.res));
                c.count("must_succeed", 1);
            }
            // workspace history: other sizes, aborted solves, poisoned values
            let mut ws = CgWorkspace::default();
            for _ in 0..c.rng.range(1, 4) {
                let m = c.rng.sized(0, 30, 200);
                let (a2, _) = if m > 0 { operator(c, m, Op::Indefinite, 1.0) } else { (DMatrix::zeros(0, 0), 1.0) };
                let mut b2 = DVector::from_fn(m, |_, _| c.rng.normal());
                if c.rng.chance(0.3) && m > 0 {
                    let k = c.rng.below(m);
                    b2[k] = *c.rng.pick(&[f64::NAN, f64::INFINITY, 1e300]);
                }
                let x2 = DVector::from_fn(m, |_, _| c.rng.normal());
                let pr2 = Problem {
                    a: Imp::Dense(&a2),
                    p: Imp::Id,
                    b: &b2,
                    x0: &x2,
                    tol: 1e-9,
                    mode: CritMode::Relative,
                    max_iter: Some(c.rng.below(5)),
                    fail_a: if c.rng.chance(0.3) { Some(c.rng.below(3)) } else { None },
                    fail_p: None,
                };
                let _ = solve(&pr2, Some(&mut ws), false);
            }
            let strided = c.rng.bool();
            let Some(o2) = c.no_panic("solve_panic_reused", || solve(&pr, Some(&mut ws), strided)) else { return };
            c.check(o2.x == o.x && o2.res.as_ref().ok() == o.res.as_ref().ok(), "workspace_matters", || {
                format!("fresh {:?} reused {:?}, x {:?} vs {:?}", o.res, o2.res, o.x.as_slice(), o2.x.as_slice())
            });
            c.count("reused_workspace_runs", 1);
            if c.index < 3 {
                c.sample(vlib::serde_json::json!({"n": n, "iterations": o.log.asked.len(), "applications": o.log.apps.len()}));
            }
        },
    );
    run.section(
        "faults",
        "indefinite, singular, ill conditioned and failing operators and preconditioners, custom criteria and tight iteration limits: truthful report of what happened",
        20000,
        600000,
        |c| {
            let n = c.rng.sized(1, 16, 120);
            let op = *c.rng.pick(&[Op::Spd, Op::IllSpd, Op::Sparse, Op::Indefinite, Op::Indefinite, Op::Negative, Op::Singular, Op::Zero]);
            let scale = c.rng.logf(1e-3, 1e3);
            let (a, _) = operator(c, n, op, scale);
            let pw = c.rng.below(7);
            let p = precond(c, &a, pw);
            let csr = to_csr(&a, false);
            let xs = DVector::from_fn(n, |_, _| c.rng.normal());
            let b = if c.rng.chance(0.3) { DVector::from_fn(n, |_, _| c.rng.normal()) } else { &a * &xs };
            let x0 = if c.rng.bool() { DVector::zeros(n) } else if c.rng.chance(0.2) { xs.clone() } else { DVector::from_fn(n, |_, _| c.rng.normal()) };
            let mode = match c.rng.below(8) {
                0 => CritMode::AfterIters(c.rng.below(2 * n)),
                1 => CritMode::FailAt(c.rng.below(6)),
                2 => CritMode::Never,
                3 => CritMode::TrueResidual,
                _ => CritMode::Relative,
            };
            let tol = if c.rng.chance(0.1) { 0.0 } else { c.rng.logf(1e-14, 0.5) };
            let max_iter = Some(*c.rng.pick(&[0, 1, 2, 3, n, 2 * n, 10 * n]));
            let fail_a = if mode != CritMode::TrueResidual && c.rng.chance(0.3) { Some(c.rng.below(6)) } else { None };
            let fail_p = if c.rng.chance(0.3) { Some(c.rng.below(6)) } else { None };
            c.desc(format!("n={n} {op:?} precond={pw} {mode:?} tol={tol:e} max={max_iter:?} fail_a={fail_a:?} fail_p={fail_p:?}"));
            c.keyf(a.as_slice());
            c.key((pw, max_iter, fail_a, fail_p));
            let use_csr = c.rng.bool();
            let pr = Problem {
                a: if use_csr { Imp::Csr(&csr) } else { Imp::Dense(&a) },
                p: Imp::Dense(&p),
                b: &b,
                x0: &x0,
                tol,
                mode,
                max_iter,
                fail_a,
                fail_p,
            };
            let Some(o) = c.no_panic("solve_panic", || solve(&pr, None, false)) else { return };
            // overflowing/NaN iterates say nothing
            if o.log.asked.iter().any(|a| !a.1.iter().all(|v| v.is_finite())) || !o.x.iter().all(|v| v.is_finite()) {
                c.count("non_finite_runs_skipped", 1);
                return;
            }
            let big = o.log.asked.iter().map(|a| a.0.amax()).fold(0.0, f64::max);
            if big > 1e8 * (xs.amax() + x0.amax()) {
                c.count("diverged_runs_skipped", 1);
                return;
            }
            judge(c, &pr, &a, &p, &o);
            // injected faults must surface when reached
            let reached = |op: bool, k: Option<usize>| k.is_some() && o.log.apps.iter().filter(|a| a.0 == op).count() > k.unwrap();
            if reached(true, fail_a) || reached(false, fail_p) {
                c.check(matches!(&o.res, Err((_, SolveErrorKind::OperatorError(_) | SolveErrorKind::PreconditionerError(_)))), "fault_swallowed", || format!("{:?}", o.res));
                c.count("faults_reached", 1);
            }
        },
    );
    run.section(
        "f32_default_criteria",
        "the default criteria of both precisions, identity preconditioner, plain matrix operators; mismatched lengths are refused",
        20000,
        50000,
        |c| {
            let n = c.rng.sized(1, 20, 200);
            let (a, _) = operator(c, n, Op::Spd, 1.0);
            let xs = DVector::from_fn(n, |_, _| c.rng.normal());
            let b = &a * &xs;
            c.keyf(a.as_slice());
            let mut x = DVector::zeros(n);
            let r = ConjugateGradient::new()
                .with_operator(&a)
                .with_stopping_criterion(RelativeResidualCriterion::default())
                .with_max_iter(1000)
                .solve_with_guess(&b, &mut x);
            let res = (&b - &a * &x).norm();
            c.check(r.is_ok() && res <= 1.001e-8 * b.norm(), "default_f64", || format!("{r:?} {res:e}"));
            let a32 = a.map(|v| v as f32);
            let c32 = CsrMatrix::from(&a32);
            let b32 = b.map(|v| v as f32);
            let mut x32 = DVector::<f32>::zeros(n);
            let r = ConjugateGradient::new()
                .with_operator(&c32)
                .with_stopping_criterion(RelativeResidualCriterion::default())
                .with_max_iter(1000)
                .solve_with_guess(&b32, &mut x32);
            let res = (&b - &a * x32.map(|v| v as f64)).norm();
            let lim = 1e-4 * b.norm() + 2e-6 * n as f64 * a.norm() * (x32.norm() as f64 + 1.0);
            c.check(r.is_ok() && res <= lim, "default_f32", || format!("{r:?} {res:e} vs {lim:e}"));
            c.count("default_solves", 2);
            // an operator or guess that is not a number ends the solve, also without an iteration limit
            let k = c.rng.below(n);
            let mut an = a.clone();
            let mut xn = DVector::zeros(n);
            if c.rng.bool() {
                an[(k, c.rng.below(n))] = f64::NAN;
            } else {
                xn[k] = f64::NAN;
            }
            let r = ConjugateGradient::new()
                .with_operator(&an)
                .with_stopping_criterion(RelativeResidualCriterion::default())
                .solve_with_guess(&b, &mut xn);
            c.check(r.is_err(), "nan_accepted", || format!("{r:?}"));
            c.count("nan_solves", 1);
            let mut y = DVector::zeros(n + 1);
            let bad = c.catch(|| {
                ConjugateGradient::new()
                    .with_operator(&a)
                    .with_stopping_criterion(RelativeResidualCriterion::default())
                    .with_max_iter(3)
                    .solve_with_guess(&b, &mut y)
                    .map(|_| ())
                    .map_err(|_| ())
            });
            c.check(!matches!(bad, Ok(Ok(()))), "mismatch_accepted", || "b and x of different length".into());
        },
    );
    for k in ["ended_operator_error", "ended_preconditioner_error", "ended_criterion_error", "ended_indefinite_operator", "ended_indefinite_preconditioner", "ended_max_iterations", "zero_rhs"] {
        run.require(k, 5);
    }
    run.require("nan_solves", 50);
    run.require("converged", 300);
    run.require("must_succeed", 200);
    run.require("orthogonality_pairs", 500);
    run.require("reused_workspace_runs", 300);
    run.require("faults_reached", 100);
}

//! N03: numerical differentiation of functions with known derivatives, with every evaluation point monitored.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::*;
use std::cell::RefCell;
use vlib::{Case, Run};

/// f_i(x) = c_i + l_i . x + x' Q_i x + a_i sin(w_i . x)
struct F {
    n: usize,
    c: Vec<f64>,
    l: Vec<DVector<f64>>,
    q: Vec<DMatrix<f64>>,
    a: Vec<f64>,
    w: Vec<DVector<f64>>,
}
impl F {
    fn new(c: &mut Case, m: usize, n: usize, quad: bool) -> F {
        let mut v = |k: usize, c: &mut Case| DVector::from_fn(k, |_, _| c.rng.normal());
        let cc = (0..m).map(|_| c.rng.normal()).collect();
        let l = (0..m).map(|_| v(n, c)).collect();
        let w = (0..m).map(|_| v(n, c)).collect();
        F {
            n,
            c: cc,
            l,
            q: (0..m).map(|_| DMatrix::from_fn(n, n, |_, _| c.rng.normal())).collect(),
            a: (0..m).map(|_| if quad { 0.0 } else { c.rng.normal() }).collect(),
            w,
        }
    }
    fn eval(&self, i: usize, x: &DVector<f64>) -> f64 {
        self.c[i] + self.l[i].dot(x) + x.dot(&(&self.q[i] * x)) + self.a[i] * self.w[i].dot(x).sin()
    }
    fn d(&self, i: usize, j: usize, x: &DVector<f64>) -> f64 {
        let mut s = self.l[i][j] + self.a[i] * self.w[i][j] * self.w[i].dot(x).cos();
        for k in 0..self.n {
            s += (self.q[i][(j, k)] + self.q[i][(k, j)]) * x[k];
        }
        s
    }
    /// truncation plus rounding error of central differences
    fn tol(&self, i: usize, j: usize, x: &DVector<f64>, h: f64) -> f64 {
        let xm = x.amax() + h;
        let n = self.n as f64;
        let mag = self.c[i].abs() + self.l[i].abs().sum() * xm + self.q[i].abs().sum() * xm * xm + self.a[i].abs() * (1.0 + self.w[i].abs().sum() * xm);
        // x + h itself is rounded
        let grad = self.l[i].abs().max() + 2.0 * self.q[i].abs().sum() * xm + self.a[i].abs() * self.w[i].amax();
        self.a[i].abs() * self.w[i][j].abs().powi(3) * h * h / 6.0 * 1.0001 + (8.0 + n) * 2.0 * f64::EPSILON * mag / h + 2.0 * f64::EPSILON * xm / h * grad
    }
}
struct Rec<'a> {
    f: &'a F,
    m: usize,
    pts: &'a RefCell<Vec<DVector<f64>>>,
}
impl VectorFunction<f64> for Rec<'_> {
    fn dimension(&self) -> usize {
        self.m
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        let x = x.clone_owned();
        for i in 0..self.m {
            f[i] = self.f.eval(i, &x);
        }
        self.pts.borrow_mut().push(x);
    }
}
fn judge_points(c: &mut Case, pts: &[DVector<f64>], x: &DVector<f64>, h: f64) {
    c.count("evaluation_points", pts.len() as u64);
    for p in pts {
        let diff: Vec<usize> = (0..x.len()).filter(|i| p[*i].to_bits() != x[*i].to_bits()).collect();
        let ok = p.len() == x.len() && diff.len() <= 1 && diff.iter().all(|i| p[*i] == x[*i] + h || p[*i] == x[*i] - h);
        c.check(ok, "evaluation_point", || format!("evaluated at {:?}, x {:?}, h {h:e}", p.as_slice(), x.as_slice()));
    }
}
fn judge(c: &mut Case, f: &F, j: &DMatrix<f64>, x: &DVector<f64>, h: f64, what: &str) {
    for a in 0..j.nrows() {
        for b in 0..j.ncols() {
            let w = f.d(a, b, x);
            c.close(j[(a, b)], w, f.tol(a, b, x, h), what, || format!("entry ({a},{b}), h {h:e}, x {:?}", x.as_slice()));
        }
    }
    c.count("derivatives_judged", j.len() as u64);
}

pub fn n03(run: &mut Run) {
    run.assumption("error bounds: h^2/6 times the third derivative plus rounding of function values divided by h");
    run.section("central_differences", "quadratic and trigonometric maps R^n -> R^m of every shape, all entry points, strided and stale output buffers", 15000, 800000, |c| {
        let n = if c.rng.chance(0.05) { 0 } else { c.rng.sized(1, 6, 80) };
        let m = if c.rng.chance(0.05) { 0 } else { c.rng.sized(1, 6, 80) };
        let quad = c.rng.bool();
        let f = F::new(c, m, n, quad);
        let s = c.rng.logf(1e-3, 1e2);
        let mut x = DVector::from_fn(n, |_, _| s * c.rng.normal());
        if n > 0 && c.rng.chance(0.2) {
            let k = c.rng.below(n);
            x[k] = -0.0;
        }
        let h = if quad { c.rng.logf(1e-6, 10.0) } else { c.rng.logf(1e-6, 1e-2) };
        c.desc(format!("n={n} m={m} quadratic={quad} h={h:e}"));
        c.keyf(x.as_slice());
        let bits = |x: &DVector<f64>| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
        let b0 = bits(&x);
        let pts = RefCell::new(vec![]);
        // VectorFunction based, by value and by reference
        let mut rec = Rec { f: &f, m, pts: &pts };
        let by_ref = c.rng.bool();
        let Some(j) = c.no_panic("jacobian_panic", || if by_ref { approximate_jacobian(&mut rec, &x, &h) } else { approximate_jacobian(rec, &x, &h) }) else { return };
        c.check(j.shape() == (m, n), "shape", || format!("{:?}", j.shape()));
        if j.shape() != (m, n) {
            return;
        }
        judge(c, &f, &j, &x, h, "approximate_jacobian");
        judge_points(c, &pts.borrow(), &x, h);
        // closure based
        pts.borrow_mut().clear();
        let fx = |p: DVectorView<f64>, mut o: DVectorViewMut<f64>| {
            let p = p.clone_owned();
            for i in 0..m {
                o[i] = f.eval(i, &p);
            }
            pts.borrow_mut().push(p);
        };
        let mut y = x.clone();
        let Some(j) = c.no_panic("jacobian_fd_panic", || approximate_jacobian_fd(m, fx, &mut y, h)) else { return };
        c.check(bits(&y) == b0, "point_changed", || format!("{:?} -> {:?}", x.as_slice(), y.as_slice()));
        c.check(j.shape() == (m, n), "shape_fd", || format!("{:?}", j.shape()));
        judge(c, &f, &j, &x, h, "approximate_jacobian_fd");
        judge_points(c, &pts.borrow(), &x, h);
        // into a window of a larger matrix, x a column of another
        pts.borrow_mut().clear();
        let mut big = DMatrix::repeat(m + 3, n + 2, f64::NAN);
        let mut xs = DMatrix::repeat(n, 3, 9.0);
        xs.set_column(1, &x);
        let fx = |p: DVectorView<f64>, mut o: DVectorViewMut<f64>| {
            let p = p.clone_owned();
            for i in 0..m {
                o[i] = f.eval(i, &p);
            }
            pts.borrow_mut().push(p);
        };
        if c.no_panic("jacobian_fd_into_panic", || approximate_jacobian_fd_into(big.view_mut((1, 1), (m, n)), fx, xs.column_mut(1), h)).is_none() {
            return;
        }
        let j2 = big.view((1, 1), (m, n)).clone_owned();
        c.check(bits(&xs.column(1).clone_owned()) == b0 && xs.column(0).iter().chain(xs.column(2).iter()).all(|v| *v == 9.0), "point_changed_view", || format!("{xs}"));
        judge(c, &f, &j2, &x, h, "approximate_jacobian_fd_into");
        judge_points(c, &pts.borrow(), &x, h);
        let outside = (0..m + 3).flat_map(|a| (0..n + 2).map(move |b| (a, b))).filter(|(a, b)| *a == 0 || *a > m || *b == 0 || *b > n).all(|p| big[p].is_nan());
        c.check(outside, "wrote_outside", || format!("{big}"));
        // gradients
        for i in 0..m.min(2) {
            pts.borrow_mut().clear();
            let g = |p: DVectorView<f64>| {
                let p = p.clone_owned();
                let v = f.eval(i, &p);
                pts.borrow_mut().push(p);
                v
            };
            let mut y = x.clone();
            let Some(df) = c.no_panic("gradient_panic", || approximate_gradient_fd(g, &mut y, h)) else { return };
            c.check(bits(&y) == b0 && df.len() == n, "gradient_point_changed", || format!("{:?} -> {:?}", x.as_slice(), y.as_slice()));
            judge_points(c, &pts.borrow(), &x, h);
            let mut buf = DVector::repeat(n, f64::NAN);
            let mut y = x.clone();
            let g = |p: DVectorView<f64>| f.eval(i, &p.clone_owned());
            if c.no_panic("gradient_into_panic", || approximate_gradient_fd_into(DVectorViewMut::from(&mut buf), g, &mut y, h)).is_none() {
                return;
            }
            c.check(bits(&y) == b0, "gradient_point_changed", || format!("{:?} -> {:?}", x.as_slice(), y.as_slice()));
            for (k, (u, v)) in df.iter().zip(buf.iter()).enumerate() {
                let w = f.d(i, k, &x);
                c.close(*u, w, f.tol(i, k, &x, h), "approximate_gradient_fd", || format!("component {k}, h {h:e}"));
                c.close(*v, w, f.tol(i, k, &x, h), "approximate_gradient_fd_into", || format!("component {k}, h {h:e}"));
            }
            c.count("gradients_judged", 2);
        }
        // wrong output width is refused
        if n > 0 {
            let mut bad = DMatrix::zeros(m, n + 1);
            let mut y = x.clone();
            let r = c.catch(|| approximate_jacobian_fd_into(&mut bad, |_, _| (), &mut y, h));
            c.check(r.is_err(), "wrong_width_accepted", || "".into());
        }
    });
    run.section("builder", "functions built from closures evaluate, solve and report their dimension through the trait and references", 3000, 50000, |c| {
        let n = c.rng.sized(0, 6, 300);
        let v = DVector::from_fn(n, |_, _| c.rng.normal());
        let x = DVector::from_fn(n, |_, _| c.rng.normal());
        c.keyf(v.as_slice());
        let (v1, v2) = (v.clone(), v.clone());
        let fail = c.rng.bool();
        let mut calls = 0;
        let mut fun = VectorFunctionBuilder::with_dimension(n)
            .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
                for i in 0..f.len() {
                    f[i] = v1[i] * x[i] + 1.0;
                }
            })
            .with_jacobian_solver(|s: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, r: &DVectorView<f64>| {
                calls += 1;
                for i in 0..s.len() {
                    s[i] = r[i] / v2[i] + x[i];
                }
                if fail { Err(Box::from("no")) } else { Ok(()) }
            });
        fn through<F: DifferentiableVectorFunction<f64>>(mut f: F, x: &DVector<f64>, r: &DVector<f64>) -> (usize, DVector<f64>, DVector<f64>, bool) {
            let n = x.len();
            let mut o = DVector::zeros(n);
            f.eval_into(&mut DVectorViewMut::from(&mut o), &DVectorView::from(x));
            let mut s = DVector::zeros(n);
            let ok = f.solve_jacobian_system(&mut DVectorViewMut::from(&mut s), &DVectorView::from(x), &DVectorView::from(r)).is_ok();
            (f.dimension(), o, s, ok)
        }
        let r = DVector::from_fn(n, |_, _| c.rng.normal());
        let a = through(&mut fun, &x, &r);
        let b = through(fun, &x, &r);
        c.check(calls == 2, "solver_calls", || format!("{calls}"));
        for (d, o, s, ok) in [a, b] {
            c.check(d == n && ok != fail, "dimension_or_result", || format!("{d} {ok}"));
            c.check((0..n).all(|i| o[i] == v[i] * x[i] + 1.0 && s[i] == r[i] / v[i] + x[i]), "closure_not_used", || format!("{o:?} {s:?}"));
        }
        c.count("built_functions", 2);
    });
    run.require("derivatives_judged", 5000);
    run.require("gradients_judged", 500);
    run.require("evaluation_points", 5000);
    run.require("built_functions", 100);
}

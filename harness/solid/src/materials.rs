//! H01: material models are executed on sampled deformations and compared with derivatives of the documented energies
//! obtained by the oracle's own automatic differentiation, and with invariances of the response.
use crate::hyper::*;
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator};
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::Symmetry;
use fenris_solid::materials::*;
use fenris_solid::*;
use vlib::{Case, Run};

/// A user's material that implements only what is required (everything else comes from the trait).
#[derive(Clone, Copy)]
struct User;
impl<D: PhysicalDim> HyperelasticMaterial<f64, D> for User
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    type Parameters = LameParameters<f64>;
    fn compute_energy_density(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> f64 {
        0.5 * p.mu * (f - OMatrix::<f64, D, D>::identity()).norm_squared()
    }
    fn compute_stress_tensor(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        (f - OMatrix::<f64, D, D>::identity()) * p.mu
    }
    fn compute_stress_contraction(&self, f: &OMatrix<f64, D, D>, a: &OVector<f64, D>, b: &OVector<f64, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        // depends on F so that handing over the wrong matrix shows
        OMatrix::<f64, D, D>::identity() * (p.mu * a.dot(b)) + f * a.dot(b)
    }
}

fn seed<D: PhysicalDim>(u: &OMatrix<f64, D, D>, i: (usize, usize), j: (usize, usize)) -> M
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::USIZE;
    (0..d)
        .map(|r| {
            (0..d)
                .map(|s| H { v: u[(r, s)], a: ((r, s) == i) as u8 as f64, b: ((r, s) == j) as u8 as f64, ab: 0.0 })
                .collect()
        })
        .collect()
}
struct Ref<D: PhysicalDim>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    e: f64,
    p: OMatrix<f64, D, D>,
    /// dP_ik / dF_jm
    t: Vec<f64>,
}
impl<D: PhysicalDim> Ref<D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn new(model: Model, u: &OMatrix<f64, D, D>, mu: f64, la: f64) -> Self {
        let d = D::USIZE;
        let mut t = vec![];
        let mut p = OMatrix::<f64, D, D>::zeros();
        let mut e = 0.0;
        for i in 0..d {
            for k in 0..d {
                for j in 0..d {
                    for m in 0..d {
                        let h = energy(model, &seed(u, (i, k), (j, m)), mu, la);
                        e = h.v;
                        p[(i, k)] = h.a;
                        t.push(h.ab);
                    }
                }
            }
        }
        Ref { e, p, t }
    }
    fn contract(&self, a: &OVector<f64, D>, b: &OVector<f64, D>) -> OMatrix<f64, D, D> {
        let d = D::USIZE;
        OMatrix::<f64, D, D>::from_fn(|i, j| {
            let mut s = 0.0;
            for k in 0..d {
                for m in 0..d {
                    s += a[k] * self.t[((i * d + k) * d + j) * d + m] * b[m];
                }
            }
            s
        })
    }
    fn tmax(&self) -> f64 {
        self.t.iter().fold(0.0, |m, x| m.max(x.abs()))
    }
}
fn rot<D: PhysicalDim>(c: &mut Case) -> OMatrix<f64, D, D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::USIZE;
    let q = DMatrix::from_fn(d, d, |_, _| c.rng.normal()).qr().q();
    let mut q = OMatrix::<f64, D, D>::from_fn(|i, j| q[(i, j)]);
    if det(&q) < 0.0 {
        for i in 0..d {
            q[(i, 0)] = -q[(i, 0)];
        }
    }
    q
}
fn det<D: PhysicalDim>(f: &OMatrix<f64, D, D>) -> f64
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let u = f - OMatrix::<f64, D, D>::identity();
    det_minus_one(&seed(&u, (9, 9), (9, 9))).v + 1.0
}
/// U = F - I with det F > 0: singular values of F times rotations, or a small perturbation of a rotation or identity.
fn sample_u<D: PhysicalDim>(c: &mut Case) -> (OMatrix<f64, D, D>, &'static str)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let i = OMatrix::<f64, D, D>::identity();
    match c.rng.below(5) {
        4 => {
            // stretches along axes, single shears, exact quarter turns, round numbers: many exact zeros
            let d = D::USIZE;
            let mut f = i.clone();
            match c.rng.below(5) {
                0 => (0..d).for_each(|k| f[(k, k)] = *c.rng.pick(&[1.0, 0.5, 2.0, 1.25])),
                1 => (0..d).for_each(|k| f[(k, k)] = if c.rng.bool() { 1.0 } else { c.rng.logf(0.2, 5.0) }),
                2 => {
                    let (a, b) = (c.rng.below(d), c.rng.below(d));
                    f[(a, b)] += c.rng.f(-0.9, 2.0);
                }
                3 => {
                    // triangular
                    for a in 0..d {
                        f[(a, a)] = *c.rng.pick(&[1.0, 2.0, 0.75]);
                        for b in a + 1..d {
                            f[(a, b)] = *c.rng.pick(&[0.0, 1.0, -0.5]);
                        }
                    }
                    if c.rng.bool() {
                        f = f.transpose();
                    }
                }
                _ => {
                    let p = c.rng.perm(d);
                    let s = c.rng.logf(0.5, 2.0);
                    f = OMatrix::<f64, D, D>::from_fn(|a, b| if p[a] == b { if c.rng.bool() { 1.0 } else { -1.0 } } else { 0.0 });
                    if det(&f) < 0.0 {
                        (0..d).for_each(|k| f[(0, k)] = -f[(0, k)]);
                    }
                    if c.rng.bool() {
                        f *= s;
                    }
                }
            }
            (f - i, "structured")
        }
        0 => {
            let s = c.rng.logf(1e-12, 1e-2);
            (OMatrix::<f64, D, D>::from_fn(|_, _| s * c.rng.normal()), "small")
        }
        1 => {
            let s = 0.3 / D::USIZE as f64;
            (OMatrix::<f64, D, D>::from_fn(|_, _| c.rng.f(-s, s)), "moderate")
        }
        2 => {
            let q = rot::<D>(c);
            let s = c.rng.logf(1e-8, 0.1);
            (q - i + OMatrix::<f64, D, D>::from_fn(|_, _| s * c.rng.f(-1.0, 1.0)), "rotated")
        }
        _ => {
            let (q, r) = (rot::<D>(c), rot::<D>(c));
            let hi = c.rng.f(1.0, 8.0);
            let s = OVector::<f64, D>::from_fn(|_, _| c.rng.logf(1.0 / hi, hi));
            (q * OMatrix::<f64, D, D>::from_diagonal(&s) * r - i, "large")
        }
    }
}
fn params(c: &mut Case) -> LameParameters<f64> {
    match c.rng.below(5) {
        0 => {
            let s = c.rng.logf(1e-3, 1e9);
            LameParameters { mu: s, lambda: 0.0 }
        }
        1 => LameParameters { mu: 0.0, lambda: c.rng.logf(1e-3, 1e9) },
        2 => {
            let nu = c.rng.f(-0.9, 0.499);
            LameParameters::from(YoungPoisson { young: c.rng.logf(1.0, 1e9), poisson: nu })
        }
        _ => LameParameters { mu: c.rng.logf(1e-2, 1e6), lambda: c.rng.logf(1e-2, 1e6) },
    }
}

fn one<D: PhysicalDim, Mat: HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>>(c: &mut Case, mat: &Mat, model: Model)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::USIZE;
    let (u, fam) = sample_u::<D>(c);
    let i = OMatrix::<f64, D, D>::identity();
    let f = &i + &u;
    let u = if fam == "small" { u } else { &f - &i };
    let p = params(c);
    c.desc(format!("{model:?} d={d} {fam} U={:?} {p:?}", u.as_slice()));
    c.keyf(u.as_slice());
    let j = det_minus_one(&seed(&u, (9, 9), (9, 9))).v + 1.0;
    let fi = match f.clone().try_inverse() {
        Some(x) => x.amax(),
        None => return,
    };
    let par = p.mu.abs() + p.lambda.abs();
    let fm = 1.0 + f.amax();
    let logj = j.ln().abs();
    // rounding scale of each response as evaluated from F, and from the displacement gradient
    let (es, ps, ts) = match model {
        Model::Linear => (par * fm * u.amax().max(1e-16), par * fm, par),
        Model::StVK => (par * fm.powi(4), par * fm.powi(3), par * fm.powi(2)),
        Model::NeoHooke => {
            let k = fi * fm; // relative error of det and inverse grows with the condition
            (par * (fm * fm + k.powi(d as i32 - 1) * (1.0 + logj)), par * (fm + fi * (1.0 + logj) * k.powi(d as i32 - 1)), par * (1.0 + fi * fi * (1.0 + logj) * k.powi(d as i32 - 1)))
        }
    };
    let k = 60.0 * f64::EPSILON * (d * d) as f64;
    let ug = u.transpose(); // grad u
    // conversions between the deformation gradient and the displacement gradient
    c.close_slices(deformation_gradient(&ug).as_slice(), f.as_slice(), 4e-16 * fm, "deformation_gradient", || "F = I + grad u^T".into());
    c.close_slices(u_grad_from_F(&f).as_slice(), (&f - &i).transpose().as_slice(), 4e-16 * fm, "u_grad_from_F", || "".into());
    // from F: the reference uses U = F - I as represented
    let rf = Ref::new(model, &(&f - &i), p.mu, p.lambda);
    let ru = Ref::new(model, &u, p.mu, p.lambda);
    let what = || format!("{model:?} {fam}");
    c.close(mat.compute_energy_density(&f, &p), rf.e, k * es, "energy", what);
    let du_e = match (model, fam) {
        // the displacement form keeps accuracy for small deformations
        (Model::NeoHooke, "small") => k * par * u.amax() * 4.0,
        _ => k * es,
    };
    c.close(mat.compute_energy_density_du(&ug, &p), ru.e, du_e, "energy_du", what);
    c.close_slices(mat.compute_stress_tensor(&f, &p).as_slice(), rf.p.as_slice(), k * ps, "stress", what);
    c.close_slices(mat.compute_stress_tensor_du(&ug, &p).as_slice(), ru.p.as_slice(), k * ps, "stress_du", what);
    let mut a = OVector::<f64, D>::from_fn(|_, _| c.rng.normal());
    let mut b = OVector::<f64, D>::from_fn(|_, _| c.rng.normal());
    match c.rng.below(6) {
        0 => a = b.clone(),
        1 => {
            let (k, l) = (c.rng.below(d), c.rng.below(d));
            a = OVector::<f64, D>::from_fn(|i, _| (i == k) as usize as f64);
            b = OVector::<f64, D>::from_fn(|i, _| (i == l) as usize as f64);
        }
        2 => b[c.rng.below(d)] = 0.0,
        _ => {}
    }
    let ct = k * (ts + ru.tmax()) * (1.0 + a.amax()) * (1.0 + b.amax()) * d as f64;
    let cf = mat.compute_stress_contraction(&f, &a, &b, &p);
    c.close_slices(cf.as_slice(), rf.contract(&a, &b).as_slice(), ct, "contraction", what);
    c.close_slices(mat.compute_stress_contraction_du(&ug, &a, &b, &p).as_slice(), ru.contract(&a, &b).as_slice(), ct, "contraction_du", what);
    let sw = mat.compute_stress_contraction(&f, &b, &a, &p).transpose();
    c.close_slices(cf.as_slice(), sw.as_slice(), ct, "tangent_symmetry", what);
    c.count("responses_judged", 6);
    batch::<D, _>(c, mat, &f, &ug, &p, &|a, b| rf.contract(a, b), ct);
    // the operator the assembler sees
    let op = MaterialEllipticOperator::new(mat);
    c.close(op.compute_energy(&ug, &p), ru.e, du_e, "operator_energy", what);
    c.close_slices(op.compute_elliptic_operator(&ug, &p).as_slice(), ru.p.transpose().as_slice(), k * ps, "operator", what);
    c.close_slices(op.compute_elliptic_operator_transpose(&ug, &p).as_slice(), ru.p.as_slice(), k * ps, "operator_transpose", what);
    c.close_slices(op.contract(&ug, &a, &b, &p).as_slice(), ru.contract(&a, &b).as_slice(), ct, "operator_contraction", what);
    c.check(EllipticContraction::<f64, D>::symmetry(&op) == Symmetry::Symmetric, "operator_symmetry", || "not declared symmetric".into());
    // objectivity and isotropy
    if model != Model::Linear {
        let (q, r) = (rot::<D>(c), rot::<D>(c));
        let g = &q * &f * &r;
        c.close(mat.compute_energy_density(&g, &p), rf.e, 4.0 * k * es * d as f64, "frame_invariance_energy", what);
        let want = &q * &rf.p * &r;
        c.close_slices(mat.compute_stress_tensor(&g, &p).as_slice(), want.as_slice(), 4.0 * k * ps * d as f64, "frame_invariance_stress", what);
        c.count("rotated_responses", 2);
        // pure rotation: no energy, no stress
        let z = &q * &r;
        let zs = k * par * 10.0;
        c.close(mat.compute_energy_density(&z, &p), 0.0, zs, "rotation_energy", what);
        c.check(mat.compute_stress_tensor(&z, &p).amax() <= zs, "rotation_stress", || format!("{}", mat.compute_stress_tensor(&z, &p)));
    } else {
        let w = (&u - u.transpose()) * 0.5;
        let g = &i + w;
        c.close(mat.compute_energy_density(&g, &p), 0.0, k * par * fm * fm, "infinitesimal_rotation_energy", what);
    }
    // rest state: exactly nothing
    c.check(mat.compute_energy_density(&i, &p) == 0.0 && mat.compute_stress_tensor(&i, &p).amax() == 0.0, "rest_state", || {
        format!("energy {:e} stress {}", mat.compute_energy_density(&i, &p), mat.compute_stress_tensor(&i, &p))
    });
    let z = OMatrix::<f64, D, D>::zeros();
    c.check(mat.compute_energy_density_du(&z, &p) == 0.0 && mat.compute_stress_tensor_du(&z, &p).amax() == 0.0, "rest_state_du", || "".into());
}

fn batch<D: PhysicalDim, Mat: HyperelasticMaterial<f64, D>>(
    c: &mut Case,
    mat: &Mat,
    f: &OMatrix<f64, D, D>,
    ug: &OMatrix<f64, D, D>,
    p: &Mat::Parameters,
    contract: &dyn Fn(&OVector<f64, D>, &OVector<f64, D>) -> OMatrix<f64, D, D>,
    ct: f64,
) where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::USIZE;
    let m = c.rng.sized(0, 4, 40);
    let n = if c.rng.bool() { m } else { c.rng.sized(0, 4, 40) };
    let mut a = DVector::from_fn(m * d, |_, _| c.rng.f(-1.0, 1.0));
    let mut b = DVector::from_fn(n * d, |_, _| c.rng.f(-1.0, 1.0));
    // axis vectors, zeros, small integers, and vectors that occur in both families
    if c.rng.chance(0.4) {
        let special = |c: &mut Case, v: &mut DVector<f64>, k: usize, o: &DVector<f64>| {
            for i in 0..k {
                let how = c.rng.below(6);
                let axis = c.rng.below(d);
                let from = if o.len() >= d { c.rng.below(o.len() / d) } else { 0 };
                for q in 0..d {
                    v[d * i + q] = match how {
                        0 => (q == axis) as usize as f64 * *c.rng.pick(&[1.0, -0.5]),
                        1 => 0.0,
                        2 => c.rng.below(5) as f64 * 0.5 - 1.0,
                        3 if o.len() >= d => o[d * from + q],
                        // a quarter turn
                        4 if d > 1 && o.len() >= d => [-o[d * from + 1], o[d * from], 0.0][q],
                        _ => v[d * i + q],
                    };
                }
            }
        };
        let b0 = b.clone();
        special(c, &mut a, m, &b0);
        let a0 = a.clone();
        special(c, &mut b, n, &a0);
        c.count("special_vector_families", 1);
    }
    let alpha = *c.rng.pick(&[1.0, 0.0, -2.5, 0.37]);
    let old = DMatrix::from_fn(m * d + 2, n * d + 1, |_, _| c.rng.f(-1.0, 1.0));
    for which in 0..3 {
        let mut big = old.clone();
        let r = {
            let out = big.view_mut((1, 1), (m * d, n * d));
            let (av, bv) = (DVectorView::from(&a), DVectorView::from(&b));
            c.catch(|| match which {
                0 => mat.accumulate_stress_contractions_into(out, alpha, f, av, bv, p),
                1 => mat.accumulate_stress_contractions_du_into(out, alpha, ug, av, bv, p),
                _ => MaterialEllipticOperator::new(mat).accumulate_contractions_into(out, alpha, ug, av, bv, p),
            })
        };
        if let Err(e) = r {
            c.fail("batch_panic", e);
            return;
        }
        for i in 0..m {
            for j in i..n {
                let ai = OVector::<f64, D>::from_fn(|k, _| a[d * i + k]);
                let bj = OVector::<f64, D>::from_fn(|k, _| b[d * j + k]);
                let w = contract(&ai, &bj) * alpha;
                let got = OMatrix::<f64, D, D>::from_fn(|r, s| big[(1 + d * i + r, 1 + d * j + s)]);
                let want = OMatrix::<f64, D, D>::from_fn(|r, s| w[(r, s)] + old[(1 + d * i + r, 1 + d * j + s)]);
                c.close_slices(got.as_slice(), want.as_slice(), 3.0 * ct + 1e-15, "batch_contraction", || format!("variant {which} block ({i},{j}) of {m}x{n}, alpha {alpha}"));
                c.count("batch_blocks", 1);
            }
        }
        let (w, h) = (n * d, m * d);
        let outside = (0..h + 2).all(|r| (0..w + 1).all(|s| (r >= 1 && r <= h && s >= 1 && s <= w) || big[(r, s)] == old[(r, s)]));
        c.check(outside, "batch_wrote_outside", || "entries around the output window changed".into());
    }
}

fn logdet<D: PhysicalDim>(c: &mut Case)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let (u, fam) = sample_u::<D>(c);
    let (u, flipped) = if c.rng.chance(0.3) {
        // reflect: negative determinant
        let mut f = &u + OMatrix::<f64, D, D>::identity();
        for i in 0..D::USIZE {
            f[(i, 0)] = -f[(i, 0)];
        }
        (f - OMatrix::<f64, D, D>::identity(), true)
    } else {
        (u, false)
    };
    c.desc(format!("logdet d={} {fam} {:?} reflected {flipped}", D::USIZE, u.as_slice()));
    c.keyf(u.as_slice());
    let g = det_minus_one(&seed(&u, (9, 9), (9, 9))).v;
    let got = log_det_F(&u);
    if flipped {
        c.check(got.is_none(), "log_of_negative_determinant", || format!("{got:?} for det {}", g + 1.0));
        c.count("inverted", 1);
        for p in [params(c)] {
            let f = &u + OMatrix::<f64, D, D>::identity();
            let e = NeoHookeanMaterial.compute_energy_density(&f, &p);
            c.check(e == f64::INFINITY, "inverted_energy", || format!("{e}"));
            let e = NeoHookeanMaterial.compute_energy_density_du(&u.transpose(), &p);
            c.check(e == f64::INFINITY, "inverted_energy", || format!("{e}"));
            let s: OMatrix<f64, D, D> = NeoHookeanMaterial.compute_stress_tensor(&f, &p);
            c.check(s.iter().all(|x| !x.is_finite()), "inverted_stress", || format!("{s}"));
        }
    } else {
        let um = u.amax();
        let scale = if fam == "small" { um } else { (1.0 + um).powi(D::USIZE as i32) / (1.0 + g) };
        match got {
            Some(x) => {
                c.close(x, g.ln_1p(), 40.0 * f64::EPSILON * scale, "log_det", || format!("{fam}"));
                c.count("log_determinants", 1);
            }
            None => c.fail("log_det_missing", format!("det {}", g + 1.0)),
        }
    }
}

pub fn h01(run: &mut Run) {
    run.assumption("reference derivatives by hyper-dual arithmetic on the documented energies; tolerances scale with eps, parameters and the conditioning of F");
    macro_rules! each {
        ($c:expr, $m:expr, $model:expr) => {
            match $c.rng.below(5) {
                0 => one::<U1, _>($c, $m, $model),
                1 | 2 => one::<U2, _>($c, $m, $model),
                _ => one::<U3, _>($c, $m, $model),
            }
        };
    }
    run.section("models", "linear elastic, Neo-Hookean and StVK in 1-3 dimensions on small, moderate, rotated and large deformations", 60000, 3000000, |c| {
        match c.rng.below(3) {
            0 => each!(c, &LinearElasticMaterial, Model::Linear),
            1 => each!(c, &NeoHookeanMaterial, Model::NeoHooke),
            _ => each!(c, &StVKMaterial, Model::StVK),
        }
    });
    run.section("logdet", "logarithm of the determinant: accurate for tiny displacement gradients, undefined for inverted ones", 20000, 1000000, |c| match c.rng.below(3) {
        0 => logdet::<U1>(c),
        1 => logdet::<U2>(c),
        _ => logdet::<U3>(c),
    });
    run.section("defaults", "a user material with only the required methods gets consistent displacement-gradient variants and batches", 5000, 200000, |c| {
        fn go<D: PhysicalDim>(c: &mut Case)
        where
            DefaultAllocator: DimAllocator<f64, D>,
        {
            let (u, _) = sample_u::<D>(c);
            let f = &u + OMatrix::<f64, D, D>::identity();
            let ug = u.transpose();
            let p = LameParameters { mu: c.rng.f(0.1, 3.0), lambda: 0.0 };
            c.keyf(u.as_slice());
            let tol = 1e-13 * (1.0 + f.amax()).powi(2);
            let e = HyperelasticMaterial::<f64, D>::compute_energy_density_du(&User, &ug, &p);
            c.close(e, User.compute_energy_density(&f, &p), tol * 10.0, "default_energy_du", || "".into());
            let s: OMatrix<f64, D, D> = User.compute_stress_tensor_du(&ug, &p);
            c.close_slices(s.as_slice(), User.compute_stress_tensor(&f, &p).as_slice(), tol * 10.0, "default_stress_du", || "".into());
            let a = OVector::<f64, D>::from_fn(|_, _| c.rng.f(-1.0, 1.0));
            let b = OVector::<f64, D>::from_fn(|_, _| c.rng.f(-1.0, 1.0));
            let w = User.compute_stress_contraction(&f, &a, &b, &p);
            c.close_slices(User.compute_stress_contraction_du(&ug, &a, &b, &p).as_slice(), w.as_slice(), tol * 10.0, "default_contraction_du", || "".into());
            batch::<D, _>(c, &User, &f, &ug, &p, &|a, b| User.compute_stress_contraction(&f, a, b, &p), tol * 10.0);
            c.count("default_methods", 4);
        }
        match c.rng.below(3) {
            0 => go::<U1>(c),
            1 => go::<U2>(c),
            _ => go::<U3>(c),
        }
    });
    run.section("parameters", "Young's modulus and Poisson ratio: uniaxial, hydrostatic and shear response of the small strain model and linearisation of all models", 10000, 300000, |c| {
        let e = c.rng.logf(1e-3, 1e11);
        let nu = if c.rng.chance(0.1) { 0.0 } else { c.rng.f(-0.95, 0.495) };
        let p = LameParameters::from(YoungPoisson { young: e, poisson: nu });
        c.desc(format!("E={e:e} nu={nu}"));
        c.keyf(&[e, nu]);
        let s = c.rng.f(-1e-3, 1e-3);
        let k = 1e-12 / ((1.0 - 2.0 * nu) * (1.0 + nu));
        // uniaxial stress: axial strain s, lateral -nu s
        let ax = c.rng.below(3);
        let eps = OMatrix::<f64, U3, U3>::from_diagonal(&OVector::<f64, U3>::from_fn(|i, _| if i == ax { s } else { -nu * s }));
        let f = OMatrix::<f64, U3, U3>::identity() + &eps;
        let st = LinearElasticMaterial.compute_stress_tensor(&f, &p);
        let want = OMatrix::<f64, U3, U3>::from_fn(|i, j| if i == ax && j == ax { e * s } else { 0.0 });
        c.close_slices(st.as_slice(), want.as_slice(), k * e * 1e-3, "uniaxial", || format!("{st}"));
        // bulk and shear modulus
        let bulk = e / (3.0 * (1.0 - 2.0 * nu));
        c.close(p.lambda + 2.0 * p.mu / 3.0, bulk, k * e, "bulk_modulus", || "".into());
        c.close(p.mu, e / (2.0 * (1.0 + nu)), 1e-14 * p.mu.abs(), "shear_modulus", || "".into());
        // all models linearise to the same response at rest
        let i3 = OMatrix::<f64, U3, U3>::identity();
        let a = OVector::<f64, U3>::from_fn(|_, _| c.rng.normal());
        let b = OVector::<f64, U3>::from_fn(|_, _| c.rng.normal());
        let l = LinearElasticMaterial.compute_stress_contraction(&i3, &a, &b, &p);
        let t = 1e-13 * (p.mu.abs() + p.lambda.abs()) * (1.0 + a.norm() * b.norm());
        c.close_slices(NeoHookeanMaterial.compute_stress_contraction(&i3, &a, &b, &p).as_slice(), l.as_slice(), t, "neo_hooke_linearisation", || "".into());
        c.close_slices(StVKMaterial.compute_stress_contraction(&i3, &a, &b, &p).as_slice(), l.as_slice(), t, "stvk_linearisation", || "".into());
        // gravity: density times acceleration, anywhere
        let g = OVector::<f64, U2>::from_fn(|_, _| c.rng.normal());
        let src = GravitySource::from_acceleration(g.clone());
        let rho = c.rng.logf(1e-3, 1e4);
        let x = OPoint::<f64, U2>::from(OVector::<f64, U2>::from_fn(|_, _| c.rng.normal()));
        let v = src.evaluate(&x, &Density(rho));
        c.close_slices(v.as_slice(), (g * rho).as_slice(), 1e-15 * rho * 10.0, "gravity", || "".into());
        c.count("parameter_sets", 1);
    });
    run.require("responses_judged", 100_000);
    run.require("batch_blocks", 50_000);
    run.require("rotated_responses", 20_000);
    run.require("log_determinants", 5_000);
    run.require("inverted", 2_000);
    run.require("parameter_sets", 5_000);
    run.require("default_methods", 5_000);
}

use crate::common::*;
use crate::every_mesh;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::{assemble_scalar, par_assemble_scalar};
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::nalgebra::*;
use fenris::space::VolumetricFiniteElementSpace;
use fenris::{SmallDim, Symmetry};
use fenris_solid::materials::*;
use fenris_solid::MaterialEllipticOperator;
use std::marker::PhantomData;
use vfem::oracle::*;
use vlib::{Case, Run};

/// Energy ½p₀|G|² + ¼p₁|G|⁴ + ½p₂(A:G)² + p₃ A:G (a flux without any displacement) with A from the parameters: its operator and contraction are exact by hand.
pub struct Quartic<S> {
    symmetric: bool,
    _s: PhantomData<S>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct QPar {
    p: [f64; 4],
    a: Vec<f64>,
}
impl QPar {
    fn a<D: SmallDim, S: SmallDim>(&self) -> OMatrix<f64, D, S>
    where
        DefaultAllocator: BiDimAllocator<f64, D, S>,
    {
        OMatrix::<f64, D, S>::from_fn(|k, i| self.a[3 * k + i])
    }
}
impl<D: SmallDim, S: SmallDim> Operator<f64, D> for Quartic<S> {
    type SolutionDim = S;
    type Parameters = QPar;
}
impl<D: SmallDim, S: SmallDim> EllipticEnergy<f64, D> for Quartic<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_energy(&self, g: &OMatrix<f64, D, S>, q: &QPar) -> f64 {
        let n = g.norm_squared();
        0.5 * q.p[0] * n + 0.25 * q.p[1] * n * n + 0.5 * q.p[2] * q.a::<D, S>().dot(g).powi(2) + q.p[3] * q.a::<D, S>().dot(g)
    }
}
impl<D: SmallDim, S: SmallDim> EllipticOperator<f64, D> for Quartic<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, S>, q: &QPar) -> OMatrix<f64, D, S> {
        let a = q.a::<D, S>();
        let t = q.p[2] * a.dot(g) + q.p[3];
        g * (q.p[0] + q.p[1] * g.norm_squared()) + a * t
    }
}
impl<D: SmallDim, S: SmallDim> EllipticContraction<f64, D> for Quartic<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn contract(&self, g: &OMatrix<f64, D, S>, a: &OVector<f64, D>, b: &OVector<f64, D>, q: &QPar) -> OMatrix<f64, S, S> {
        let m = q.a::<D, S>();
        let row = |v: &OVector<f64, D>, g: &OMatrix<f64, D, S>, i: usize| -> f64 { v.iter().enumerate().map(|(k, x)| x * g[(k, i)]).sum() };
        let diag = (q.p[0] + q.p[1] * g.norm_squared()) * a.dot(b);
        OMatrix::<f64, S, S>::from_fn(|i, j| {
            (if i == j { diag } else { 0.0 })
                + 2.0 * q.p[1] * row(a, g, i) * row(b, g, j)
                + q.p[2] * row(a, &m, i) * row(b, &m, j)
        })
    }
    fn symmetry(&self) -> Symmetry {
        if self.symmetric {
            Symmetry::Symmetric
        } else {
            Symmetry::NonSymmetric
        }
    }
}
/// A linear operator without an energy: g = B G + c(G) mixes components, contraction is not symmetric.
pub struct Skewed;
impl<D: SmallDim> Operator<f64, D> for Skewed {
    type SolutionDim = U2;
    type Parameters = QPar;
}
impl<D: SmallDim> EllipticEnergy<f64, D> for Skewed
where
    DefaultAllocator: BiDimAllocator<f64, D, U2>,
{
    fn compute_energy(&self, g: &OMatrix<f64, D, U2>, q: &QPar) -> f64 {
        q.p[0] + g.sum()
    }
}
impl<D: SmallDim> EllipticOperator<f64, D> for Skewed
where
    DefaultAllocator: BiDimAllocator<f64, D, U2>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, U2>, q: &QPar) -> OMatrix<f64, D, U2> {
        let b = q.a::<D, D>();
        // (B G) K with K = [[p0, p1], [p2, 1]]
        b * g * Matrix2::new(q.p[0], q.p[1], q.p[2], 1.0)
    }
}
impl<D: SmallDim> EllipticContraction<f64, D> for Skewed
where
    DefaultAllocator: BiDimAllocator<f64, D, U2>,
{
    fn contract(&self, _: &OMatrix<f64, D, U2>, a: &OVector<f64, D>, b: &OVector<f64, D>, q: &QPar) -> OMatrix<f64, U2, U2> {
        // d g_ki / d G_mj = B_km K_ji
        let m = q.a::<D, D>();
        let k = Matrix2::new(q.p[0], q.p[1], q.p[2], 1.0);
        let amb: f64 = (m * b).dot(a);
        Matrix2::from_fn(|i, j| amb * k[(j, i)])
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Energy,
    NoEnergy,
}

/// u with moderate gradients
fn field(c: &mut Case, m: &Mesh0, s: usize, amp: f64) -> Vec<f64> {
    let d = m.km.v[0].len();
    // general, or stretches along axes, single shears, nothing but a translation
    let dense = *c.rng.pick(&[1.0, 1.0, 0.5, 0.2, 0.0]);
    let g: Vec<f64> = (0..d * s).map(|_| if c.rng.chance(dense) { amp * c.rng.normal() } else { 0.0 }).collect();
    let shift: Vec<f64> = (0..s).map(|_| amp * m.size * c.rng.normal()).collect();
    let noise = if c.rng.chance(0.7) { 0.1 * amp * m.size } else { 0.0 };
    m.km.v
        .iter()
        .flat_map(|x| (0..s).map(|i| shift[i] + (0..d).map(|k| g[k * s + i] * x[k]).sum::<f64>() + noise * c.rng.f(-1.0, 1.0)).collect::<Vec<_>>())
        .collect::<Vec<f64>>()
}

fn judge<M, D, S, Op>(c: &mut Case, m0: &Mesh0, m: &M, op: &Op, rules: &Rules<Op::Parameters>, amp: f64, kind: Kind)
where
    M: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync,
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D, SolutionDim = S> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Sync,
    Op::Parameters: Sync,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, S, D> + BiDimAllocator<f64, S, S>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let s = S::dim();
    let d = D::dim();
    let mut u = field(c, m0, s, amp);
    let steep = amp > 0.02 && amp < 0.2; // materials would get close to inversion
    if !steep && c.rng.chance(0.2) {
        // nothing happens in some elements (and only parts of others)
        for _ in 0..c.rng.range(1, 3) {
            let i = c.rng.below(m0.cells());
            for &k in &m0.km.c[i] {
                u[k * s..(k + 1) * s].fill(0.0);
            }
        }
    }
    let v = field(c, m0, s, amp);
    let kind_t = c.rng.below(3);
    let table = rules.table::<D>(kind_t);
    let uv = DVector::from_column_slice(&u);
    let mk = |u: &DVector<f64>| -> (Vec<f64>, f64) {
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(op).with_quadrature_table(&table).with_u(u).build();
        let per: Vec<f64> = (0..m0.cells()).map(|i| a.assemble_element_scalar(i).unwrap()).collect();
        let total = assemble_scalar(&a).unwrap();
        (per, total)
    };
    let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(op).with_quadrature_table(&table).with_u(&uv).build();
    c.check(asm.solution_dim() == s && asm.num_elements() == m0.cells() && asm.num_nodes() == m0.nodes(), "connectivity", || {
        format!("{} {} {}", asm.solution_dim(), asm.num_elements(), asm.num_nodes())
    });
    let n = m0.sh.len();
    let mut cells = c.rng.perm(m0.cells());
    cells.truncate(6);
    let mut finite = true;
    let mut jobs: Vec<(usize, usize)> = cells.iter().flat_map(|&i| [(i, 0), (i, 1), (i, 2)]).collect();
    c.rng.shuffle(&mut jobs);
    let mut got: std::collections::BTreeMap<usize, (f64, Vec<f64>, DMatrix<f64>)> =
        cells.iter().map(|&i| (i, (f64::NAN, vec![], DMatrix::zeros(0, 0)))).collect();
    // skip states outside the domain of the operator (an inverted element has no finite response)
    for &i in &cells {
        let rule = rules.of(i);
        let ul = m0.local(i, s, &u);
        for (q, at) in m0.at(i, rule).iter().enumerate() {
            let g = om::<D, S>(&ugrad(at, &ul, s));
            let e = op.compute_energy(&g, &rule.data[q]);
            let p = op.compute_elliptic_operator(&g, &rule.data[q]);
            finite &= e.is_finite() && p.iter().all(|x| x.is_finite());
        }
    }
    if !finite {
        c.count("states_outside_domain", 1);
        return;
    }
    for (i, what) in jobs {
        let slot = got.get_mut(&i).unwrap();
        match what {
            0 => match asm.assemble_element_scalar(i) {
                Ok(e) => slot.0 = e,
                Err(e) => return c.fail("scalar_error", format!("{e}")),
            },
            1 => {
                let mut out = DVector::repeat(s * n, f64::NAN);
                if let Err(e) = asm.assemble_element_vector_into(i, (&mut out).into()) {
                    return c.fail("vector_error", format!("{e}"));
                }
                slot.1 = out.iter().copied().collect();
            }
            _ => {
                // inside a larger matrix: nothing around the view may change
                let pad = c.rng.below(3);
                let mut big = DMatrix::repeat(s * n + 2 * pad, s * n + 2 * pad, 77.25);
                if let Err(e) = asm.assemble_element_matrix_into(i, big.view_mut((pad, pad), (s * n, s * n))) {
                    return c.fail("matrix_error", format!("{e}"));
                }
                slot.2 = big.view((pad, pad), (s * n, s * n)).into_owned();
                big.view_mut((pad, pad), (s * n, s * n)).fill(77.25);
                c.check(big.iter().all(|x| *x == 77.25), "wrote_outside", String::new);
            }
        }
    }
    let xmax = |i: usize| m0.km.c[i].iter().flat_map(|&k| m0.km.v[k].iter()).fold(0.0f64, |a, b| a.max(b.abs()));
    for &i in &cells {
        let rule = rules.of(i);
        let ul = m0.local(i, s, &u);
        let vl = m0.local(i, s, &v);
        let (mut e0, mut es) = (0.0, 0.0);
        let mut r = vec![0.0; s * n];
        let mut rs = 0.0f64;
        let mut k = DMatrix::<f64>::zeros(s * n, s * n);
        let mut ks = 0.0f64;
        for (q, at) in m0.at(i, rule).iter().enumerate() {
            let g = om::<D, S>(&ugrad(at, &ul, s));
            let sc = at.w * at.det;
            let e = op.compute_energy(&g, &rule.data[q]);
            e0 += sc * e;
            let gn = at.grad.iter().map(|x| maxa(x)).fold(0.0, f64::max);
            // scale of the rounding error of the energy through that of the gradient
            let p = op.compute_elliptic_operator(&g, &rule.data[q]);
            let sc0 = sc;
            // cells that are tiny relative to their position know their own size only roughly
            let sc = sc * (1.0 + 1e-4 * gn * xmax(i));
            es += sc.abs() * (e.abs() + p.amax() * (gn * maxa(&ul)) * d as f64);
            let mut cmax = 0.0f64;
            let vs: Vec<OVector<f64, D>> = at.grad.iter().map(|x| OVector::<f64, D>::from_fn(|k, _| x[k])).collect();
            for a in 0..n {
                for i in 0..s {
                    r[s * a + i] += sc0 * (0..d).map(|k| at.grad[a][k] * p[(k, i)]).sum::<f64>();
                }
                for b in 0..n {
                    let m = op.contract(&g, &vs[a], &vs[b], &rule.data[q]);
                    cmax = cmax.max(m.amax());
                    for i in 0..s {
                        for j in 0..s {
                            k[(s * a + i, s * b + j)] += sc0 * m[(i, j)];
                        }
                    }
                }
            }
            rs += sc.abs() * (gn * p.amax() + cmax * maxa(&ul) * n as f64);
            ks += sc.abs() * cmax;
            // gradients that vanish in exact arithmetic are rounding errors in the library's order of operations
            es += sc.abs() * cmax * (maxa(&ul) * n as f64).powi(2) * 1e-9;
            // energies of small strains are differences of larger terms
            es += sc.abs() * cmax / (gn * gn) * g.amax() * 1e-3;
        }
        let (ge, gr, gk) = &got[&i];
        let what = || format!("{} element {i}, {} points, s={s}", m0.km.name, rule.w.len());
        c.close(*ge, e0, 1e-11 * es, "energy", what);
        c.close_slices(gr, &r, 1e-12 * rs, "residual", what);
        c.close_slices(gk.as_slice(), k.as_slice(), 1e-11 * ks, "stiffness", what);
        if op.symmetry() == Symmetry::Symmetric {
            c.check((0..s * n).all(|a| (0..a).all(|b| gk[(a, b)] == gk[(b, a)])), "not_symmetric", what);
        }
        // constants and rigid translations are not seen
        let t: Vec<f64> = (0..s).map(|_| c.rng.normal()).collect();
        for j in 0..s {
            let tot: f64 = (0..n).map(|a| gr[s * a + j]).sum();
            c.close(tot, 0.0, 1e-12 * rs * n as f64, "residual_translation", what);
        }
        let tv = DVector::from_fn(s * n, |a, _| t[a % s]);
        let kt = gk * &tv;
        c.close_slices(kt.as_slice(), &vec![0.0; s * n], 1e-11 * ks * (n * s) as f64 * 4.0, "stiffness_translation", what);
        // derivatives along v
        let vlen = maxa(&vl);
        let kv: Vec<f64> = (gk * DVector::from_column_slice(&vl)).iter().copied().collect();
        let h = if amp > 0.0 { 2e-3 } else { 1.0 };
        let shifted = |t: f64| DVector::from_iterator(u.len(), u.iter().zip(&v).map(|(a, b)| a + t * b));
        if amp > 0.0 {
            let mut es_ = vec![];
            let mut rs_: Vec<Vec<f64>> = vec![];
            for t in [-2.0, -1.0, 1.0, 2.0] {
                let uu = shifted(t * h);
                let a = ElementEllipticAssemblerBuilder::new()
                    .with_finite_element_space(m)
                    .with_operator(op)
                    .with_quadrature_table(&table)
                    .with_u(&uu)
                    .build();
                let mut out = DVector::repeat(s * n, f64::NAN);
                a.assemble_element_vector_into(i, (&mut out).into()).unwrap();
                rs_.push(out.iter().copied().collect());
                es_.push(a.assemble_element_scalar(i).unwrap());
            }
            let der = |f: &dyn Fn(usize) -> f64| (8.0 * (f(2) - f(1)) - (f(3) - f(0))) / (12.0 * h);
            let rv: f64 = gr.iter().zip(&vl).map(|(a, b)| a * b).sum();
            // truncation h^4, rounding eps/h; the scale is that of the difference quotients' ingredients
            // states close to inversion are steep: the quotient of second order tells how much
            let der2 = |f: &dyn Fn(usize) -> f64| (f(2) - f(1)) / (2.0 * h);
            let steep_e = (der(&|t| es_[t]) - der2(&|t| es_[t])).abs();
            let steep_r = (0..s * n).map(|a| (der(&|t| rs_[t][a]) - der2(&|t| rs_[t][a])).abs()).fold(0.0, f64::max);
            let etol = 1e-7 * (es + rs * vlen * n as f64 + ks * h * (vlen * n as f64).powi(2)) + 0.2 * steep_e;
            let rtol = 1e-7 * (rs + ks * vlen * n as f64) + 0.2 * steep_r;
            if kind == Kind::Energy {
                c.close(der(&|t| es_[t]), rv, etol, "energy_derivative", what);
            }
            let dr: Vec<f64> = (0..s * n).map(|a| der(&|t| rs_[t][a])).collect();
            c.close_slices(&dr, &kv, rtol, "residual_derivative", what);
            c.count("derivatives", 1);
        }
        c.count("elements", 1);
    }
    let (per, total) = mk(&uv);
    let sum: f64 = per.iter().sum();
    let scale: f64 = per.iter().map(|x| x.abs()).sum();
    if scale.is_finite() {
        c.close(total, sum, 1e-12 * scale, "total_energy", String::new);
        let par = par_assemble_scalar(&asm).unwrap();
        c.close(par, sum, 1e-12 * scale, "parallel_total_energy", String::new);
    }
    // results do not depend on what the thread assembled before
    let i = cells[0];
    let mut again = DMatrix::repeat(s * n, s * n, f64::NAN);
    asm.assemble_element_matrix_into(i, (&mut again).into()).unwrap();
    c.check(again == got[&i].2, "not_repeatable", || format!("element {i}"));
}

fn qpar(rng: &mut vlib::Rng) -> QPar {
    QPar { p: [rng.f(0.1, 3.0), rng.f(-1.0, 1.0), rng.f(-1.0, 1.0), if rng.chance(0.3) { rng.f(-2.0, 2.0) } else { 0.0 }], a: (0..9).map(|_| rng.normal()).collect() }
}
fn lame(rng: &mut vlib::Rng) -> LameParameters<f64> {
    LameParameters { mu: rng.logf(0.1, 100.0), lambda: rng.logf(0.1, 100.0) }
}

const KINDS: [&str; 11] = VOLUMETRIC;

fn check_operator(c: &mut Case) {
    let affine = c.rng.bool();
    let m0 = Mesh0::random(c, &KINDS, 12, 6, affine);
    let amp = *c.rng.pick(&[0.0, 0.01, 0.1, 0.3, 1.0]);
    let which = c.rng.below(6);
    c.key(which);
    c.desc(format!("{} x {}, operator {which}, amplitude {amp}", m0.cells(), m0.km.name));
    let rules = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), false, qpar);
    let unit = Rules { rules: rules.rules.iter().map(|r| Rule { p: r.p.clone(), w: r.w.clone(), data: vec![(); r.w.len()] }).collect(), map: rules.map.clone() };
    let symmetric = c.rng.bool();
    every_mesh!(m0.km, m, D => {
        match which {
            0 => judge::<_, D, U1, _>(c, &m0, &m, &LaplaceOperator, &unit, amp, Kind::Energy),
            1 => judge::<_, D, U1, _>(c, &m0, &m, &Quartic::<U1> { symmetric, _s: PhantomData }, &rules, amp, Kind::Energy),
            2 => judge::<_, D, U2, _>(c, &m0, &m, &Quartic::<U2> { symmetric, _s: PhantomData }, &rules, amp, Kind::Energy),
            3 => judge::<_, D, U3, _>(c, &m0, &m, &Quartic::<U3> { symmetric, _s: PhantomData }, &rules, amp, Kind::Energy),
            _ => judge::<_, D, U2, _>(c, &m0, &m, &Skewed, &rules, amp, Kind::NoEnergy),
        }
    });
}

fn check_material(c: &mut Case) {
    let affine = c.rng.bool();
    let m0 = Mesh0::random(c, &KINDS, 12, 6, affine);
    let amp = *c.rng.pick(&[0.0, 1e-3, 0.03, 0.1]);
    let which = c.rng.below(3);
    c.key(which);
    c.desc(format!("{} x {}, material {which}, amplitude {amp}", m0.cells(), m0.km.name));
    let stiff = if c.rng.chance(0.3) { c.rng.logf(1e-18, 1e18) } else { 1.0 };
    let rules = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), false, |rng| {
        let l = lame(rng);
        LameParameters { mu: stiff * l.mu, lambda: stiff * l.lambda }
    });
    every_mesh!(m0.km, m, D => {
        match which {
            0 => judge::<_, D, D, _>(c, &m0, &m, &MaterialEllipticOperator::new(&LinearElasticMaterial), &rules, amp, Kind::Energy),
            1 => judge::<_, D, D, _>(c, &m0, &m, &MaterialEllipticOperator::new(&StVKMaterial), &rules, amp, Kind::Energy),
            _ => judge::<_, D, D, _>(c, &m0, &m, &MaterialEllipticOperator::new(&NeoHookeanMaterial), &rules, amp, Kind::Energy),
        }
    });
}

/// collapsed elements have no gradients: an error, not numbers and not a panic
fn check_singular(c: &mut Case) {
    let mut m0 = Mesh0::random(c, &KINDS, 6, 3, true);
    let bad = c.rng.below(m0.cells());
    // all nodes of one element at one point (its neighbors may become singular, too)
    for &k in &m0.km.c[bad].clone() {
        m0.km.v[k].iter_mut().for_each(|x| *x = 0.0);
    }
    c.desc(format!("{} with element {bad} collapsed", m0.km.name));
    let rules: Rules<()> = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), true, |_| ());
    let kind_t = c.rng.below(3);
    every_mesh!(m0.km, m, D => {
        let table = rules.table::<D>(kind_t);
        let u = DVector::from_fn(m0.nodes(), |_, _| 1.0);
        let n = m0.sh.len();
        let r = c.catch(|| {
            let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&m).with_operator(&LaplaceOperator).with_quadrature_table(&table).with_u(&u).build();
            let mut out = DVector::repeat(n, 0.0);
            let mut mat = DMatrix::repeat(n, n, 0.0);
            (a.assemble_element_scalar(bad).is_err(), a.assemble_element_vector_into(bad, (&mut out).into()).is_err(), a.assemble_element_matrix_into(bad, (&mut mat).into()).is_err(),
             assemble_scalar(&a).is_err())
        });
        c.check(matches!(r, Ok((true, true, true, true))), "singular_not_reported", || format!("{r:?}"));
        // wrongly sized output is refused
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&m).with_operator(&LaplaceOperator).with_quadrature_table(&table).with_u(&u).build();
        let k = n + 1;
        let r = c.catch(|| { let mut out = DVector::repeat(k, 0.0); let _ = a.assemble_element_vector_into(0, (&mut out).into()); });
        c.check(r.is_err(), "size_not_refused", String::new);
        let r = c.catch(|| { let mut out = DMatrix::repeat(n, k, 0.0); let _ = a.assemble_element_matrix_into(0, (&mut out).into()); });
        c.check(r.is_err(), "size_not_refused", String::new);
        c.count("collapsed_elements", 1);
    });
}

pub fn l01(r: &mut Run) {
    r.section("operators", "Laplace, vector-valued nonlinear energies with per-point parameters (declared symmetric or not) and a non-symmetric operator on random meshes of 11 element kinds, random rules (also negative weights) through all three table types: energy, residual and stiffness against independent element arithmetic, difference quotients, translations.", 6000, 60000, check_operator);
    r.section("materials", "The three hyperelastic materials with random Lame parameters per quadrature point through the material operator, same oracles; states without finite energy are counted and skipped.", 6000, 60000, check_material);
    r.section("singular", "Meshes with one element collapsed to a point report an error; outputs of the wrong size are refused.", 500, 5000, check_singular);
    r.require("elements", 5000);
    r.require("derivatives", 3000);
    r.require("mirrored_meshes", 100);
    r.require("collapsed_elements", 100);
    r.assumption("Element geometry is that of the corner nodes (judged by E02); operators are evaluated through the library's own point functions (judged by H01 and by hand-written derivatives here).");
}

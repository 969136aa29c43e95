use crate::common::*;
use crate::every_mesh;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::{CsrAssembler, VectorAssembler};
use fenris::assembly::local::*;
use fenris::assembly::operators::Operator;
use fenris::nalgebra::*;
use fenris::space::{ElementInSpace, VolumetricFiniteElementSpace};
use fenris::SmallDim;
use fenris_solid::GravitySource;
use std::marker::PhantomData;
use std::sync::Mutex;
use vfem::oracle::*;
use vfem::view::*;
use vlib::{Case, Run};

fn density(rng: &mut vlib::Rng) -> Density<f64> {
    Density(rng.logf(0.1, 10.0))
}

/// u^T M v of the element by quadrature, independent of the library
fn mass_reference(m0: &Mesh0, i: usize, rule: &Rule<Density<f64>>, s: usize) -> (DMatrix<f64>, f64) {
    let n = m0.sh.len();
    let mut m = DMatrix::zeros(s * n, s * n);
    let mut scale = 0.0;
    for (q, at) in m0.at(i, rule).iter().enumerate() {
        let k = at.w * at.det * rule.data[q].0;
        scale += k.abs() * at.phi.iter().fold(0.0, |a: f64, x| a.max(x * x));
        for a in 0..n {
            for b in 0..n {
                for j in 0..s {
                    m[(s * a + j, s * b + j)] += k * at.phi[a] * at.phi[b];
                }
            }
        }
    }
    (m, scale)
}

fn judge_mass<M, D>(c: &mut Case, m0: &Mesh0, m: &M, s: usize, rules: &Rules<Density<f64>>, positive: bool, exact: bool)
where
    M: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let n = m0.sh.len();
    let kind_t = c.rng.below(3);
    let table = rules.table::<D>(kind_t);
    let asm = ElementMassAssembler::with_solution_dim(s).with_space(m).with_quadrature_table(&table);
    c.check(asm.solution_dim() == s && asm.num_elements() == m0.cells() && asm.num_nodes() == m0.nodes(), "connectivity", String::new);
    let mut cells = c.rng.perm(m0.cells());
    cells.truncate(8);
    for &i in &cells {
        let rule = rules.of(i);
        let pad = c.rng.below(3);
        let mut big = DMatrix::repeat(s * n + 2 * pad, s * n + 2 * pad, 77.25);
        if let Err(e) = asm.assemble_element_matrix_into(i, big.view_mut((pad, pad), (s * n, s * n))) {
            return c.fail("error", format!("{e}"));
        }
        let got = big.view((pad, pad), (s * n, s * n)).into_owned();
        big.view_mut((pad, pad), (s * n, s * n)).fill(77.25);
        c.check(big.iter().all(|x| *x == 77.25), "wrote_outside", String::new);
        let what = || format!("{} element {i}, {} points, s={s}", m0.km.name, rule.w.len());
        let (want, scale) = mass_reference(m0, i, rule, s);
        c.close_slices(got.as_slice(), want.as_slice(), 2e-12 * scale, "mass", what);
        c.check((0..s * n).all(|a| (0..a).all(|b| got[(a, b)] == got[(b, a)])), "not_symmetric", what);
        c.check((0..s * n).all(|a| (0..s * n).all(|b| a % s == b % s || got[(a, b)] == 0.0)), "components_mixed", what);
        // v'Mu is the weighted L2 product of the two discrete functions
        let u: Vec<f64> = (0..s * n).map(|_| c.rng.normal()).collect();
        let v: Vec<f64> = (0..s * n).map(|_| c.rng.normal()).collect();
        let prod: f64 = m0
            .at(i, rule)
            .iter()
            .zip(&rule.data)
            .map(|(at, d)| at.w * at.det * d.0 * uval(at, &u, s).iter().zip(uval(at, &v, s)).map(|(a, b)| a * b).sum::<f64>())
            .sum();
        let (uu, vv) = (DVector::from_column_slice(&u), DVector::from_column_slice(&v));
        c.close((&got * &uu).dot(&vv), prod, 1e-11 * scale * (n * n * s) as f64, "l2_product", what);
        if positive {
            let q = (&got * &uu).dot(&uu);
            c.check(q >= -1e-12 * scale * (n * n * s) as f64, "negative", || format!("{q:e} {}", what()));
        }
        // total mass of every component
        let total: f64 = m0.at(i, rule).iter().zip(&rule.data).map(|(at, d)| at.w * at.det * d.0).sum();
        for j in 0..s {
            let e = DVector::from_fn(s * n, |a, _| if a % s == j { 1.0 } else { 0.0 });
            c.close((&got * &e).dot(&e), total, 1e-11 * scale * (n * n) as f64, "total_mass", what);
        }
        // the standalone kernel agrees
        let el = ElementInSpace::from_space_and_element_index(m, i);
        let mut direct = DMatrix::repeat(s * n, s * n, f64::NAN);
        let mut buf = vec![f64::NAN; n];
        let pts: Vec<OPoint<f64, D>> = rule.p.iter().map(|x| pt(x)).collect();
        let r = assemble_element_mass_matrix(&mut direct, &el, &rule.w, &pts, Density::as_inner_slice(&rule.data), s, &mut buf);
        c.check(r.is_ok() && direct == got, "kernel", what);
        c.count("mass_matrices", 1);
    }
    // global: total mass
    if exact {
        let g = CsrAssembler::<f64>::default().assemble(&asm).unwrap();
        let ones = DVector::from_fn(s * m0.nodes(), |a, _| if a % s == 0 { 1.0 } else { 0.0 });
        let mut want = 0.0;
        for i in 0..m0.cells() {
            want += m0.at(i, rules.of(i)).iter().zip(&rules.of(i).data).map(|(a, d)| a.w * a.det * d.0).sum::<f64>();
        }
        let got = (&g * &ones).dot(&ones);
        c.close(got, want, 1e-11 * want.abs() * n as f64, "global_mass", String::new);
        c.count("global_masses", 1);
    }
    let k = s * n + 1;
    let r = c.catch(|| {
        let mut out = DMatrix::repeat(k, k, 0.0);
        let _ = asm.assemble_element_matrix_into(0, (&mut out).into());
    });
    c.check(r.is_err(), "size_not_refused", String::new);
}

fn check_mass(c: &mut Case) {
    let affine = c.rng.bool();
    let m0 = Mesh0::random(c, &VOLUMETRIC, 12, 6, affine);
    let s = c.rng.sized(1, 4, 12);
    let positive = c.rng.bool();
    let exact = c.rng.chance(0.3);
    c.key((s, positive));
    c.desc(format!("{} x {}, s={s}, positive {positive}", m0.cells(), m0.km.name));
    let heavy = if c.rng.chance(0.2) { c.rng.logf(1e-25, 1e25) } else { 1.0 };
    let density = |rng: &mut vlib::Rng| Density(heavy * density(rng).0);
    let rules = if exact {
        Rules::exact(&mut c.rng, &m0.sh.e, m0.cells(), 5, density)
    } else {
        Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), positive, density)
    };
    every_mesh!(m0.km, m, D => judge_mass::<_, D>(c, &m0, &m, s, &rules, positive || exact, exact));
}

fn check_density_views(c: &mut Case) {
    let n = c.rng.sized(0, 20, 3000);
    let x: Vec<f64> = (0..n).map(|_| c.rng.normal()).collect();
    c.keyf(&x);
    let d: Vec<Density<f64>> = x.iter().map(|x| Density(*x)).collect();
    c.check(Density::as_inner_slice(&d) == &x[..], "as_inner", || format!("{x:?}"));
    c.check(Density::from_inner_slice(&x) == &d[..], "from_inner", || format!("{x:?}"));
    let i: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let di: Vec<Density<u8>> = i.iter().map(|x| Density(*x)).collect();
    c.check(Density::as_inner_slice(&di) == &i[..] && Density::from_inner_slice(&i) == &di[..], "bytes", || format!("{i:?}"));
    c.count("views", 4);
}

pub fn l02(r: &mut Run) {
    r.section("mass", "Random meshes of 11 kinds (also mirrored), 1 to 4 components, random densities per point, random rules (also negative weights) through all table types: element mass matrices against independent element arithmetic, exact symmetry, component separation, L2 products, positivity, total mass, kernel and assembler, global mass.", 8000, 80000, check_mass);
    r.section("density_views", "Reinterpreting slices of densities and numbers.", 300, 3000, check_density_views);
    r.require("mass_matrices", 10000);
    r.require("global_masses", 500);
    r.require("mirrored_meshes", 100);
    r.assumption("Element geometry is that of the corner nodes (judged by E02).");
}

/// data of one quadrature point: f_i(x) = c_i + sum_k a_ik x_k + b (g.x)^2 delta_i0
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SData {
    id: usize,
    a: Vec<f64>,
}
impl SData {
    fn f(&self, x: &[f64], i: usize) -> f64 {
        let l: f64 = x.iter().enumerate().map(|(k, x)| self.a[4 * i + k] * x).sum();
        self.a[4 * i + 3] + l + if i == 0 { self.a[12] * l * l } else { 0.0 }
    }
}
struct Source<'a, S> {
    seen: &'a Mutex<Vec<(Vec<f64>, usize)>>,
    _s: PhantomData<S>,
}
impl<'a, D: SmallDim, S: SmallDim> Operator<f64, D> for Source<'a, S> {
    type SolutionDim = S;
    type Parameters = SData;
}
impl<'a, D: SmallDim, S: SmallDim> SourceFunction<f64, D> for Source<'a, S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn evaluate(&self, x: &OPoint<f64, D>, data: &SData) -> OVector<f64, S> {
        let y = v(x);
        let f = OVector::<f64, S>::from_fn(|i, _| data.f(&y, i));
        self.seen.lock().unwrap().push((y, data.id));
        f
    }
}

fn judge_source<M, D, S>(c: &mut Case, m0: &Mesh0, m: &M, rules: &Rules<SData>, linear: bool)
where
    M: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync,
    D: SmallDim,
    S: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, S, D>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let n = m0.sh.len();
    let s = S::dim();
    let kind_t = c.rng.below(3);
    let table = rules.table::<D>(kind_t);
    let seen = Mutex::new(vec![]);
    let src = Source::<S> { seen: &seen, _s: PhantomData };
    let asm = ElementSourceAssemblerBuilder::new().with_finite_element_space(m).with_source(&src).with_quadrature_table(&table).build::<f64>();
    c.check(asm.solution_dim() == s && asm.num_elements() == m0.cells() && asm.num_nodes() == m0.nodes(), "connectivity", String::new);
    let mut cells = c.rng.perm(m0.cells());
    cells.truncate(8);
    let pos = maxabs(&m0.km.v);
    for &i in &cells {
        let rule = rules.of(i);
        let what = || format!("{} element {i}, {} points, s={s}", m0.km.name, rule.w.len());
        seen.lock().unwrap().clear();
        let mut out = DVector::repeat(s * n, f64::NAN);
        if let Err(e) = asm.assemble_element_vector_into(i, (&mut out).into()) {
            return c.fail("error", format!("{e}"));
        }
        let ats = m0.at(i, rule);
        // the source saw every physical point once, in order, with that point's data
        {
            let s = seen.lock().unwrap();
            let ok = s.len() == ats.len()
                && s.iter().zip(&ats).zip(&rule.data).all(|(((x, id), at), d)| *id == d.id && x.iter().zip(&at.x).all(|(a, b)| (a - b).abs() <= 1e-13 * (pos + 1e-300) * 10.0));
            c.check(ok, "evaluations", || format!("{s:?} expected {:?} {}", ats.iter().map(|a| a.x.clone()).collect::<Vec<_>>(), what()));
            c.count("source_evaluations", s.len() as u64);
        }
        let mut want = vec![0.0; s * n];
        let mut scale = 0.0;
        for (at, d) in ats.iter().zip(&rule.data) {
            for j in 0..s {
                let f = d.f(&at.x, j);
                // size of f's ingredients
                let l: f64 = at.x.iter().enumerate().map(|(k, x)| (d.a[4 * j + k] * x).abs()).sum();
                let fs = d.a[4 * j + 3].abs() + l + if j == 0 { d.a[12].abs() * l * l } else { 0.0 };
                scale += (at.w * at.det).abs() * fs * maxa(&at.phi);
                for a in 0..n {
                    want[s * a + j] += at.w * at.det * f * at.phi[a];
                }
            }
        }
        c.close_slices(out.as_slice(), &want, 2e-12 * scale, "load", what);
        // partition of unity: the sum over nodes is the integral of the source
        for j in 0..s {
            let tot: f64 = (0..n).map(|a| out[s * a + j]).sum();
            let int: f64 = ats.iter().zip(&rule.data).map(|(at, d)| at.w * at.det * d.f(&at.x, j)).sum();
            c.close(tot, int, 1e-11 * scale * n as f64, "total_load", what);
        }
        if linear {
            // one linear source for all points: f = M w for its nodal values w
            let d = &rule.data[0];
            let rule1 = Rule { p: rule.p.clone(), w: rule.w.clone(), data: vec![Density(1.0); rule.w.len()] };
            let (mm, _) = mass_reference(m0, i, &rule1, s);
            let w = DVector::from_iterator(
                s * n,
                m0.km.c[i].iter().flat_map(|&k| (0..s).map(|j| d.f(&m0.km.v[k], j)).collect::<Vec<_>>()),
            );
            c.close_slices(out.as_slice(), (mm * w).as_slice(), 1e-11 * scale * n as f64 * 10.0, "mass_consistency", what);
            c.count("mass_consistencies", 1);
        }
        // the standalone kernel agrees
        let el = ElementInSpace::from_space_and_element_index(m, i);
        let pts: Vec<OPoint<f64, D>> = rule.p.iter().map(|x| pt(x)).collect();
        let mut direct = DVector::repeat(s * n, f64::NAN);
        let mut buf = vec![f64::NAN; n];
        assemble_element_source_vector((&mut direct).into(), &el, &src, &rule.w, &pts, &rule.data, &mut buf);
        c.check(direct == out, "kernel", what);
        // linear in the weights and source: gravity is density times acceleration
        let acc = OVector::<f64, D>::from_fn(|_, _| c.rng.normal());
        let g = GravitySource::from_acceleration(acc.clone());
        let rho: Vec<Density<f64>> = rule.w.iter().map(|_| density(&mut c.rng)).collect();
        let dd = D::dim();
        let mut grav = DVector::repeat(dd * n, f64::NAN);
        assemble_element_source_vector((&mut grav).into(), &el, &g, &rule.w, &pts, &rho, &mut buf);
        let mut gw = vec![0.0; dd * n];
        let mut gs = 0.0;
        for (at, r) in ats.iter().zip(&rho) {
            gs += (at.w * at.det * r.0).abs() * maxa(&at.phi) * acc.amax();
            for a in 0..n {
                for k in 0..dd {
                    gw[dd * a + k] += at.w * at.det * r.0 * acc[k] * at.phi[a];
                }
            }
        }
        c.close_slices(grav.as_slice(), &gw, 2e-12 * gs, "gravity", what);
        c.count("loads", 2);
    }
    // the assembled vector is the sum over the elements
    let r = VectorAssembler::<f64>::default().assemble_vector(&asm).unwrap();
    let mut want = vec![0.0; s * m0.nodes()];
    let mut scale = 0.0f64;
    for i in 0..m0.cells() {
        let mut out = DVector::repeat(s * n, f64::NAN);
        asm.assemble_element_vector_into(i, (&mut out).into()).unwrap();
        scale = scale.max(out.amax());
        for (a, &k) in m0.km.c[i].iter().enumerate() {
            for j in 0..s {
                want[s * k + j] += out[s * a + j];
            }
        }
    }
    c.close_slices(r.as_slice(), &want, 1e-12 * scale * 20.0, "assembled", String::new);
    let r = c.catch(|| {
        let mut out = DVector::repeat(s * n + 1, 0.0);
        let _ = asm.assemble_element_vector_into(0, (&mut out).into());
    });
    c.check(r.is_err(), "size_not_refused", String::new);
}

fn check_source(c: &mut Case) {
    let affine = c.rng.bool();
    let m0 = Mesh0::random(c, &VOLUMETRIC, 12, 6, affine);
    let s = c.rng.range(1, 3);
    let linear = c.rng.chance(0.4);
    c.key((s, linear));
    c.desc(format!("{} x {}, s={s}, linear {linear}", m0.cells(), m0.km.name));
    let mut id = 0;
    let shared: Vec<f64> = (0..13).map(|k| if k == 12 { 0.0 } else { c.rng.normal() }).collect();
    let rules = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), false, |rng| {
        id += 1;
        SData { id, a: if linear { shared.clone() } else { (0..13).map(|_| rng.normal()).collect() } }
    });
    every_mesh!(m0.km, m, D => match s {
        1 => judge_source::<_, D, U1>(c, &m0, &m, &rules, linear),
        2 => judge_source::<_, D, U2>(c, &m0, &m, &rules, linear),
        _ => judge_source::<_, D, U3>(c, &m0, &m, &rules, linear),
    });
}

pub fn l03(r: &mut Run) {
    r.section("source", "Random meshes of 11 kinds (also mirrored), 1 to 3 components, random rules through all table types: a recording source checks that every physical point is evaluated once with its own data; element loads against independent element arithmetic, total load, consistency with mass matrices for linear sources, gravity, kernel and assembler, assembled vector.", 8000, 80000, check_source);
    r.require("source_evaluations", 30000);
    r.require("mass_consistencies", 3000);
    r.require("mirrored_meshes", 100);
    r.assumption("Element geometry is that of the corner nodes (judged by E02).");
}

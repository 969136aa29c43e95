use crate::common::*;
use crate::every_mesh;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::buffers::*;
use fenris::assembly::global::assemble_scalar;
use fenris::assembly::local::*;
use fenris::error::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::nalgebra::*;
use fenris::space::*;
use fenris::SmallDim;
use std::cell::RefCell;
use vfem::oracle::*;
use vfem::view::*;
use vlib::{Case, Run};

/// a polynomial vector field u_i(x) of degree <= 2 with its gradient
#[derive(Clone, Debug)]
struct Field {
    s: usize,
    scale: f64,
    k: Vec<f64>,
}
impl Field {
    fn random(c: &mut Case, s: usize, scale: f64, degree: usize) -> Field {
        let k = (0..s * 10)
            .map(|j| match j % 10 {
                0 => c.rng.normal(),
                1..=3 if degree >= 1 => c.rng.normal(),
                4..=9 if degree >= 2 => c.rng.normal(),
                _ => 0.0,
            })
            .collect();
        Field { s, scale, k }
    }
    fn at(&self, x: &[f64], i: usize) -> f64 {
        let y = |d: usize| x.get(d).map_or(0.0, |x| x / self.scale);
        let k = &self.k[10 * i..];
        k[0] + (0..3).map(|d| k[1 + d] * y(d) + k[4 + d] * y(d) * y(d) + k[7 + d] * y(d) * y((d + 1) % 3)).sum::<f64>()
    }
    fn grad(&self, x: &[f64], i: usize, d: usize) -> f64 {
        let y = |d: usize| x.get(d).map_or(0.0, |x| x / self.scale);
        let k = &self.k[10 * i..];
        let p = (d + 2) % 3;
        (k[1 + d] + 2.0 * k[4 + d] * y(d) + k[7 + d] * y((d + 1) % 3) + k[7 + p] * y(p)) / self.scale
    }
}

fn judge<M, D, S>(c: &mut Case, m0: &Mesh0, m: &M, rules: &Rules<()>)
where
    M: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync,
    D: SmallDim,
    S: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, S, D> + BiDimAllocator<f64, S, S>,
{
    let (d, s, n) = (D::dim(), S::dim(), m0.sh.len());
    let kind_t = c.rng.below(3);
    let table = rules.table::<D>(kind_t);
    let pos = maxabs(&m0.km.v).max(1e-300);
    let f = Field::random(c, s, pos, 2);
    let mut uh: Vec<f64> = (0..s * m0.nodes()).map(|_| c.rng.normal()).collect();
    // functions that vanish somewhere or everywhere
    match c.rng.below(12) {
        0 => uh.fill(0.0),
        1 | 2 => {
            let p = c.rng.f(0.3, 0.95);
            uh.iter_mut().for_each(|x| if c.rng.chance(p) { *x = 0.0 });
        }
        3 => {
            let from = c.rng.below(uh.len().max(1));
            uh.iter_mut().skip(from).for_each(|x| *x = 0.0);
        }
        _ => {}
    }
    if uh.iter().any(|x| *x == 0.0) {
        c.count("vanishing_functions", 1);
    }
    let uhv = DVector::from_column_slice(&uh);
    let u = |x: &OPoint<f64, D>| OVector::<f64, S>::from_fn(|i, _| f.at(&v(x), i));
    let ug = |x: &OPoint<f64, D>| OMatrix::<f64, D, S>::from_fn(|k, i| f.grad(&v(x), i, k));
    let mut ws = IntegrationWorkspace::default();
    let mut buffer = InterpolationBuffer::default();
    let (mut l2, mut h1, mut val) = (0.0, 0.0, 0.0);
    let (mut l2s, mut h1s, mut vals) = (0.0, 0.0, 0.0);
    let mut direct = [0.0; 3];
    let cell = |at: &At, ul: &[f64]| -> (f64, f64, f64) {
        let uv = uval(at, ul, s);
        let g = ugrad(at, ul, s);
        let e: f64 = (0..s).map(|i| (uv[i] - f.at(&at.x, i)).powi(2)).sum();
        let h: f64 = (0..d).map(|k| (0..s).map(|i| (g[k][i] - f.grad(&at.x, i, k)).powi(2)).sum::<f64>()).sum();
        // value, position and gradient all enter
        let w: f64 = 1.0 + at.x[0] / pos + uv.iter().sum::<f64>() * (1.0 + at.x[0] / pos) + g.iter().flatten().map(|x| x * m0.size).sum::<f64>() * uv[0];
        (e, h, w)
    };
    for i in 0..m0.cells() {
        let rule = rules.of(i);
        let ats = m0.at(i, rule);
        let ul = m0.local(i, s, &uh);
        let ulv = DVector::from_column_slice(&ul);
        let el = ElementInSpace::from_space_and_element_index(m, i);
        let pts: Vec<OPoint<f64, D>> = rule.p.iter().map(|x| pt(x)).collect();
        let what = || format!("{} element {i}, {} points, s={s}", m0.km.name, rule.w.len());
        let (mut e, mut h, mut w) = (0.0, 0.0, 0.0);
        let (mut es, mut hs, mut wsc) = (0.0, 0.0, 0.0);
        for at in &ats {
            let (a, b, q) = cell(at, &ul);
            let k = at.w * at.det;
            e += k * a;
            h += k * b;
            w += k * q;
            let um = maxa(&ul) * n as f64 * maxa(&at.phi) + f.k.iter().map(|x| x.abs()).sum::<f64>();
            let gm = at.grad.iter().map(|g| maxa(g)).fold(0.0, f64::max) * maxa(&ul) * n as f64 + f.k.iter().map(|x| x.abs()).sum::<f64>() / pos;
            es += k.abs() * um * um * s as f64;
            hs += k.abs() * gm * gm * (s * d) as f64;
            wsc += k.abs() * (2.0 + um * s as f64 * (2.0 + gm * m0.size * d as f64));
        }
        // the element functions
        let got = estimate_element_L2_error_squared(&el, &u, (&ulv).into(), &rule.w, &pts, &mut ws);
        c.close(got, e, 1e-12 * es, "element_l2", what);
        let got_h = estimate_element_H1_seminorm_error_squared(&el, &ug, (&ulv).into(), &rule.w, &pts, &mut ws);
        c.close(got_h, h, 1e-11 * hs, "element_h1", what);
        if got >= 0.0 {
            let r = estimate_element_L2_error(&el, &u, (&ulv).into(), &rule.w, &pts, &mut ws);
            c.close(r * r, got, 1e-14 * got, "element_l2_root", what);
        }
        if got_h >= 0.0 {
            let r = estimate_element_H1_seminorm_error(&el, &ug, (&ulv).into(), &rule.w, &pts, &mut ws);
            c.close(r * r, got_h, 1e-14 * got_h, "element_h1_root", what);
        }
        // what integrands are given
        let seen: RefCell<Vec<(Vec<f64>, Vec<f64>, Vec<f64>)>> = RefCell::new(vec![]);
        let val_f = FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>, g: &OMatrix<f64, D, S>| {
            seen.borrow_mut().push((v(x), u.iter().copied().collect(), g.iter().copied().collect()));
            let w = 1.0 + x[0] / pos + u.sum() * (1.0 + x[0] / pos) + g.sum() * m0.size * u[0];
            Vector2::new(w, 1.0)
        });
        match integrate_over_volume_element(&val_f, &el, (&rule.w, &pts), &ulv, &mut ws) {
            Ok(r) => {
                c.close(r[0], w, 1e-11 * wsc, "volume_integral", what);
                let m: f64 = ats.iter().map(|a| a.w * a.det).sum();
                let ms: f64 = ats.iter().map(|a| (a.w * a.det).abs()).sum();
                c.close(r[1], m, 1e-12 * ms, "volume", what);
            }
            Err(e) => c.fail("volume_integral_error", format!("{e:?} {}", what())),
        }
        let seen = seen.into_inner();
        c.check(seen.len() == ats.len(), "evaluations", what);
        for (got, at) in seen.iter().zip(&ats) {
            let um = maxa(&ul) * n as f64 * maxa(&at.phi);
            let gm = at.grad.iter().map(|g| maxa(g)).fold(0.0, f64::max) * maxa(&ul) * n as f64;
            c.close_slices(&got.0, &at.x, 1e-13 * pos, "position_seen", what);
            c.close_slices(&got.1, &uval(at, &ul, s), 1e-13 * um, "value_seen", what);
            let g = ugrad(at, &ul, s);
            let flat: Vec<f64> = (0..s).flat_map(|i| (0..d).map(|k| g[k][i]).collect::<Vec<_>>()).collect();
            c.close_slices(&got.2, &flat, 1e-12 * gm, "gradient_seen", what);
            c.count("integrand_evaluations", 1);
        }
        // integrands that only use some of their arguments, on elements of any dimension
        let sum_u = FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>| Vector1::new(1.0 + u.sum() * (1.0 + x[0] / pos)));
        let a: Vector1<f64> = UIntegral::<S>::run(&sum_u, &el, &rule.w, &pts, &ulv, &mut ws);
        let au: f64 = ats.iter().map(|at| at.w * at.det * (1.0 + uval(at, &ul, s).iter().sum::<f64>() * (1.0 + at.x[0] / pos))).sum();
        c.close(a[0], au, 1e-12 * wsc, "u_integral", what);
        let dep = sum_u.with_dependencies::<DependsOnU>();
        if let Ok(b) = integrate_over_volume_element::<_, _, _, S>(&dep, &el, (&rule.w, &pts), &ulv, &mut ws) {
            c.close(b[0], au, 1e-12 * wsc, "depends_on_u", what);
        }
        let dep = FnFunction::new(|_: &OPoint<f64, D>, g: &OMatrix<f64, D, S>| Vector1::new(g.sum())).with_dependencies::<DependsOnGrad>();
        let ag: f64 = ats.iter().map(|at| at.w * at.det * ugrad(at, &ul, s).iter().flatten().sum::<f64>()).sum();
        match integrate_over_volume_element::<_, _, _, S>(&dep, &el, (&rule.w, &pts), &ulv, &mut ws) {
            Ok(b) => c.close(b[0], ag, 1e-11 * wsc / m0.size, "depends_on_grad", what),
            Err(e) => { c.fail("grad_integral_error", format!("{e:?}")); false }
        };
        // interpolation buffers
        let mut ib = buffer.prepare_element_in_space(i, m, &uhv, s);
        for (p, at) in pts.iter().zip(&ats) {
            let both = c.rng.below(3);
            if both == 2 {
                ib.update_reference_point(p, BufferUpdate::BasisValues);
                ib.update_reference_point(p, BufferUpdate::BasisGradients);
            } else {
                ib.update_reference_point(p, BufferUpdate::Both);
            }
            let um = maxa(&ul) * n as f64 * maxa(&at.phi);
            let val: OVector<f64, S> = ib.interpolate();
            c.close_slices(val.as_slice(), &uval(at, &ul, s), 1e-13 * um, "buffer_value", what);
            c.close_slices(ib.basis_values(), &at.phi, 1e-13 * (1.0 + maxa(&at.phi)), "buffer_basis", what);
            c.close_slices(&v(&ib.map_reference_coords()), &at.x, 1e-13 * pos, "buffer_position", what);
            let rg: OMatrix<f64, D, S> = ib.interpolate_ref_gradient();
            let j = ib.element_reference_jacobian();
            // J^T grad = ref grad
            let g = om::<D, S>(&ugrad(at, &ul, s));
            let gm = g.amax().max(at.grad.iter().map(|g| maxa(g)).fold(0.0, f64::max) * maxa(&ul));
            let want = j.transpose() * g;
            c.close_slices(rg.as_slice(), want.as_slice(), 1e-12 * gm * j.amax() * (n * d) as f64, "buffer_ref_gradient", what);
            c.count("buffer_interpolations", 1);
        }
        l2 += e;
        h1 += h;
        val += w;
        l2s += es;
        h1s += hs;
        vals += wsc;
        direct[0] += got;
        direct[1] += got_h;
        c.count("elements", 1);
    }
    // whole mesh
    let got = estimate_L2_error_squared::<f64, S, _, _>(m, &u, &uhv, &table).unwrap();
    c.close(got, l2, 1e-12 * l2s, "l2_squared", String::new);
    let got_h = estimate_H1_seminorm_error_squared::<f64, S, _, _>(m, &ug, &uhv, &table).unwrap();
    c.close(got_h, h1, 1e-11 * h1s, "h1_squared", String::new);
    c.close(got, direct[0], 1e-12 * l2s, "l2_additive", String::new);
    c.close(got_h, direct[1], 1e-12 * h1s, "h1_additive", String::new);
    if got >= 0.0 {
        let r = estimate_L2_error::<f64, S, _, _>(m, &u, &uhv, &table).unwrap();
        c.close(r * r, got, 1e-14 * got, "l2_root", String::new);
    }
    if got_h >= 0.0 {
        let r = estimate_H1_seminorm_error::<f64, S, _, _>(m, &ug, &uhv, &table).unwrap();
        c.close(r * r, got_h, 1e-14 * got_h, "h1_root", String::new);
    }
    let asm = ElementIntegralAssemblerBuilder::<f64, _, S, _, _>::new()
        .with_space(m)
        .with_quadrature_table(&table)
        .with_interpolation_weights(&uhv)
        .with_integrand(FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>, g: &OMatrix<f64, D, S>| {
            Vector1::new(1.0 + x[0] / pos + u.sum() * (1.0 + x[0] / pos) + g.sum() * m0.size * u[0])
        }))
        .build_volume_integrator();
    c.close(assemble_scalar(&asm).unwrap(), val, 1e-11 * vals, "mesh_volume_integral", String::new);
    // wrong number of weights is refused
    let short = DVector::<f64>::zeros(s * m0.nodes() + 1);
    let r = c.catch(|| estimate_L2_error_squared::<f64, S, _, _>(m, &u, &short, &table).is_ok());
    c.check(r.is_err(), "wrong_weights_accepted", || format!("{r:?}"));
}

/// helper fixing the solution dimension of an integrand
struct UIntegral<S>(std::marker::PhantomData<S>);
impl<S: SmallDim> UIntegral<S> {
    fn run<F, E>(f: &F, el: &E, w: &[f64], p: &[OPoint<f64, E::ReferenceDim>], u: &DVector<f64>, ws: &mut IntegrationWorkspace<f64>) -> OVector<f64, F::OutputDim>
    where
        E: fenris::element::FiniteElement<f64>,
        F: UFunction<f64, E::GeometryDim, S>,
        DefaultAllocator: fenris::allocators::TriDimAllocator<f64, E::GeometryDim, E::ReferenceDim, S>
            + fenris::allocators::DimAllocator<f64, F::OutputDim>,
    {
        integrate_over_element(f, el, (w, p), u, ws)
    }
}

fn check_norms(c: &mut Case) {
    let affine = c.rng.bool();
    let m0 = Mesh0::random(c, &VOLUMETRIC, 10, 5, affine);
    let s = c.rng.range(1, 3);
    c.key(s);
    c.desc(format!("{} x {}, s={s}", m0.cells(), m0.km.name));
    let rules = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), false, |_| ());
    every_mesh!(m0.km, m, D => match s {
        1 => judge::<_, D, U1>(c, &m0, &m, &rules),
        2 => judge::<_, D, U2>(c, &m0, &m, &rules),
        _ => judge::<_, D, U3>(c, &m0, &m, &rules),
    });
}

/// exact integrals: interpolated polynomials, the library's own rules
fn check_exact(c: &mut Case) {
    let m0 = Mesh0::random(c, &VOLUMETRIC, 16, 8, true);
    let quadratic = matches!(m0.km.name, "tri6" | "quad9" | "tet10" | "tet20" | "hex20" | "hex27");
    let pos = maxabs(&m0.km.v).max(1e-300);
    let degree = if quadratic { 2 } else { 1 };
    let f = Field::random(c, 2, pos, degree);
    let g = Field::random(c, 2, pos, degree);
    c.desc(format!("{} x {} with polynomials of degree {degree}", m0.cells(), m0.km.name));
    // the error of the interpolant of g against f is the norm of f - g, by a far finer rule
    let fine = Dom::of(&m0.sh.e).rule(5);
    let (mut l2, mut h1, mut vol_) = (0.0, 0.0, 0.0);
    let d = m0.sh.e.rd;
    for i in 0..m0.cells() {
        let r = Rule { p: fine.1.clone(), w: fine.0.clone(), data: vec![(); fine.0.len()] };
        for at in m0.at(i, &r) {
            let k = at.w * at.det;
            vol_ += k;
            for j in 0..2 {
                l2 += k * (f.at(&at.x, j) - g.at(&at.x, j)).powi(2);
                for q in 0..d {
                    h1 += k * (f.grad(&at.x, j, q) - g.grad(&at.x, j, q)).powi(2);
                }
            }
        }
    }
    let uh = DVector::from_iterator(2 * m0.nodes(), m0.km.v.iter().flat_map(|x| [g.at(x, 0), g.at(x, 1)]));
    // rules of the library exact for degree 4
    let rule = {
        use fenris::quadrature::*;
        fn fl<D: DimName>(q: QuadraturePair<f64, D>) -> (Vec<f64>, Vec<Vec<f64>>)
        where
            DefaultAllocator: allocator::Allocator<f64, D>,
        {
            (q.0, q.1.iter().map(v).collect())
        }
        match Dom::of(&m0.sh.e) {
            Dom::Seg => fl(univariate::gauss::<f64>(3)),
            Dom::Tri => fl(total_order::triangle::<f64>(4).unwrap()),
            Dom::Quad => fl(tensor::quadrilateral_gauss::<f64>(3)),
            Dom::Tet => fl(total_order::tetrahedron::<f64>(4).unwrap()),
            _ => fl(tensor::hexahedron_gauss::<f64>(3)),
        }
    };
    let scale: f64 = f.k.iter().chain(&g.k).map(|x| x.abs()).sum::<f64>().powi(2) * vol_;
    every_mesh!(m0.km, m, D => {
        let pts: Vec<OPoint<f64, D>> = rule.1.iter().map(|x| pt(x)).collect();
        let table = UniformQuadratureTable::from_points_and_weights(pts, rule.0.clone());
        let fu = |x: &OPoint<f64, D>| Vector2::new(f.at(&v(x), 0), f.at(&v(x), 1));
        let fg = |x: &OPoint<f64, D>| OMatrix::<f64, D, U2>::from_fn(|k, i| f.grad(&v(x), i, k));
        let gu = |x: &OPoint<f64, D>| Vector2::new(g.at(&v(x), 0), g.at(&v(x), 1));
        let a = estimate_L2_error_squared::<f64, U2, _, _>(&m, &fu, &uh, &table).unwrap();
        c.close(a, l2, 1e-11 * scale, "l2_exact", String::new);
        let b = estimate_H1_seminorm_error_squared::<f64, U2, _, _>(&m, &fg, &uh, &table).unwrap();
        // gradients lose the digits of positions relative to cell sizes
        let hs = scale / (m0.size * m0.size);
        c.close(b, h1, 1e-11 * hs, "h1_exact", String::new);
        let z = estimate_L2_error_squared::<f64, U2, _, _>(&m, &gu, &uh, &table).unwrap();
        c.close(z, 0.0, 1e-24 * scale, "own_error", String::new);
        // norms scale with the function
        let t = c.rng.logf(1e-3, 1e3) * if c.rng.bool() { -1.0 } else { 1.0 };
        let tu = |x: &OPoint<f64, D>| fu(x) * t;
        let th = &uh * t;
        let ta = estimate_L2_error::<f64, U2, _, _>(&m, &tu, &th, &table).unwrap();
        let a1 = estimate_L2_error::<f64, U2, _, _>(&m, &fu, &uh, &table).unwrap();
        c.close(ta, a1 * t.abs(), 1e-12 * t.abs() * scale.sqrt(), "norm_scaling", String::new);
        c.count("exact_norms", 2);
    });
}

/// discrete functions as solution functions, through the spatial lookup
fn check_interpolated(c: &mut Case) {
    const KINDS: [&str; 2] = ["tri3", "tet4"];
    let mut m0 = Mesh0::random(c, &KINDS, 12, 6, true);
    // the lookup needs no mirrored cells
    if m0.km.corners(&m0.sh.e, 0).len() > 0 && vfem::oracle::det(&m0.sh.e.jac(&m0.km.corners(&m0.sh.e, 0), &vec![-0.3; m0.sh.e.rd])) < 0.0 {
        for x in m0.km.v.iter_mut() {
            x[0] = -x[0];
        }
    }
    c.desc(format!("{} x {}", m0.cells(), m0.km.name));
    let uh = DVector::from_fn(2 * m0.nodes(), |_, _| c.rng.normal());
    let n = c.rng.range(2, 4);
    let (w, p) = Dom::of(&m0.sh.e).rule(n); // interior points
    macro_rules! arm {
        ($conn:ident, $d:ty) => {{
            let verts: Vec<_> = m0.km.v.iter().map(|p| pt::<$d>(p)).collect();
            let conn: Vec<fenris::connectivity::$conn> = m0.km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
            let m = fenris::mesh::Mesh::from_vertices_and_connectivity(verts, conn);
            let ix = SpatiallyIndexed::from_space(m);
            let table = UniformQuadratureTable::from_points_and_weights(p.iter().map(|x| pt::<$d>(x)).collect(), w.clone());
            let f = SpaceInterpolationFn(&ix, uh.as_view());
            let z = estimate_L2_error::<f64, U2, _, _>(&ix, &f, &uh, &table).unwrap();
            let measure: f64 = (0..m0.cells()).map(|i| m0.at(i, &Rule { p: p.clone(), w: w.clone(), data: vec![(); w.len()] }).iter().map(|a| a.w * a.det).sum::<f64>()).sum();
            c.close(z, 0.0, 1e-6 * measure.sqrt(), "self_l2", String::new);
            let zero = DVector::<f64>::zeros(uh.len());
            let norm = estimate_L2_error::<f64, U2, _, _>(&ix, &f, &zero, &table).unwrap();
            let direct = estimate_L2_error::<f64, U2, _, _>(&ix, &|_: &OPoint<f64, $d>| Vector2::zeros(), &uh, &table).unwrap();
            c.close(norm, direct, 1e-6 * measure.sqrt(), "norm_of_difference", String::new);
            let zh = estimate_H1_seminorm_error::<f64, U2, _, _>(&ix, &f, &uh, &table).unwrap();
            let nh = estimate_H1_seminorm_error::<f64, U2, _, _>(&ix, &|_: &OPoint<f64, $d>| OMatrix::<f64, $d, U2>::zeros(), &uh, &table).unwrap();
            c.close(zh, 0.0, 1e-6 * nh + 1e-9, "self_h1", String::new);
            c.count("self_errors", 2);
        }};
    }
    match m0.km.name {
        "tri3" => arm!(Tri3d2Connectivity, U2),
        _ => arm!(Tet4Connectivity, U3),
    }
}

pub fn l05(r: &mut Run) {
    r.section("norms", "Random meshes of 11 kinds (also mirrored), 1 to 3 components, random rules (also negative weights) through all table types: squared errors, seminorms and integrals of recording integrands per element and over the mesh against independent element arithmetic; values, gradients and positions given to integrands; interpolation buffers.", 4000, 40000, check_norms);
    r.section("exact", "Affine meshes and polynomials in the space with the library's rules: errors equal the exact norm of the difference, are zero against the function itself and scale with it.", 3000, 30000, check_exact);
    r.section("interpolated", "Errors between a discrete function and itself seen through point location are zero, norms agree.", 400, 4000, check_interpolated);
    r.require("integrand_evaluations", 20000);
    r.require("buffer_interpolations", 20000);
    r.require("exact_norms", 2000);
    r.require("self_errors", 200);
    r.require("vanishing_functions", 200);
    r.require("mirrored_meshes", 100);
    r.assumption("Element geometry is that of the corner nodes (judged by E02).");
}

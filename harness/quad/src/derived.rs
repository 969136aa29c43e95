use crate::rules::{apply, flat_pair, Flat, Ridge};
use fenris::assembly::global::{assemble_scalar, par_assemble_scalar};
use fenris::assembly::local::{ElementScalarAssembler, QuadratureTable, UniformQuadratureTable};
use fenris::integrate::dependency::NoDeps;
use fenris::integrate::*;
use fenris::nalgebra::*;
use fenris::quadrature::subdivide::*;
use fenris::quadrature::*;
use fenris::space::ElementInSpace;
use vfem::oracle::*;
use vfem::view::*;
use vfem::*;
use vlib::{Case, Run};

fn random_rule(c: &mut Case, dom: Dom) -> (Flat, usize) {
    // an exact base rule (with its degree)
    if dom == Dom::Seg {
        let n = c.rng.range(1, 7);
        if n >= 2 && c.rng.chance(0.3) {
            (flat_pair(&univariate::try_gauss_lobatto::<f64>(n).unwrap()), 2 * n - 3)
        } else {
            (flat_pair(&univariate::gauss::<f64>(n)), 2 * n - 1)
        }
    } else {
        let s = c.rng.range(1, 12);
        (flat_pair(&total_order::triangle::<f64>(s).unwrap()), s)
    }
}

fn check_subdivide_univariate(c: &mut Case) {
    let (base, degree) = random_rule(c, Dom::Seg);
    let pieces = c.rng.sized(1, 40, 400);
    c.key((base.0.len(), degree, pieces));
    c.desc(format!("{} point rule of degree {degree} in {pieces} pieces", base.0.len()));
    let pair = (base.0.clone(), base.1.iter().map(|p| Point1::new(p[0])).collect::<Vec<_>>());
    let r = flat_pair(&if c.rng.bool() { subdivide_univariate(&pair, pieces) } else { subdivide_univariate(pair.clone(), pieces) });
    c.check(r.0.len() == r.1.len(), "lengths", || format!("{} weights, {} points", r.0.len(), r.1.len()));
    c.check(r.0.len() == pieces * base.0.len(), "size", || format!("{} points", r.0.len()));
    c.close(r.0.iter().sum(), 2.0, 2e-12, "weight_sum", String::new);
    for p in &r.1 {
        c.check(Dom::Seg.outside(p) <= 4e-15, "point_outside", || format!("{p:?}"));
    }
    let k = c.rng.range(0, degree);
    let f = Ridge::random(&mut c.rng, 1, k);
    c.close(apply(&r, |x| f.at(x)), apply(&Dom::Seg.rule(12), |x| f.at(x)), 2e-12, "polynomial", || format!("degree {k}"));
    // the rule is exact in every piece: interior points are grouped by piece, shared end points are split evenly
    let h = 2.0 / pieces as f64;
    let mut sums = vec![[0.0; 2]; pieces];
    for (w, p) in r.0.iter().zip(&r.1) {
        let t = (p[0] + 1.0) / h;
        let near = t.round();
        let parts: Vec<usize> = if (t - near).abs() < 1e-9 {
            // both neighbours contribute an equal end point weight
            [near as i64 - 1, near as i64].iter().filter(|&&i| i >= 0 && i < pieces as i64).map(|&i| i as usize).collect()
        } else {
            vec![(t.floor() as usize).min(pieces - 1)]
        };
        for &i in &parts {
            let share = if parts.len() == 2 { 0.5 } else { 1.0 };
            sums[i][0] += share * w;
            sums[i][1] += share * w * p[0];
        }
    }
    for (i, s) in sums.iter().enumerate() {
        let mid = -1.0 + h * (i as f64 + 0.5);
        c.close(s[0], h, 2e-12, "piece_measure", || format!("piece {i}"));
        if degree >= 1 {
            c.close(s[1], h * mid, 2e-12, "piece_moment", || format!("piece {i}"));
        }
    }
    c.count("pieces", pieces as u64);
}

fn check_subdivide_triangle(c: &mut Case) {
    let (base, degree) = random_rule(c, Dom::Tri);
    let n = c.rng.range(1, 9);
    c.key((base.0.len(), degree, n));
    c.desc(format!("{} point rule of degree {degree}, {n} subdivisions", base.0.len()));
    let pair = (base.0.clone(), base.1.iter().map(|p| Point2::new(p[0], p[1])).collect::<Vec<_>>());
    if c.rng.chance(0.1) {
        let r = c.catch(|| subdivide_triangle(&pair, 0));
        c.check(r.is_err(), "zero_accepted", || format!("{r:?}"));
    }
    let r = flat_pair(&subdivide_triangle(&pair, n));
    c.check(r.0.len() == r.1.len(), "lengths", || format!("{} weights, {} points", r.0.len(), r.1.len()));
    c.check(r.0.len() == n * n * base.0.len(), "size", || format!("{} points", r.0.len()));
    c.close(r.0.iter().sum(), 2.0, 2e-12, "weight_sum", String::new);
    let reference = Dom::Tri.rule(10);
    let f = {
        let k = c.rng.range(0, degree);
        Ridge::random(&mut c.rng, 2, k)
    };
    c.close(apply(&r, |x| f.at(x)), apply(&reference, |x| f.at(x)), 2e-12, "polynomial", || format!("degree {}", f.k));
    // exact in every small triangle of the regular grid
    let h = 2.0 / n as f64;
    let mut sums = vec![[0.0; 2]; 2 * n * n];
    for (w, p) in r.0.iter().zip(&r.1) {
        let o = Dom::Tri.outside(p);
        c.check(o <= 4e-15, "point_outside", || format!("{p:?}"));
        let (i, j) = (((p[0] + 1.0) / h).floor().clamp(0.0, n as f64 - 1.0), ((p[1] + 1.0) / h).floor().clamp(0.0, n as f64 - 1.0));
        let (s, t) = ((p[0] + 1.0) / h - i, (p[1] + 1.0) / h - j);
        let k = 2 * (i as usize * n + j as usize) + if s + t > 1.0 { 1 } else { 0 };
        sums[k][0] += w;
        sums[k][1] += w * f.at(p);
    }
    for i in 0..n {
        for j in 0..n - i {
            for up in 0..2 {
                if up == 1 && i + j + 1 >= n {
                    continue;
                }
                let o = [-1.0 + h * i as f64, -1.0 + h * j as f64];
                let map = |x: &[f64]| {
                    let (s, t) = ((x[0] + 1.0) / 2.0, (x[1] + 1.0) / 2.0);
                    if up == 0 {
                        [o[0] + h * s, o[1] + h * t]
                    } else {
                        [o[0] + h * (1.0 - s), o[1] + h * (1.0 - t)]
                    }
                };
                let want: f64 = apply(&reference, |x| f.at(&map(x)) * h * h / 4.0);
                let k = 2 * (i * n + j) + up;
                c.close(sums[k][0], h * h / 2.0, 2e-12, "piece_measure", || format!("cell {i} {j} {up}"));
                c.close(sums[k][1], want, 2e-12, "piece_polynomial", || format!("cell {i} {j} {up} degree {}", f.k));
                c.count("pieces", 1);
            }
        }
    }
}

fn table_rule<D: fenris::SmallDim, Q: QuadratureTable<f64, D>>(q: &Q, i: usize) -> Flat
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let n = q.element_quadrature_size(i);
    let mut p = vec![OPoint::<f64, D>::origin(); n];
    let mut w = vec![f64::NAN; n];
    q.populate_element_quadrature(i, &mut p, &mut w);
    (w, p.iter().map(v).collect())
}

/// the canonical rules integrate products of basis functions and of their gradients
fn judge_canonical(c: &mut Case, sh: &Shape, corners: &[Vec<f64>], rule: &Flat, stiffness: bool, who: &str) {
    let e = &sh.e;
    let dom = Dom::of(e);
    let what = format!("{} {} ({who})", e.name, if stiffness { "stiffness" } else { "mass" });
    if !c.check(rule.0.len() == rule.1.len(), "lengths", || what.clone()) {
        return;
    }
    for p in &rule.1 {
        let o = dom.outside(p);
        c.check(o <= 1e-14, "point_outside", || format!("{what}: {p:?}"));
    }
    c.close(rule.0.iter().sum(), dom.measure(), 1e-12, "weight_sum", || what.clone());
    let n = sh.len();
    let matrix = |r: &Flat| -> Vec<f64> {
        let mut m = vec![0.0; n * n];
        for (w, p) in r.0.iter().zip(&r.1) {
            if stiffness {
                let (g, v) = sh.phys_grads(corners, p);
                for i in 0..n {
                    for j in 0..n {
                        m[i * n + j] += w * v * g[i].iter().zip(&g[j]).map(|(a, b)| a * b).sum::<f64>();
                    }
                }
            } else {
                let b = sh.basis(p);
                let v = vol(&e.jac(corners, p));
                for i in 0..n {
                    for j in 0..n {
                        m[i * n + j] += w * v * b[i] * b[j];
                    }
                }
            }
        }
        m
    };
    let want = matrix(&dom.rule(7));
    let got = matrix(rule);
    let scale = want.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
    c.close_slices(&got, &want, 1e-11 * scale, "not_exact", || what.clone());
    c.count("canonical_integrals", (n * n) as u64);
}

fn check_canonical(c: &mut Case) {
    let name = *c.rng.pick(&VOLUMETRIC[1..]);
    let sh = Shape::new(name);
    let affine = !matches!(name, "quad4" | "quad9") || c.rng.bool();
    let km = kmesh(&mut c.rng, name, if name.starts_with("hex") { 4 } else { 10 }, true);
    let corners = if affine {
        km.corners(&sh.e, c.rng.below(km.c.len()))
    } else {
        corners(&mut c.rng, &sh.e, false, 1.0, 1.0)
    };
    let nodes = sh.e.node_positions(&corners);
    c.key(name);
    c.keyf(&corners.concat());
    c.desc(format!("canonical rules of {name}, affine {affine}"));
    macro_rules! elem {
        ($e:ident, $p:ident, $d:ty, $n:literal) => {{
            let p: [$p<f64>; $n] = std::array::from_fn(|i| pt::<$d>(&nodes[i]));
            let e = fenris::element::$e::from_vertices(p);
            (flat_pair(&e.canonical_mass_quadrature()), flat_pair(&e.canonical_stiffness_quadrature()))
        }};
    }
    let (em, es) = match name {
        "tri3" => elem!(Tri3d2Element, Point2, U2, 3),
        "tri6" => elem!(Tri6d2Element, Point2, U2, 6),
        "quad4" => elem!(Quad4d2Element, Point2, U2, 4),
        "quad9" => elem!(Quad9d2Element, Point2, U2, 9),
        "tet4" => elem!(Tet4Element, Point3, U3, 4),
        "tet10" => elem!(Tet10Element, Point3, U3, 10),
        "tet20" => elem!(Tet20Element, Point3, U3, 20),
        "hex8" => elem!(Hex8Element, Point3, U3, 8),
        "hex20" => elem!(Hex20Element, Point3, U3, 20),
        _ => elem!(Hex27Element, Point3, U3, 27),
    };
    judge_canonical(c, &sh, &corners, &em, false, "element");
    if affine {
        judge_canonical(c, &sh, &corners, &es, true, "element");
    }
    let i = c.rng.below(km.c.len());
    let k = km.corners(&sh.e, i);
    let (mm, ms) = with_volume_mesh!(km, m => (table_rule(&m.canonical_mass_quadrature(), i), table_rule(&m.canonical_stiffness_quadrature(), i)));
    judge_canonical(c, &sh, &k, &mm, false, "mesh");
    judge_canonical(c, &sh, &k, &ms, true, "mesh");
}

/// integrals over elements and meshes
fn check_integrals(c: &mut Case) {
    const NAMES: [&str; 13] =
        ["seg1", "seg2", "tri3", "tri3s", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];
    let name = *c.rng.pick(&NAMES);
    let e = describe(name);
    let dom = Dom::of(&e);
    let affine = c.rng.bool();
    let km = kmesh(&mut c.rng, name, if e.rd == 3 { 8 } else { 20 }, affine);
    c.key((name, &km.c));
    c.keyf(&km.flat());
    c.desc(format!("integrals over a mesh of {} {name}, affine {affine}", km.c.len()));
    // degree 3 polynomial of the physical coordinates, normalized to the mesh
    let scale = maxabs(&km.v).max(1e-300);
    let degree = c.rng.range(0, 3);
    let ridge = Ridge::random(&mut c.rng, e.gd, degree);
    let f = move |x: &[f64]| -> f64 {
        let y: Vec<f64> = x.iter().map(|x| x / scale).collect();
        ridge.at(&y)
    };
    // on mapped quads/hexes the integrand has per-coordinate degree <= 3 + 2
    let rule: Flat = match dom {
        Dom::Seg => flat_pair(&univariate::gauss::<f64>(2)),
        Dom::Tri => flat_pair(&total_order::triangle::<f64>(3).unwrap()),
        Dom::Tet => flat_pair(&total_order::tetrahedron::<f64>(3).unwrap()),
        Dom::Quad => flat_pair(&tensor::quadrilateral_gauss::<f64>(3)),
        _ => flat_pair(&tensor::hexahedron_gauss::<f64>(3)),
    };
    let reference = dom.rule(6);
    let cell = |f: &dyn Fn(&[f64]) -> f64, k: &[Vec<f64>]| apply(&reference, |x| vol(&e.jac(k, x)) * f(&e.map(k, x)));
    let want: Vec<f64> = (0..km.c.len()).map(|i| cell(&f, &km.corners(&e, i))).collect();
    let size: f64 = (0..km.c.len()).map(|i| cell(&|_| 1.0, &km.corners(&e, i))).sum();
    let tol = 1e-12 * size;
    // a relabeled copy and a rigidly moved copy
    let vp = c.rng.perm(km.v.len());
    let cp = c.rng.perm(km.c.len());
    let mut rel = km.clone();
    for (i, x) in km.v.iter().enumerate() {
        rel.v[vp[i]] = x.clone();
    }
    rel.c = cp.iter().map(|&i| km.c[i].iter().map(|&k| vp[k]).collect()).collect();
    let r3 = random_rotation3(&mut c.rng);
    let (sn, cs) = c.rng.f(0.0, 6.3).sin_cos();
    let flip = if c.rng.bool() { -1.0 } else { 1.0 };
    let shift: Vec<f64> = (0..e.gd).map(|_| scale * c.rng.f(-2.0, 2.0)).collect();
    let gd = e.gd;
    let rot = move |x: &[f64]| -> Vec<f64> {
        match gd {
            1 => vec![flip * x[0]],
            2 => vec![cs * x[0] - sn * x[1], sn * x[0] + cs * x[1]],
            _ => (0..3).map(|i| (0..3).map(|j| r3[i][j] * x[j]).sum()).collect(),
        }
    };
    let unrot = {
        let shift = shift.clone();
        move |y: &[f64]| -> Vec<f64> {
            let x: Vec<f64> = y.iter().zip(&shift).map(|(a, b)| a - b).collect();
            match gd {
                1 => vec![flip * x[0]],
                2 => vec![cs * x[0] + sn * x[1], -sn * x[0] + cs * x[1]],
                _ => (0..3).map(|i| (0..3).map(|j| r3[j][i] * x[j]).sum()).collect(),
            }
        }
    };
    let mut moved = km.clone();
    for x in moved.v.iter_mut() {
        *x = rot(x).iter().zip(&shift).map(|(a, b)| a + b).collect();
    }
    macro_rules! integrals {
        ($km:expr, $f:expr) => {
            with_mesh!($km, [
                "seg1" => (Segment2d1Connectivity, U1), "seg2" => (Segment2d2Connectivity, U2),
                "tri3" => (Tri3d2Connectivity, U2), "tri3s" => (Tri3d3Connectivity, U3), "tri6" => (Tri6d2Connectivity, U2),
                "quad4" => (Quad4d2Connectivity, U2), "quad9" => (Quad9d2Connectivity, U2),
                "tet4" => (Tet4Connectivity, U3), "tet10" => (Tet10Connectivity, U3), "tet20" => (Tet20Connectivity, U3),
                "hex8" => (Hex8Connectivity, U3), "hex20" => (Hex20Connectivity, U3), "hex27" => (Hex27Connectivity, U3)
            ], m => {
                let g = $f;
                let points: Vec<_> = rule.1.iter().map(|p| pt(p)).collect();
                let integrand = FnFunction::new(|x: &OPoint<f64, _>| { let y = v(x); Vector2::new(g(&y), 1.0) }).with_dependencies::<NoDeps<U1>>();
                let u = DVector::zeros($km.v.len());
                let mut ws = IntegrationWorkspace::default();
                let mut per = vec![];
                for i in 0..$km.c.len() {
                    let el = ElementInSpace::from_space_and_element_index(&m, i);
                    let ul = DVector::zeros($km.c[i].len());
                    let r = integrate_over_element(&integrand, &el, (&rule.0, &points), &ul, &mut ws);
                    per.push([r[0], r[1]]);
                }
                let table = UniformQuadratureTable::from_points_and_weights(points.clone(), rule.0.clone());
                let asm = ElementIntegralAssemblerBuilder::new()
                    .with_space(&m)
                    .with_quadrature_table(&table)
                    .with_interpolation_weights(&u)
                    .with_integrand(FnFunction::new(|x: &OPoint<f64, _>| Vector1::new(g(&v(x)))).with_dependencies::<NoDeps<U1>>())
                    .build_integrator();
                let each: Vec<f64> = (0..$km.c.len()).map(|i| asm.assemble_element_scalar(i).unwrap()).collect();
                (per, each, assemble_scalar(&asm).unwrap(), par_assemble_scalar(&asm).unwrap())
            })
        };
    }
    let (per, each, total, par) = integrals!(km, &f);
    let tot_want: f64 = want.iter().sum();
    for i in 0..km.c.len() {
        c.close(per[i][0], want[i], tol, "element_integral", || format!("cell {i}"));
        c.close(each[i], want[i], tol, "element_assembler", || format!("cell {i}"));
        let m = cell(&|_| 1.0, &km.corners(&e, i));
        c.close(per[i][1], m, 1e-12 * m.abs() + 1e-14 * size, "element_measure", || format!("cell {i}"));
    }
    c.close(total, tot_want, tol, "mesh_integral", || "assemble_scalar".into());
    c.close(par, tot_want, tol, "mesh_integral", || "par_assemble_scalar".into());
    let (per2, _, total2, _) = integrals!(rel, &f);
    c.close(total2, tot_want, tol, "renumbered", || "relabeled mesh".into());
    for (k, &i) in cp.iter().enumerate() {
        c.close(per2[k][0], want[i], tol, "renumbered", || format!("cell {k} (was {i})"));
    }
    let back = |y: &[f64]| f(&unrot(y));
    let (_, _, total3, _) = integrals!(moved, &back);
    c.close(total3, tot_want, 10.0 * tol, "rigid_motion", || "moved mesh".into());
    c.count("element_integrals", 3 * km.c.len() as u64);
}

fn check_volume_form(c: &mut Case) {
    c.key(c.index);
    macro_rules! one {
        ($g:ty, $r:ty) => {{
            let (gd, rd) = (<$g>::dim(), <$r>::dim());
            let s = c.rng.logf(1e-3, 1e3);
            let m: Vec<Vec<f64>> = (0..gd).map(|_| (0..rd).map(|_| s * c.rng.normal()).collect()).collect();
            let j = OMatrix::<f64, $g, $r>::from_fn(|a, b| m[a][b]);
            let size = s.powi(rd as i32);
            c.close(volume_form(&j), vol(&m), 1e-6 * size, "volume_form", || format!("{gd}x{rd}: {m:?}"));
            // well conditioned up to the square root of the rounding of the Gram determinant
            if gd == rd {
                c.close(volume_form(&j), vol(&m), 1e-12 * size, "volume_form", || format!("{gd}x{rd}: {m:?}"));
            }
        }};
    }
    one!(U1, U1);
    one!(U2, U1);
    one!(U3, U1);
    one!(U2, U2);
    one!(U3, U2);
    one!(U3, U3);
    c.count("volume_forms", 6);
}

pub fn q02(r: &mut Run) {
    r.section("subdivide_univariate", "Random Gauss and Gauss-Lobatto rules subdivided into 1 to 40 pieces: same domain, exact for the degree of the base rule and in every piece.", 1500, 20000, check_subdivide_univariate);
    r.section("subdivide_triangle", "Random triangle rules with 1 to 9 subdivisions: same domain, exact for the degree of the base rule and in every small triangle of the documented grid; zero is refused.", 1500, 20000, check_subdivide_triangle);
    r.section("canonical", "Canonical mass and stiffness rules of all 10 volumetric elements and meshes: integrals of all products of basis functions and gradients over random affine cells (mass also on bilinear quadrilaterals) against independent shape functions and a reference rule.", 2000, 20000, check_canonical);
    r.section("integrals", "Random meshes of 13 kinds (also curves and surfaces): integrals of random cubics over every element and the mesh against an independent rule; invariant under relabeling of vertices and cells and under rigid motions; serial and parallel sums.", 3000, 30000, check_integrals);
    r.section("volume_form", "Volume forms of random Jacobians of all shapes.", 300, 3000, check_volume_form);
    r.require("pieces", 3000);
    r.require("canonical_integrals", 10000);
    r.require("element_integrals", 3000);
}

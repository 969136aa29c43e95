//! Problems whose exact solution lies in the finite element space
use crate::common::*;
use crate::every_mesh;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::error::*;
use fenris::nalgebra::*;
use fenris::quadrature::CanonicalStiffnessQuadrature;
use fenris::space::*;
use fenris::SmallDim;
use fenris_optimize::calculus::VectorFunctionBuilder;
use fenris_optimize::newton::*;
use fenris_solid::materials::*;
use fenris_solid::MaterialEllipticOperator;
use std::marker::PhantomData;
use vfem::view::*;
use vlib::{Case, Run};

fn compare(c: &mut Case, got: &DVector<f64>, want: &DVector<f64>, tol: f64, what: &str) {
    let scale = want.amax().max(1e-300);
    let diff = (got - want).amax() / scale;
    c.track("largest_relative_deviation", diff);
    c.check(diff <= tol, what, || format!("nodal values deviate by {diff:e} relative to the exact solution"));
}

fn poisson<M, D>(c: &mut Case, p: &Problem, m: &M, stiff: &UniformQuadratureTable<f64, D, ()>)
where
    M: Space<D>,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let d = D::dim();
    let u = Poly::random(&mut c.rng, d, degree(p.km.name), &p.center, p.len);
    let load = Load::<U1> { p: vec![u.laplacian(d).plus(&u.laplacian(d), -2.0)], _s: PhantomData };
    let rule = strong(&mut c.rng, &p.sh.e);
    let strong_table = table::<D>(&rule);
    let stiff = if c.rng.bool() { &strong_table } else { stiff };
    let zero = DVector::zeros(p.n());
    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&LaplaceOperator).with_quadrature_table(stiff).with_u(&zero).build();
    let f = ElementSourceAssemblerBuilder::new().with_finite_element_space(m).with_source(&load).with_quadrature_table(&strong_table).build();
    let colors = color_nodes(m);
    let (am, fv) = assemble(c, &colors, &a, Some(&f));
    let nodes = p.constrained(&mut c.rng);
    let exact = DVector::from_iterator(p.n(), p.km.v.iter().map(|x| u.at(x)));
    let mut g = DVector::zeros(p.n());
    for &i in &nodes {
        g[i] = exact[i];
    }
    let free = p.n() - p.boundary.iter().filter(|b| **b).count();
    c.count("free_unknowns", free as u64);
    if free == 0 {
        c.trivial();
    }
    let energy = |x: &DVector<f64>| {
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&LaplaceOperator).with_quadrature_table(stiff).with_u(x).build();
        assemble_scalar(&a).unwrap()
    };
    // the source is only a load against functions that vanish at the boundary
    let total = |x: &DVector<f64>| energy(x) - fv.dot(x);
    let Some(uh) = solve_with_values(c, am, fv.clone(), &g, &nodes, 1) else { return };
    compare(c, &uh, &exact, 1e-7, "nodal_values");
    // a minimum of the energy over all functions with these values at the constrained nodes
    let mut fixed = vec![false; p.n()];
    nodes.iter().for_each(|&i| fixed[i] = true);
    let amp = c.rng.logf(1e-3, 1.0);
    let other = DVector::from_fn(p.n(), |i, _| uh[i] + if fixed[i] { 0.0 } else { amp * c.rng.normal() });
    let (e0, e1) = (total(&uh), total(&other));
    c.check(e1 >= e0 - 1e-9 * (energy(&uh).abs() + energy(&other).abs() + fv.amax() * other.amax()), "not_minimal", || format!("{e1} < {e0}"));
    // error norms
    let scale = exact.amax();
    let volume = assemble_volume(c, p, m, &strong_table);
    let eu = |x: &OPoint<f64, D>| Vector1::new(u.at(&v(x)));
    let l2 = estimate_L2_error::<f64, U1, _, _>(m, &eu, &uh, &strong_table).unwrap();
    c.check(l2 <= 1e-7 * scale * volume.sqrt(), "l2_error", || format!("{l2}"));
    let du: Vec<Poly> = (0..d).map(|k| u.d(k)).collect();
    let eg = |x: &OPoint<f64, D>| OMatrix::<f64, D, U1>::from_fn(|k, _| du[k].at(&v(x)));
    let h1 = estimate_H1_seminorm_error::<f64, U1, _, _>(m, &eg, &uh, &strong_table).unwrap();
    let zero_g = |_: &OPoint<f64, D>| OMatrix::<f64, D, U1>::zeros();
    let h1u = estimate_H1_seminorm_error::<f64, U1, _, _>(m, &zero_g, &exact, &strong_table).unwrap();
    // the seminorm error equals the energy of the nodal error
    c.check(h1 <= 1e-6 * h1u + 2.0 * (2.0 * energy(&(&uh - &exact))).max(0.0).sqrt() + 1e-9 * scale * volume.sqrt() / p.len, "h1_error", || {
        format!("{h1} of {h1u}")
    });
    c.count("solved_problems", 1);
}

fn assemble_volume<M, D>(_c: &mut Case, _p: &Problem, m: &M, t: &UniformQuadratureTable<f64, D, ()>) -> f64
where
    M: Space<D>,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
{
    let one = |_: &OPoint<f64, D>| Vector1::new(1.0);
    let zero = DVector::zeros(m.num_nodes());
    estimate_L2_error_squared::<f64, U1, _, _>(m, &one, &zero, t).unwrap()
}

fn check_poisson(c: &mut Case) {
    let p = Problem::random(c, &ALL, true);
    c.desc(format!("Poisson: {} x {}, {} nodes", p.km.c.len(), p.km.name, p.n()));
    every_mesh!(p.km, m, D => {
        let t = m.canonical_stiffness_quadrature();
        poisson::<_, D>(c, &p, &m, &t);
    });
}

/// the same through point location: the solution has the exact value everywhere inside
fn check_located(c: &mut Case) {
    let p = Problem::random(c, &["tri3", "tet4"], true);
    let d = p.sh.e.rd;
    c.desc(format!("located solution: {} x {}", p.km.c.len(), p.km.name));
    let k: Vec<f64> = (0..d).map(|_| c.rng.normal()).collect();
    let lin = |x: &[f64]| 0.5 + x.iter().zip(&k).zip(&p.center).map(|((x, k), m)| k * (x - m) / p.len).sum::<f64>();
    macro_rules! arm {
        ($conn:ident, $d:ty) => {{
            let verts: Vec<_> = p.km.v.iter().map(|x| pt::<$d>(x)).collect();
            let conn: Vec<fenris::connectivity::$conn> = p.km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
            let mesh = fenris::mesh::Mesh::from_vertices_and_connectivity(verts, conn);
            let t = mesh.canonical_stiffness_quadrature();
            let zero = DVector::zeros(p.n());
            let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&t).with_u(&zero).build();
            let colors = color_nodes(&mesh);
            let none: Option<&ElementSourceAssembler<f64, fenris::mesh::Mesh<f64, $d, fenris::connectivity::$conn>, Load<U1>, UniformQuadratureTable<f64, $d, ()>>> = None;
            let (am, fv) = assemble(c, &colors, &a, none);
            let nodes = p.constrained(&mut c.rng);
            let mut g = DVector::zeros(p.n());
            for &i in &nodes {
                g[i] = lin(&p.km.v[i]);
            }
            let Some(uh) = solve_with_values(c, am, fv, &g, &nodes, 1) else { return };
            let ix = SpatiallyIndexed::from_space(mesh);
            let pts: Vec<Vec<f64>> = (0..12)
                .map(|_| {
                    let cell = &p.km.c[c.rng.below(p.km.c.len())];
                    let w: Vec<f64> = cell.iter().map(|_| c.rng.f01() + 0.01).collect();
                    let s: f64 = w.iter().sum();
                    (0..d).map(|q| cell.iter().zip(&w).map(|(&n, w)| w / s * p.km.v[n][q]).sum()).collect()
                })
                .collect();
            let points: Vec<OPoint<f64, $d>> = pts.iter().map(|x| pt(x)).collect();
            let vals: Vec<OVector<f64, U1>> = InterpolateInSpace::<f64, U1>::interpolate_at_points(&ix, &points, uh.as_view());
            let fi = FixedInterpolator::from_space_and_points(&ix, &points, ValuesOrGradients::Both);
            let (mut fv, mut fg) = (vec![OVector::<f64, U1>::zeros(); points.len()], vec![OMatrix::<f64, $d, U1>::zeros(); points.len()]);
            fi.interpolate_into(&mut fv, &uh);
            fi.interpolate_gradients_into(&mut fg, &uh);
            let scale = 0.5 + k.iter().map(|x| x.abs()).sum::<f64>();
            for (i, x) in pts.iter().enumerate() {
                c.close(vals[i][0], lin(x), 1e-7 * scale, "located_value", || format!("{x:?}"));
                c.close(fv[i][0], lin(x), 1e-7 * scale, "precomputed_value", || format!("{x:?}"));
                for q in 0..d {
                    c.close(fg[i][q], k[q] / p.len, 1e-4 * scale / p.len, "precomputed_gradient", || format!("{x:?}"));
                }
            }
            c.count("located_points", pts.len() as u64);
        }};
    }
    match p.km.name {
        "tri3" => arm!(Tri3d2Connectivity, U2),
        _ => arm!(Tet4Connectivity, U3),
    }
}

fn elasticity<M, D>(c: &mut Case, p: &Problem, m: &M, stiff: &UniformQuadratureTable<f64, D, ()>)
where
    M: Space<D>,
    D: SmallDim,
    LinearElasticMaterial: fenris_solid::HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let d = D::dim();
    let par = LameParameters { mu: c.rng.logf(0.3, 30.0), lambda: c.rng.logf(0.3, 30.0) };
    let u: Vec<Poly> = (0..d).map(|_| Poly::random(&mut c.rng, d, degree(p.km.name), &p.center, p.len)).collect();
    let div = (0..d).fold(u[0].zero(), |a, i| a.plus(&u[i].d(i), 1.0));
    let load = Load::<D> {
        p: (0..d).map(|i| u[i].zero().plus(&u[i].laplacian(d), -par.mu).plus(&div.d(i), -(par.lambda + par.mu))).collect(),
        _s: PhantomData,
    };
    let rule = strong(&mut c.rng, &p.sh.e);
    let strong_table = table::<D>(&rule);
    let stiff = if c.rng.bool() { strong_table.clone() } else { stiff.clone() }.with_uniform_data(par.clone());
    let op = MaterialEllipticOperator::new(&LinearElasticMaterial);
    let zero = DVector::zeros(d * p.n());
    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&op).with_quadrature_table(&stiff).with_u(&zero).build();
    let f = ElementSourceAssemblerBuilder::new().with_finite_element_space(m).with_source(&load).with_quadrature_table(&strong_table).build();
    let colors = color_nodes(m);
    let (am, fv) = assemble(c, &colors, &a, Some(&f));
    let nodes = p.constrained(&mut c.rng);
    let exact = DVector::from_iterator(d * p.n(), p.km.v.iter().flat_map(|x| u.iter().map(|u| u.at(x)).collect::<Vec<_>>()));
    let mut g = DVector::zeros(d * p.n());
    for &i in &nodes {
        for k in 0..d {
            g[d * i + k] = exact[d * i + k];
        }
    }
    if p.boundary.iter().all(|b| *b) {
        c.trivial();
    }
    let Some(uh) = solve_with_values(c, am, fv, &g, &nodes, d) else { return };
    compare(c, &uh, &exact, 1e-7, "displacements");
    c.count("elastic_problems", 1);
}

fn check_elasticity(c: &mut Case) {
    let p = Problem::random(c, &ALL, true);
    c.desc(format!("linear elasticity: {} x {}, {} nodes", p.km.c.len(), p.km.name, p.n()));
    if p.n() > 400 {
        c.trivial();
        return;
    }
    every_mesh!(p.km, m, D => {
        let t = m.canonical_stiffness_quadrature();
        elasticity::<_, D>(c, &p, &m, &t);
    });
}

/// an affine displacement of the boundary continues into the interior, for any material
fn affine_patch<M, D, Mat>(c: &mut Case, p: &Problem, m: &M, mat: &Mat, what: &str)
where
    M: Space<D>,
    D: SmallDim,
    Mat: fenris_solid::HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>> + Sync,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let d = D::dim();
    let n = d * p.n();
    // no loss of ellipticity: moderate ratio, moderate strains
    let mu = c.rng.logf(0.3, 30.0);
    let par = LameParameters { mu, lambda: mu * c.rng.logf(0.1, 4.0) };
    let rule = strong(&mut c.rng, &p.sh.e);
    let t = table::<D>(&rule).with_uniform_data(par);
    let op = MaterialEllipticOperator::new(mat);
    let amp = c.rng.logf(0.003, 0.04);
    let gm: Vec<f64> = (0..d * d).map(|_| amp * c.rng.f(-1.0, 1.0)).collect();
    let exact = DVector::from_iterator(
        n,
        p.km.v.iter().flat_map(|x| (0..d).map(|i| (0..d).map(|k| gm[d * i + k] * (x[k] - p.center[k])).sum::<f64>()).collect::<Vec<_>>()),
    );
    let nodes = p.constrained(&mut c.rng);
    let mut fixed = vec![false; p.n()];
    nodes.iter().for_each(|&i| fixed[i] = true);
    let mut size = f64::INFINITY;
    for cell in &p.km.c {
        for a in 0..cell.len() {
            for b in 0..a {
                size = size.min(dist(&p.km.v[cell[a]], &p.km.v[cell[b]]));
            }
        }
    }
    let noise = 0.004 * size;
    let mut u = DVector::from_fn(n, |i, _| exact[i] + if fixed[i / d] { 0.0 } else { noise * c.rng.f(-1.0, 1.0) });
    let start = u.clone();
    let colors = color_nodes(m);
    let par_assembly = c.rng.bool();
    let asm = |u: &DVector<f64>| -> DVector<f64> {
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&op).with_quadrature_table(&t).with_u(u).build();
        let mut f = if par_assembly {
            VectorParAssembler::default().assemble_vector(&colors, &a).unwrap()
        } else {
            VectorAssembler::default().assemble_vector(&a).unwrap()
        };
        apply_homogeneous_dirichlet_bc_rhs(&mut f, &nodes, d);
        f
    };
    let mut stiffness_size: f64 = 0.0;
    let function = VectorFunctionBuilder::with_dimension(n)
        .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| f.copy_from(&asm(&x.clone_owned())))
        .with_jacobian_solver(|sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>| {
            let u = x.clone_owned();
            let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&op).with_quadrature_table(&t).with_u(&u).build();
            let mut j = if par_assembly { CsrParAssembler::default().assemble(&colors, &a)? } else { CsrAssembler::default().assemble(&a)? };
            apply_homogeneous_dirichlet_bc_csr(&mut j, &nodes, d);
            let s = dense(&j).lu().solve(rhs).ok_or("singular")?;
            sol.copy_from(&s);
            Ok(())
        });
    {
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&op).with_quadrature_table(&t).with_u(&start).build();
        for i in 0..p.km.c.len() {
            stiffness_size = stiffness_size.max(a.assemble_element_matrix(i).unwrap().amax());
        }
    }
    // the exact solution is an equilibrium
    let f0 = asm(&exact);
    let tiny = 1e-11 * stiffness_size * (exact.amax() + size);
    c.check(f0.amax() <= tiny, "no_equilibrium", || format!("{what}: residual {:e} at the affine displacement", f0.amax()));
    {
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&op).with_quadrature_table(&t).with_u(&exact).build();
        let mut j = CsrAssembler::default().assemble(&a).unwrap();
        apply_homogeneous_dirichlet_bc_csr(&mut j, &nodes, d);
        if dense(&j).cholesky().is_none() {
            c.count("unstable_equilibria", 1);
            return;
        }
    }
    let mut f = DVector::zeros(n);
    let mut dx = DVector::zeros(n);
    let settings = NewtonSettings { max_iterations: Some(30), tolerance: 1e-9 * stiffness_size * size };
    let r = if c.rng.bool() {
        newton(function, &mut u, &mut f, &mut dx, settings)
    } else {
        newton_line_search(function, &mut u, &mut f, &mut dx, settings, &mut BacktrackingLineSearch)
    };
    let _ = what;
    if !c.check(r.is_ok(), "newton_failed", || format!("{what}: {r:?}")) {
        return;
    }
    let err = (&u - &exact).amax();
    c.track("largest_patch_deviation", err / size);
    c.check(err <= 1e-5 * size, "affine_displacement", || format!("{what}: deviates by {err:e}, cell size {size:e}, start deviated by {:e}", (&start - &exact).amax()));
    if p.boundary.iter().all(|b| *b) {
        c.trivial();
    }
    c.count("nonlinear_patches", 1);
}

fn check_patch(c: &mut Case) {
    let affine = c.rng.chance(0.7);
    let p = Problem::random(c, &ALL, affine);
    let which = c.rng.below(3);
    c.desc(format!("patch test, material {which}: {} x {}, {} nodes", p.km.c.len(), p.km.name, p.n()));
    if p.n() > 130 {
        c.trivial();
        return;
    }
    every_mesh!(p.km, m, D => match which {
        0 => affine_patch::<_, D, _>(c, &p, &m, &LinearElasticMaterial, "linear elastic"),
        1 => affine_patch::<_, D, _>(c, &p, &m, &NeoHookeanMaterial, "Neo-Hookean"),
        _ => affine_patch::<_, D, _>(c, &p, &m, &StVKMaterial, "StVK"),
    });
}

pub fn p01(r: &mut Run) {
    r.section("poisson", "Random conforming meshes of affine cells of 10 kinds (holes, components), the load of a random polynomial in the space, its values at the boundary and at some inner nodes, canonical or stronger rules, serial or parallel assembly, conjugate gradients or a direct solver: the discrete solution has the exact nodal values, minimal energy and no error.", 700, 20000, check_poisson);
    r.section("located", "Linear solutions on triangle and tetrahedral meshes seen through point location and precomputed interpolation.", 500, 10000, check_located);
    r.section("elasticity", "The same for linear elasticity with random Lame parameters.", 300, 10000, check_elasticity);
    r.section("patch", "Affine displacements of the boundary with Newton's method for three materials, also on distorted cells.", 300, 10000, check_patch);
    r.require("solved_problems", 300);
    r.require("free_unknowns", 2000);
    r.require("iterative_solves", 100);
    r.require("direct_solves", 100);
    r.require("parallel_systems", 100);
    r.require("elastic_problems", 60);
    r.require("nonlinear_patches", 60);
    r.require("located_points", 1000);
    r.assumption("nalgebra's dense factorizations are correct.");
}

//! Functions seen through nested spaces and through relabelled or moved meshes
use crate::common::*;
use crate::every_mesh;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::connectivity::*;
use fenris::error::*;
use fenris::mesh::refinement::{refine_uniformly, refine_uniformly_repeat};
use fenris::mesh::reorder::{reorder_mesh_par, Permutation};
use fenris::mesh::*;
use fenris::nalgebra::*;
use fenris::SmallDim;
use std::marker::PhantomData;
use vfem::oracle::*;
use vfem::view::*;
use vfem::{plain, Plain};
use vlib::{Case, Run};

type Rule = (Vec<f64>, Vec<Vec<f64>>);

/// what one can measure of a function: integral against a load, L2 norm, H1 seminorm, mass and Laplace energies, volume
fn measure<M, D>(c: &mut Case, m: &M, r: &Rule, u: &DVector<f64>, load: &Load<U1>) -> Vec<(&'static str, f64, f64)>
where
    M: Space<D>,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let t = table::<D>(r);
    let colors = color_nodes(m);
    let zero = DVector::zeros(u.len());
    let none = |_: &OPoint<f64, D>| Vector1::new(0.0);
    let none_g = |_: &OPoint<f64, D>| OMatrix::<f64, D, U1>::zeros();
    let one = |_: &OPoint<f64, D>| Vector1::new(1.0);
    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&LaplaceOperator).with_quadrature_table(&t).with_u(u).build();
    let f = ElementSourceAssemblerBuilder::new().with_finite_element_space(m).with_source(load).with_quadrature_table(&t).build();
    let (am, fv) = assemble(c, &colors, &a, Some(&f));
    let mt = table::<D>(r).with_uniform_data(Density(1.0));
    let ma = ElementMassAssembler::with_solution_dim(1).with_space(m).with_quadrature_table(&mt);
    let none_v: Option<&ElementSourceAssembler<f64, M, Load<U1>, UniformQuadratureTable<f64, D, ()>>> = None;
    let (mm, _) = assemble(c, &colors, &ma, none_v);
    let quad = |m: &fenris::nalgebra_sparse::CsrMatrix<f64>| m.triplet_iter().map(|(i, j, x)| u[i] * x * u[j]).sum::<f64>();
    let volume = estimate_L2_error_squared::<f64, U1, _, _>(m, &one, &zero, &t).unwrap();
    let l2 = estimate_L2_error::<f64, U1, _, _>(m, &none, u, &t).unwrap();
    let h1 = estimate_H1_seminorm_error::<f64, U1, _, _>(m, &none_g, u, &t).unwrap();
    let amax = u.amax();
    let vsq = volume.abs();
    let e = assemble_scalar(&a).unwrap();
    let g = VectorAssembler::default().assemble_vector(&a).unwrap();
    let (qa, qm) = (quad(&am), quad(&mm));
    // within one space
    c.close(2.0 * e, qa, 1e-10 * (qa.abs() + e.abs()) + 1e-300, "energy_and_matrix", || "Laplace".into());
    c.close(g.dot(u), qa, 1e-9 * qa.abs() + 1e-300, "force_and_matrix", || "Laplace".into());
    c.close(h1 * h1, qa, 1e-9 * qa.abs() + 1e-300, "seminorm_and_matrix", || "Laplace".into());
    c.close(l2 * l2, qm, 1e-9 * qm.abs() + 1e-300, "norm_and_matrix", || "mass".into());
    vec![
        ("volume", volume, vsq),
        ("l2", l2, amax * vsq.sqrt()),
        ("h1", h1, h1),
        ("energy", e, e),
        ("mass", qm, amax * amax * vsq),
        ("load", fv.dot(u), fv.iter().map(|x| x.abs()).sum::<f64>() * amax),
    ]
}
fn same(c: &mut Case, a: &[(&'static str, f64, f64)], b: &[(&'static str, f64, f64)], tol: f64, f: &dyn Fn(&str) -> f64) {
    for (x, y) in a.iter().zip(b) {
        let k = f(x.0);
        let scale = (k * x.2).abs().max(y.2.abs());
        c.track("largest_relative_difference", (k * x.1 - y.1).abs() / (scale + 1e-300));
        c.close(k * x.1, y.1, tol * scale + 1e-300, x.0, || format!("{} times {k} against {}", x.1, y.1));
        c.count("quantities_compared", 1);
    }
}

/// solution of the Poisson problem with zero boundary values, its total energy and the matrix
fn galerkin<M, D>(c: &mut Case, m: &M, r: &Rule, load: &Load<U1>, boundary: &[bool]) -> Option<(DVector<f64>, f64, fenris::nalgebra_sparse::CsrMatrix<f64>)>
where
    M: Space<D>,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let t = table::<D>(r);
    let colors = color_nodes(m);
    let zero = DVector::zeros(boundary.len());
    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&LaplaceOperator).with_quadrature_table(&t).with_u(&zero).build();
    let f = ElementSourceAssemblerBuilder::new().with_finite_element_space(m).with_source(load).with_quadrature_table(&t).build();
    let (am, fv) = assemble(c, &colors, &a, Some(&f));
    let mut nodes: Vec<usize> = (0..boundary.len()).filter(|&i| boundary[i]).collect();
    c.rng.shuffle(&mut nodes);
    let u = solve_with_values(c, am.clone(), fv.clone(), &zero, &nodes, 1)?;
    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(m).with_operator(&LaplaceOperator).with_quadrature_table(&t).with_u(&u).build();
    let e = assemble_scalar(&a).unwrap() - fv.dot(&u);
    // at the minimum the total energy is minus the stored energy
    let stored = assemble_scalar(&a).unwrap();
    c.close(e, -stored, 1e-8 * stored.abs() + 1e-300, "energy_balance", || format!("total {e}, stored {stored}"));
    Some((u, e, am))
}

/// coefficients in the finer space; None when two cells disagree
fn transfer(c: &mut Case, fine: &Plain, parts: &dyn Fn(usize) -> Vec<f64>) -> Option<DVector<f64>> {
    let mut out = vec![f64::NAN; fine.v.len()];
    let mut max: f64 = 0.0;
    let all: Vec<Vec<f64>> = (0..fine.c.len()).map(parts).collect();
    all.iter().flatten().for_each(|x| max = max.max(x.abs()));
    for (cell, vals) in fine.c.iter().zip(&all) {
        for (&n, &x) in cell.iter().zip(vals) {
            if out[n].is_nan() {
                out[n] = x;
            } else if !c.check((out[n] - x).abs() <= 1e-9 * max, "two_values", || format!("node {n} has the values {} and {x} seen from two cells", out[n])) {
                return None;
            }
        }
    }
    Some(DVector::from_iterator(out.len(), out.into_iter().map(|x| if x.is_nan() { 0.0 } else { x })))
}

fn nested<MC, MF, D>(c: &mut Case, mc: &MC, mf: &MF, r: &Rule, p: &Problem, fine: &Plain, fine_el: &El, parts: &dyn Fn(&DVector<f64>, usize) -> Vec<f64>, tol: f64)
where
    MC: Space<D>,
    MF: Space<D>,
    D: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    <DefaultAllocator as allocator::Allocator<f64, D>>::Buffer: Sync,
{
    let load = Load::<U1> { p: vec![Poly::random(&mut c.rng, D::dim(), 2, &p.center, p.len)], _s: PhantomData };
    let u = DVector::from_fn(p.n(), |_, _| c.rng.normal());
    let Some(w) = transfer(c, fine, &|i| parts(&u, i)) else { return };
    let (a, b) = (measure::<_, D>(c, mc, r, &u, &load), measure::<_, D>(c, mf, r, &w, &load));
    same(c, &a, &b, tol, &|_| 1.0);
    let fb = boundary_nodes(fine_el, fine.v.len(), &fine.c);
    if fb.iter().all(|b| *b) || fine.v.len() > 900 {
        return;
    }
    c.count("spaces_with_free_nodes", 1);
    let Some((uc, ec, _)) = galerkin::<_, D>(c, mc, r, &load, &p.boundary) else { return };
    let Some((uf, ef, af)) = galerkin::<_, D>(c, mf, r, &load, &fb) else { return };
    let Some(wc) = transfer(c, fine, &|i| parts(&uc, i)) else { return };
    for (i, b) in fb.iter().enumerate() {
        if *b && !c.check(wc[i].abs() <= 1e-12 * (uc.amax() + 1e-300), "boundary_value", || format!("a boundary node has value {}", wc[i])) {
            return;
        }
    }
    let d = &uf - &wc;
    let mut s = 0.0;
    for (i, j, x) in af.triplet_iter() {
        s += 0.5 * d[i] * x * d[j];
    }
    let scale = ef.abs() + ec.abs() + 1e-300;
    c.check(ef <= ec + 1e-7 * scale, "finer_space_is_worse", || format!("energy {ef} in the finer space, {ec} in the coarser"));
    // Pythagoras: the gain in energy is the energy of the difference
    c.close(ec - ef, s, 1e-7 * scale, "gain", || format!("energies {ec} and {ef}"));
    c.count("energies_compared", 1);
}

fn check_elevated(c: &mut Case) {
    let pair = *c.rng.pick(&[("tri3", "tri6"), ("quad4", "quad9"), ("tet4", "tet10"), ("tet4", "tet20"), ("hex8", "hex20"), ("hex8", "hex27")]);
    let affine = c.rng.chance(0.4);
    let max = match pair.0 {
        "tri3" | "quad4" => 50,
        _ => 12,
    };
    let km = kmesh(&mut c.rng, pair.0, max, affine);
    c.key((pair, &km.c));
    c.keyf(&km.flat());
    let p = Problem::of(Shape::new(pair.0), km);
    c.desc(format!("{} cells, {} to {}", p.km.c.len(), pair.0, pair.1));
    let r = strong(&mut c.rng, &p.sh.e);
    let fe = describe(pair.1);
    macro_rules! arm {
        ($from:ident, $to:ident, $d:ty, $conv:expr) => {{
            let verts: Vec<_> = p.km.v.iter().map(|x| pt::<$d>(x)).collect();
            let conn: Vec<$from> = p.km.c.iter().map(|c| $from(std::array::from_fn(|i| c[i]))).collect();
            let mc = Mesh::<f64, $d, $from>::from_vertices_and_connectivity(verts, conn);
            let mf: Mesh<f64, $d, $to> = $conv(&mc);
            let fine = plain(&mf);
            if !c.check(fine.c.len() == p.km.c.len(), "cells", || format!("{} cells became {}", p.km.c.len(), fine.c.len())) {
                return;
            }
            let parts = |u: &DVector<f64>, i: usize| -> Vec<f64> { fe.weights.iter().map(|w| w.iter().map(|&(k, x)| x * u[p.km.c[i][k]]).sum()).collect() };
            nested::<_, _, $d>(c, &mc, &mf, &r, &p, &fine, &fe, &parts, 1e-8);
        }};
    }
    match pair.1 {
        "tri6" => arm!(Tri3d2Connectivity, Tri6d2Connectivity, U2, |m: &Mesh<f64, U2, Tri3d2Connectivity>| Mesh::from(m.clone())),
        "quad9" => arm!(Quad4d2Connectivity, Quad9d2Connectivity, U2, |m: &Mesh<f64, U2, Quad4d2Connectivity>| Mesh::from(m.clone())),
        "tet10" => arm!(Tet4Connectivity, Tet10Connectivity, U3, Mesh::from),
        "tet20" => arm!(Tet4Connectivity, Tet20Connectivity, U3, Mesh::from),
        "hex20" => arm!(Hex8Connectivity, Hex20Connectivity, U3, Mesh::from),
        _ => arm!(Hex8Connectivity, Hex27Connectivity, U3, Mesh::from),
    }
    c.count("elevated", 1);
}

/// values at the corners of a child simplex through the parent that contains its centroid
fn children_of(p: &Problem, fine: &Plain) -> Option<Vec<(usize, Vec<Vec<f64>>)>> {
    let d = p.sh.e.rd;
    let inv: Vec<Matrix3<f64>> = p
        .km
        .c
        .iter()
        .map(|c| {
            let m = Matrix3::from_fn(|i, k| if i < d { if k < d { p.km.v[c[k + 1]][i] - p.km.v[c[0]][i] } else { 0.0 } } else if k == i { 1.0 } else { 0.0 });
            m.try_inverse().unwrap()
        })
        .collect();
    let bary = |i: usize, x: &[f64]| -> Vec<f64> {
        let o = &p.km.v[p.km.c[i][0]];
        let y = inv[i] * Vector3::from_fn(|k, _| if k < d { x[k] - o[k] } else { 0.0 });
        let mut l = vec![1.0 - (0..d).map(|k| y[k]).sum::<f64>()];
        l.extend((0..d).map(|k| y[k]));
        l
    };
    fine.c
        .iter()
        .map(|t| {
            let m: Vec<f64> = (0..d).map(|k| t.iter().map(|&n| fine.v[n][k]).sum::<f64>() / t.len() as f64).collect();
            let best = (0..p.km.c.len()).map(|i| (i, bary(i, &m).into_iter().fold(1.0, f64::min))).max_by(|a, b| a.1.partial_cmp(&b.1).unwrap())?;
            if best.1 <= 1e-6 {
                return None;
            }
            Some((best.0, t.iter().map(|&n| bary(best.0, &fine.v[n])).collect()))
        })
        .collect()
}

fn check_refined(c: &mut Case) {
    let km = kmesh(&mut c.rng, "tri3", 40, true);
    c.key(&km.c);
    c.keyf(&km.flat());
    let p = Problem::of(Shape::new("tri3"), km);
    let times = if p.km.c.len() < 12 && c.rng.bool() { 2 } else { 1 };
    c.desc(format!("{} triangles refined {times} times", p.km.c.len()));
    let r = strong(&mut c.rng, &p.sh.e);
    let verts: Vec<_> = p.km.v.iter().map(|x| pt::<U2>(x)).collect();
    let conn: Vec<Tri3d2Connectivity> = p.km.c.iter().map(|c| Tri3d2Connectivity([c[0], c[1], c[2]])).collect();
    let mc = Mesh::<f64, U2, _>::from_vertices_and_connectivity(verts, conn);
    let mf = if times == 1 { refine_uniformly(&mc) } else { refine_uniformly_repeat(&mc, times) };
    let fine = plain(&mf);
    let kids = children_of(&p, &fine);
    if !c.check(kids.is_some(), "child_without_parent", || "the centroid of a refined cell is in no original cell".into()) {
        return;
    }
    let kids = kids.unwrap();
    let fe = describe("tri3");
    let parts = |u: &DVector<f64>, i: usize| -> Vec<f64> {
        let (q, l) = &kids[i];
        l.iter().map(|l| l.iter().zip(&p.km.c[*q]).map(|(x, &n)| x * u[n]).sum()).collect()
    };
    nested::<_, _, U2>(c, &mc, &mf, &r, &p, &fine, &fe, &parts, 1e-7);
    c.count("refined", 1);
}

fn check_reordered(c: &mut Case) {
    let affine = c.rng.bool();
    let p = Problem::random(c, &ALL, affine);
    c.desc(format!("{} x {}, {} nodes", p.km.c.len(), p.km.name, p.n()));
    let r = strong(&mut c.rng, &p.sh.e);
    let by_library = c.rng.bool();
    every_mesh!(p.km, m, D => {
        let load = Load::<U1> { p: vec![Poly::random(&mut c.rng, D::dim(), 2, &p.center, p.len)], _s: PhantomData };
        let u = DVector::from_fn(p.n(), |_, _| c.rng.normal());
        // new index -> old index
        let (m2, perm): (_, Vec<usize>) = if by_library {
            let q = reorder_mesh_par(&m);
            (q.apply(&m), q.vertex_permutation().perm().to_vec())
        } else {
            let q = c.rng.perm(p.n());
            let mut inv = vec![0; q.len()];
            q.iter().enumerate().for_each(|(i, &k)| inv[k] = i);
            let pv = Permutation::from_vec(q.clone()).unwrap();
            let verts = pv.apply_to_slice(m.vertices());
            let mut conn = m.connectivity().to_vec();
            for x in &mut conn {
                x.vertex_indices_mut().iter_mut().for_each(|k| *k = inv[*k]);
            }
            c.rng.shuffle(&mut conn);
            (Mesh::from_vertices_and_connectivity(verts, conn), q)
        };
        let w = DVector::from_fn(p.n(), |i, _| u[perm[i]]);
        let (a, b) = (measure::<_, D>(c, &m, &r, &u, &load), measure::<_, D>(c, &m2, &r, &w, &load));
        same(c, &a, &b, 1e-9, &|_| 1.0);
        if p.boundary.iter().all(|b| *b) {
            c.trivial();
        } else if p.n() < 500 {
            let b2: Vec<bool> = perm.iter().map(|&k| p.boundary[k]).collect();
            let Some((x, e1, _)) = galerkin::<_, D>(c, &m, &r, &load, &p.boundary) else { return };
            let Some((y, e2, _)) = galerkin::<_, D>(c, &m2, &r, &load, &b2) else { return };
            c.close(e1, e2, 1e-8 * e1.abs() + 1e-300, "energy_after_relabelling", || "total energy".into());
            let dev = (0..p.n()).map(|i| (y[i] - x[perm[i]]).abs()).fold(0.0, f64::max);
            c.check(dev <= 1e-7 * x.amax() + 1e-300, "solution_after_relabelling", || format!("deviates by {dev:e} of {:e}", x.amax()));
            c.count("relabelled_solutions", 1);
        }
    });
    c.count(if by_library { "reordered_by_library" } else { "permuted" }, 1);
}

fn check_moved(c: &mut Case) {
    let affine = c.rng.bool();
    let p = Problem::random(c, &ALL, affine);
    let d = p.sh.e.rd;
    let s = match c.rng.below(6) {
        0 | 1 => 1.0,
        2 | 3 => c.rng.logf(1e-8, 1e8),
        _ => c.rng.logf(1e-3, 1e3),
    };
    c.desc(format!("{} x {}, {} nodes, scaled by {s}", p.km.c.len(), p.km.name, p.n()));
    let r = strong(&mut c.rng, &p.sh.e);
    every_mesh!(p.km, m, D => {
        let u = DVector::from_fn(p.n(), |_, _| c.rng.normal());
        let one = Load::<U1> { p: vec![Poly { t: vec![([0; 3], 1.0)], center: p.center.clone(), len: p.len }], _s: PhantomData };
        let q = DMatrix::from_fn(D::dim(), D::dim(), |_, _| c.rng.normal()).qr().q();
        let mut q = OMatrix::<f64, D, D>::from_fn(|i, j| q[(i, j)]);
        if q.clone_owned().as_slice().len() > 0 && DMatrix::from_fn(d, d, |i, j| q[(i, j)]).determinant() < 0.0 {
            for i in 0..d {
                q[(i, 0)] *= -1.0;
            }
        }
        let shift = OVector::<f64, D>::from_fn(|_, _| 3.0 * p.len * s * c.rng.normal());
        let mut m2 = m.clone();
        m2.transform_vertices(|x| x.coords = &q * &x.coords * s);
        let m2 = if c.rng.bool() { m2.translated(&shift) } else { m2.translate(&shift); m2 };
        let (a, b) = (measure::<_, D>(c, &m, &r, &u, &one), measure::<_, D>(c, &m2, &r, &u, &one));
        let n = d as f64;
        same(c, &a, &b, 1e-9, &|w| match w {
            "volume" | "mass" | "load" => s.powf(n),
            "l2" => s.powf(n / 2.0),
            "h1" => s.powf(n / 2.0 - 1.0),
            _ => s.powf(n - 2.0),
        });
        if p.boundary.iter().all(|b| *b) {
            c.trivial();
        } else if p.n() < 500 {
            let Some((x, e1, _)) = galerkin::<_, D>(c, &m, &r, &one, &p.boundary) else { return };
            let Some((y, e2, _)) = galerkin::<_, D>(c, &m2, &r, &one, &p.boundary) else { return };
            c.close(e1 * s.powf(n + 2.0), e2, 1e-7 * e2.abs() + 1e-300, "energy_after_motion", || "total energy".into());
            let dev = (&x * s * s - &y).amax();
            c.check(dev <= 1e-7 * y.amax() + 1e-300, "solution_after_motion", || format!("deviates by {dev:e} of {:e}", y.amax()));
            c.count("moved_solutions", 1);
        }
    });
    c.count("moved", 1);
}

pub fn p02(r: &mut Run) {
    r.section("elevated", "Random meshes (distorted cells, cracks, components) converted to a kind of higher order: a random function of the old space has the same volume, norms, energies, mass and load in the new space, and the discrete solution gains exactly the energy of the difference.", 300, 10000, check_elevated);
    r.section("refined", "The same for uniform refinement of triangles.", 300, 10000, check_refined);
    r.section("reordered", "Meshes relabelled by the library's reordering or a random permutation: same quantities, permuted solution.", 300, 10000, check_reordered);
    r.section("moved", "Meshes rotated, scaled and translated: quantities scale as they must, and so does the solution.", 300, 10000, check_moved);
    r.require("quantities_compared", 3000);
    r.require("energies_compared", 60);
    r.require("elevated", 100);
    r.require("refined", 100);
    r.require("relabelled_solutions", 50);
    r.require("moved_solutions", 50);
    r.assumption("nalgebra's dense factorizations are correct.");
}

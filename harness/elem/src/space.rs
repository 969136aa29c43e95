use crate::closest::*;
use crate::view::{maxabs, pt, v};
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{DVector, DefaultAllocator, Dyn, MatrixViewMut, OMatrix, OPoint, Point3, U1, U2, U3};
use fenris::space::*;
use vfem::*;
use vlib::{Case, Run};

fn emb(p: &[f64]) -> [f64; 3] {
    [p[0], p[1], if p.len() > 2 { p[2] } else { 0.0 }]
}
fn cell(p: &Plain, i: usize) -> Vec<[f64; 3]> {
    p.c[i].iter().map(|&k| emb(&p.v[k])).collect()
}
fn nearest(t: &[[f64; 3]], volume: bool, q: [f64; 3]) -> [f64; 3] {
    if volume && t.len() == 4 {
        on_tet([t[0], t[1], t[2], t[3]], q)
    } else {
        on_triangle([t[0], t[1], t[2]], q)
    }
}
/// corner weights of reference coordinates
fn weights(xi: &[f64]) -> Vec<f64> {
    let mut w = vec![0.0];
    w.extend(xi.iter().map(|x| (x + 1.0) / 2.0));
    w[0] = 1.0 - w[1..].iter().sum::<f64>();
    w
}
/// random coordinates, also extreme ones
pub fn query(c: &mut Case, p: &Plain) -> Vec<f64> {
    let d = p.v[0].len();
    let size = p.size();
    let i = c.rng.below(p.c.len());
    let mut w: Vec<f64> = p.c[i].iter().map(|_| c.rng.f01()).collect();
    if c.rng.chance(0.3) {
        let k = c.rng.below(w.len());
        w[k] = 0.0; // on a face
    }
    if c.rng.chance(0.15) {
        // middles of edges and faces, as exactly as the coordinates allow
        let k = c.rng.below(w.len());
        w.iter_mut().for_each(|x| *x = if c.rng.bool() { 1.0 } else { 0.0 });
        w[k] = 1.0;
    }
    let s: f64 = w.iter().sum();
    let on: Vec<f64> = (0..d).map(|k| (0..w.len()).map(|j| w[j] / s * p.v[p.c[i][j]][k]).sum()).collect();
    match c.rng.below(8) {
        0 => p.v[p.c[i][0]].clone(),
        1 | 2 => on,
        3 => on.iter().map(|x| x + size * c.rng.logf(1e-15, 1e-2) * c.rng.normal()).collect(),
        4 => {
            let s = size * c.rng.logf(1.0, 1e4);
            on.iter().map(|x| x + s * c.rng.normal()).collect()
        }
        5 => on.iter().map(|x| x + 0.3 * size * c.rng.normal()).collect(),
        6 => {
            // axis parallel displacement: ties between boxes
            let mut q = on;
            let k = c.rng.below(d);
            q[k] += size * c.rng.f(-2.0, 2.0);
            q
        }
        _ => {
            // inside the bounding box of everything (holes)
            (0..d)
                .map(|k| {
                    let lo = p.v.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min);
                    let hi = p.v.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max);
                    c.rng.f(lo, hi.max(lo + 1e-300))
                })
                .collect()
        }
    }
}

/// the index is a space itself: everything but the search is that of the space inside
fn delegation<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, index: &SpatiallyIndexed<f64, Mesh<f64, D, C>>, name: &str, p: &Plain)
where
    D: fenris::SmallDim,
    C: ConnectivityMut + ElementConnectivity<f64, GeometryDim = D>,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, D, C::ReferenceDim>,
{
    let who = || format!("{name}: the index answers differently than its space");
    let inside = index.space();
    c.check(
        inside.vertices() == mesh.vertices()
            && FiniteElementConnectivity::num_elements(index) == FiniteElementConnectivity::num_elements(mesh)
            && FiniteElementConnectivity::num_nodes(index) == FiniteElementConnectivity::num_nodes(mesh),
        "index_sizes",
        who,
    );
    let mut all: Vec<_> = (0..p.c.len()).map(|_| fenris::geometry::AxisAlignedBoundingBox::from(mesh.vertices()[0].clone())).collect();
    index.populate_bounds_for_all_elements(&mut all);
    let each = index.bounds_for_all_elements();
    let i = c.rng.below(p.c.len());
    for j in 0..p.c.len() {
        let b = inside.bounds_for_element(j);
        let box_of = |f: fn(f64, f64) -> f64, d: usize| p.c[j].iter().map(|&k| p.v[k][d]).reduce(f).unwrap();
        let ok = (0..D::dim()).all(|d| b.min()[d] == box_of(f64::min, d) && b.max()[d] == box_of(f64::max, d));
        c.check(ok && all[j] == b && each[j] == b && index.bounds_for_element(j) == b, "index_bounds", who);
    }
    let n = FiniteElementConnectivity::element_node_count(index, i);
    let mut nodes = vec![0; n];
    FiniteElementConnectivity::populate_element_nodes(index, &mut nodes, i);
    c.check(nodes == p.c[i], "index_nodes", who);
    let mut w: Vec<f64> = (0..n).map(|_| c.rng.f01() + 0.01).collect();
    let s: f64 = w.iter().sum();
    w.iter_mut().for_each(|x| *x /= s);
    let xi: OPoint<f64, C::ReferenceDim> = pt(&w[1..].iter().map(|w| 2.0 * w - 1.0).collect::<Vec<_>>());
    let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
    index.populate_element_basis(i, &mut a, &xi);
    inside.populate_element_basis(i, &mut b, &xi);
    let (mut ga, mut gb) = (OMatrix::<f64, C::ReferenceDim, Dyn>::zeros(n), OMatrix::<f64, C::ReferenceDim, Dyn>::zeros(n));
    index.populate_element_gradients(i, MatrixViewMut::from(&mut ga), &xi);
    inside.populate_element_gradients(i, MatrixViewMut::from(&mut gb), &xi);
    c.check(a == b && ga == gb && ga.iter().any(|x| *x != 0.0), "index_basis", who);
    c.close_slices(&a, &w, 1e-14, "index_barycentric", who);
    let x = index.map_element_reference_coords(i, &xi);
    c.check(
        x == inside.map_element_reference_coords(i, &xi)
            && index.element_reference_jacobian(i, &xi) == inside.element_reference_jacobian(i, &xi)
            && FiniteElementSpace::<f64>::diameter(index, i) == FiniteElementSpace::<f64>::diameter(inside, i)
            && index.closest_point_in_element(i, &x) == inside.closest_point_in_element(i, &x),
        "index_geometry",
        who,
    );
    // an index of an index
    let twice = SpatiallyIndexed::from_space(index.clone());
    c.check(twice.find_closest_element_and_reference_coords(&x) == index.find_closest_element_and_reference_coords(&x), "index_of_index", who);
    c.count("delegations", 1);
}

fn locate<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str, volume: bool)
where
    D: fenris::SmallDim,
    C: ConnectivityMut + ElementConnectivity<f64, GeometryDim = D>,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, D, C::ReferenceDim>,
{
    let p = plain(mesh);
    c.key((name, &p.c));
    c.keyf(&p.v.concat());
    c.desc(format!("{name}: {} cells", p.c.len()));
    let index = SpatiallyIndexed::from_space(mesh.clone());
    delegation(c, mesh, &index, name, &p);
    let order = c.rng.perm(p.c.len());
    let shuffled = SpatiallyIndexed::from_space(Mesh::from_vertices_and_connectivity(
        mesh.vertices().to_vec(),
        order.iter().map(|&i| mesh.connectivity()[i].clone()).collect(),
    ));
    // a linear field and an arbitrary nodal field
    let lin: Vec<f64> = (0..D::dim()).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let l0 = c.rng.f(-1.0, 1.0);
    let f = |x: &[f64]| l0 + x.iter().zip(&lin).map(|(a, b)| a * b).sum::<f64>();
    let ulin = DVector::from_iterator(p.v.len(), p.v.iter().map(|x| f(x)));
    let urnd = DVector::from_iterator(p.v.len(), (0..p.v.len()).map(|_| c.rng.f(-1.0, 1.0)));
    let scale = maxabs(&p.v);
    for _ in 0..12 {
        let x = query(c, &p);
        let q = emb(&x);
        let point: OPoint<f64, D> = pt(&x);
        let Some(ans) = c.no_panic("panic", || index.find_closest_element_and_reference_coords(&point)) else { return };
        let Some((el, xi)) = ans else {
            c.fail("no_element", format!("{name}: nothing found for {x:?}"));
            return;
        };
        let xi = v(&xi);
        if !c.check(el < p.c.len(), "element_range", || format!("{el}")) {
            return;
        }
        let w = weights(&xi);
        c.check(w.iter().all(|w| *w >= -1e-13), "outside_reference_domain", || format!("{name}: {x:?} at {xi:?} of element {el}"));
        let at: [f64; 3] = std::array::from_fn(|d| (0..w.len()).map(|j| w[j] * emb(&p.v[p.c[el][j]])[d]).sum());
        let d = norm3(sub3(at, q));
        let mut best = (f64::INFINITY, 0);
        let mut tol: f64 = 0.0;
        for i in 0..p.c.len() {
            let t = cell(&p, i);
            let di = norm3(sub3(nearest(&t, volume, q), q));
            if di < best.0 {
                best = (di, i);
                tol = tolerance(&t, q);
            }
        }
        tol = tol.max(tolerance(&cell(&p, el), q)) + 1e-13 * (scale + norm3(q));
        c.check(d <= best.0 + tol, "not_closest", || format!("{name}: {x:?}: element {el} at {xi:?} is {d:e} away, element {} only {:e}", best.1, best.0));
        c.count(if best.0 <= tol { "points_in_mesh" } else { "points_outside" }, 1);
        if best.0 > tol && p.c.len() > 1 {
            c.count("outside_nontrivial", 1);
        }
        // the other cell order: same distance
        match shuffled.find_closest_element_and_reference_coords(&point) {
            None => c.fail("no_element", format!("{name}: nothing found for {x:?} (shuffled)")),
            Some((el2, xi2)) => {
                let w2 = weights(&v(&xi2));
                let cell2 = &p.c[order[el2]];
                let at2: [f64; 3] = std::array::from_fn(|d| (0..w2.len()).map(|j| w2[j] * emb(&p.v[cell2[j]])[d]).sum());
                let d2 = norm3(sub3(at2, q));
                c.check((d - d2).abs() <= 2.0 * tol, "depends_on_cell_order", || format!("{name}: {x:?}: {d:e} and {d2:e} after reordering the cells"));
            }
        }
        // interpolation is evaluation at that point
        let val = InterpolateInSpace::<f64, U1>::interpolate_at_point(&index, &point, ulin.as_view())[0];
        c.close(val, f(&[at[0], at[1], at[2]][..D::dim()]), 1e-11 * (1.0 + scale), "interpolated_linear", || format!("{name}: at {x:?}"));
        if best.0 <= 1e-12 * scale {
            c.close(val, f(&x), 1e-11 * (1.0 + scale) + 4.0 * tol, "interpolated_linear_inside", || format!("{name}: at {x:?}"));
        }
        let val = InterpolateInSpace::<f64, U1>::interpolate_at_point(&index, &point, urnd.as_view())[0];
        let want: f64 = (0..w.len()).map(|j| w[j] * urnd[p.c[el][j]]).sum();
        c.close(val, want, 1e-12, "interpolated_field", || format!("{name}: at {x:?}"));
    }
    c.count("cells", p.c.len() as u64);
}

/// gradients (volumetric spaces)
fn gradients<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: fenris::SmallDim,
    C: ConnectivityMut + ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D>,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, D, D>
        + fenris::allocators::TriDimAllocator<f64, D, D, U2>,
{
    let p = plain(mesh);
    let index = SpatiallyIndexed::from_space(mesh.clone());
    let d = D::dim();
    let a: Vec<f64> = (0..2 * d).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let f = |x: &[f64], k: usize| (0..d).map(|i| a[k * d + i] * x[i]).sum::<f64>() + k as f64;
    let u = DVector::from_iterator(2 * p.v.len(), p.v.iter().flat_map(|x| [f(x, 0), f(x, 1)]));
    let size = p.size();
    let points: Vec<OPoint<f64, D>> = (0..6).map(|_| pt(&query(c, &p))).collect();
    let (vals, grads) = (
        InterpolateInSpace::<f64, U2>::interpolate_at_points(&index, &points, u.as_view()),
        InterpolateGradientInSpace::<f64, U2>::interpolate_gradient_at_points(&index, &points, u.as_view()),
    );
    c.check(vals.len() == 6 && grads.len() == 6, "result_count", || name.into());
    for k in 0..6 {
        let (el, _) = index.find_closest_element_and_reference_coords(&points[k]).unwrap();
        let (h, small) = shape(&cell(&p, el));
        let tol = 1e-13 * (p.scale() + size) / small * (1.0 + h / small) + 1e-12;
        for i in 0..d {
            for s in 0..2 {
                c.close(grads[k][(i, s)], a[s * d + i], tol, "interpolated_gradient", || format!("{name}: entry ({i}, {s}) at {}", points[k]));
            }
        }
        let one = InterpolateInSpace::<f64, U2>::interpolate_at_point(&index, &points[k], u.as_view());
        c.check(one == vals[k], "one_point_differs", || name.into());
        let one = InterpolateGradientInSpace::<f64, U2>::interpolate_gradient_at_point(&index, &points[k], u.as_view());
        c.check(one == grads[k], "one_gradient_differs", || name.into());
        c.count("gradients", 1);
    }
}

fn surface(c: &mut Case) -> Mesh<f64, U3, Tri3d3Connectivity> {
    // boundary of a tet mesh, some triangles dropped
    let t = tets(&mut c.rng, &Opts::any(12));
    let p = plain(&t.mesh());
    let mut conn = vec![];
    for (_, cells) in p.faces(Topo::Tet) {
        if cells.len() == 1 && !c.rng.chance(0.2) {
            let (ci, f) = cells[0];
            let lp = &Topo::Tet.faces()[f];
            conn.push(Tri3d3Connectivity([p.c[ci][lp[0]], p.c[ci][lp[1]], p.c[ci][lp[2]]]));
        }
    }
    if conn.is_empty() {
        conn.push(Tri3d3Connectivity([p.c[0][0], p.c[0][1], p.c[0][2]]));
    }
    Mesh::from_vertices_and_connectivity(p.v.iter().map(|x| Point3::new(x[0], x[1], x[2])).collect(), conn)
}
fn soup3(c: &mut Case) -> Mesh<f64, U3, Tet4Connectivity> {
    // unrelated (also overlapping) tets of very different sizes
    let n = c.rng.sized(1, 30, 600);
    let spread = *c.rng.pick(&[10.0, 10.0, 1.0, 0.0]);
    let mut v = vec![];
    let mut conn = vec![];
    for i in 0..n {
        let s = c.rng.logf(1e-4, 10.0);
        let o = [c.rng.normal() * spread, c.rng.normal() * spread, c.rng.normal() * spread];
        let m = random_linear::<3>(&mut c.rng, 0.0);
        for q in [[0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] {
            v.push(p3(&apply(&m, &o, &scale3(q, s))));
        }
        conn.push(Tet4Connectivity([4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3]));
    }
    Mesh::from_vertices_and_connectivity(v, conn)
}
fn soup2(c: &mut Case) -> Mesh<f64, U2, Tri3d2Connectivity> {
    let n = c.rng.sized(1, 40, 900);
    let spread = *c.rng.pick(&[10.0, 10.0, 1.0, 0.0]);
    let mut v = vec![];
    let mut conn = vec![];
    for i in 0..n {
        let s = c.rng.logf(1e-4, 10.0);
        let o = [c.rng.normal() * spread, c.rng.normal() * spread];
        let m = random_linear::<2>(&mut c.rng, 0.0);
        for q in [[0.0; 2], [s, 0.0], [0.0, s]] {
            v.push(p2(&apply(&m, &o, &q)));
        }
        conn.push(Tri3d2Connectivity([3 * i, 3 * i + 1, 3 * i + 2]));
    }
    Mesh::from_vertices_and_connectivity(v, conn)
}

/// many cells around one vertex or edge: their bounding boxes all overlap
fn around<const D: usize>(c: &mut Case, n: usize) -> (Vec<[f64; D]>, Vec<Vec<usize>>) {
    let m = random_linear::<D>(&mut c.rng, 0.5);
    let o: [f64; D] = std::array::from_fn(|_| c.rng.f(-10.0, 10.0));
    let put = |p: [f64; 3]| { let q: [f64; D] = std::array::from_fn(|d| p[d]); apply(&m, &o, &q) };
    let mut v = vec![put([0.0; 3])];
    if D == 3 {
        v.push(put([0.0, 0.0, c.rng.f(0.3, 2.0)]));
    }
    let base = v.len();
    let spiky = c.rng.bool();
    for i in 0..n {
        let t = (i as f64 + if spiky { 0.0 } else { c.rng.f(-0.3, 0.3) }) / n as f64 * std::f64::consts::TAU;
        let r = if spiky { c.rng.f(0.5, 2.0) } else { 1.0 };
        let z = c.rng.f(-0.2, 0.2);
        v.push(put([r * t.cos(), r * t.sin(), z]));
    }
    let mut cells = vec![];
    let drop = if c.rng.bool() { 0.3 } else { 0.0 };
    for i in 0..n {
        if i == 0 || !c.rng.chance(drop) {
            let mut cell: Vec<usize> = (0..base).collect();
            cell.extend([base + i, base + (i + 1) % n]);
            cells.push(cell);
        }
    }
    c.rng.shuffle(&mut cells);
    (v, cells)
}

pub fn s01(run: &mut Run) {
    let rule = "every element compared for every query point (inside, on faces and corners, extremely near and far, in holes), two cell orders, linear and random nodal fields";
    run.section("tri", rule, 8000, 120000, |c| {
        let n = if c.rng.chance(0.01) { 4000 } else { *c.rng.pick(&[1, 4, 40, 200]) };
        let m = tris(&mut c.rng, &Opts::any(n)).mesh();
        locate(c, &m, "tri3", true);
        gradients(c, &m, "tri3");
    });
    run.section("tet", rule, 5000, 75000, |c| {
        let n = if c.rng.chance(0.01) { 1500 } else { *c.rng.pick(&[1, 4, 40]) };
        let m = tets(&mut c.rng, &Opts::any(n)).mesh();
        locate(c, &m, "tet4", true);
        gradients(c, &m, "tet4");
    });
    run.section("surface", rule, 4000, 60000, |c| {
        let m = surface(c);
        locate(c, &m, "tri3d3", false);
    });
    run.section("soup", &format!("unrelated and overlapping cells of very different size: {rule}"), 6000, 90000, |c| {
        if c.rng.bool() {
            let m = soup2(c);
            locate(c, &m, "tri3 soup", true);
        } else {
            let m = soup3(c);
            locate(c, &m, "tet4 soup", true);
        }
    });
    run.section("around", &format!("many triangles around one vertex, many tetrahedra around one edge, some missing: {rule}"), 1500, 30000, |c| {
        let n = if c.rng.chance(0.3) { c.rng.range(60, 300) } else { c.rng.range(3, 60) };
        if c.rng.bool() {
            let (v, cells) = around::<2>(c, n);
            let m: Mesh<f64, U2, Tri3d2Connectivity> = Mesh::from_vertices_and_connectivity(v.iter().map(p2).collect(), cells.iter().map(|x| Tri3d2Connectivity([x[0], x[1], x[2]])).collect());
            locate(c, &m, "tri3 around a vertex", true);
        } else {
            let (v, cells) = around::<3>(c, n);
            let m: Mesh<f64, U3, Tet4Connectivity> = Mesh::from_vertices_and_connectivity(v.iter().map(p3).collect(), cells.iter().map(|x| Tet4Connectivity([x[0], x[1], x[2], x[3]])).collect());
            locate(c, &m, "tet4 around an edge", true);
        }
        c.count("cells_around_a_vertex", n as u64);
    });
    run.section("empty", "no elements: nothing is found, interpolation gives zeros", 20, 20, |c| {
        let m: Mesh<f64, U2, Tri3d2Connectivity> = Mesh::from_vertices_and_connectivity(vec![], vec![]);
        let ix = SpatiallyIndexed::from_space(m);
        let p = pt::<U2>(&[c.rng.normal(), c.rng.normal()]);
        c.keyf(&v(&p));
        c.check(ix.find_closest_element_and_reference_coords(&p).is_none(), "found_in_empty", || String::new());
    });
    run.require("points_in_mesh", 2000);
    run.require("outside_nontrivial", 2000);
    run.require("delegations", 300);
    run.require("gradients", 1000);
    run.require("cells_around_a_vertex", 5000);
}

fn fixed<D, C, S>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: fenris::SmallDim,
    S: fenris::SmallDim,
    C: ConnectivityMut + ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D> + Sync,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    SpatiallyIndexed<f64, Mesh<f64, D, C>>: Sync,
    OPoint<f64, D>: Sync + Send,
    DefaultAllocator: fenris::allocators::TriDimAllocator<f64, D, D, S>,
{
    let p = plain(mesh);
    let s = S::dim();
    let index = SpatiallyIndexed::from_space(mesh.clone());
    let n = c.rng.pick(&[0usize, 1, 2, 7, 40]).clone();
    let mut pts: Vec<Vec<f64>> = vec![];
    for _ in 0..n {
        if !p.c.is_empty() {
            pts.push(query(c, &p));
        } else {
            pts.push((0..D::dim()).map(|_| c.rng.normal()).collect());
        }
    }
    if n > 2 && c.rng.bool() {
        pts[n - 1] = pts[0].clone();
    }
    let points: Vec<OPoint<f64, D>> = pts.iter().map(|x| pt(x)).collect();
    c.key((name, s, n));
    c.keyf(&pts.concat());
    c.keyf(&p.v.concat());
    c.desc(format!("{name}: {} cells, {n} points, {s} components", p.c.len()));
    let what = *c.rng.pick(&[ValuesOrGradients::Both, ValuesOrGradients::OnlyValues, ValuesOrGradients::OnlyGradients]);
    let Some(fi) = c.no_panic("build_panics", || FixedInterpolator::from_space_and_points(&index, &points, what)) else { return };
    let Some(fp) = c.no_panic("build_par_panics", || FixedInterpolator::from_space_and_points_par(&index, &points, what)) else { return };
    c.check(fi == fp, "par_differs", || format!("{name}: serial and parallel operators differ for {what:?}"));
    let tree = serde_json::to_value(&fi).unwrap(); // keeps numbers exactly
    let back: FixedInterpolator<f64> = match serde_json::from_value(tree) {
        Ok(b) => b,
        Err(e) => {
            c.fail("serde", format!("{e}"));
            return;
        }
    };
    c.check(back == fi, "serde", || format!("{name}: operator differs after reading it back"));
    let nodal = |c: &mut Case| DVector::from_iterator(s * p.v.len(), (0..s * p.v.len()).map(|_| c.rng.f(-1.0, 1.0)));
    let (u, w) = (nodal(c), nodal(c));
    let (al, be) = (c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
    let uw = &u * al + &w * be;
    if what.compute_values() {
        let direct = InterpolateInSpace::<f64, S>::interpolate_at_points(&index, &points, u.as_view());
        let mut into = vec![fenris::nalgebra::OVector::<f64, S>::from_element_generic(S::name(), U1, 7.0); n];
        InterpolateInSpace::<f64, S>::interpolate_at_points_into(&index, &points, u.as_view(), &mut into);
        c.check(into == direct, "direct_into_differs", || name.to_string());
        for (who, op) in [("serial", &fi), ("parallel", &fp), ("read back", &back)] {
            let got = op.interpolate::<S>(&u);
            if !c.check(got.len() == n, "value_count", || format!("{name} ({who}): {} values for {n} points", got.len())) {
                return;
            }
            for i in 0..n {
                for k in 0..s {
                    c.close(got[i][k], direct[i][k], 1e-13, "value", || format!("{name} ({who}): component {k} at {:?}", pts[i]));
                }
            }
            let mut into = vec![fenris::nalgebra::OVector::<f64, S>::from_element_generic(S::name(), U1, 7.0); n];
            op.interpolate_into(&mut into, &u);
            c.check(into == got, "into_differs", || format!("{name} ({who})"));
        }
        let (gu, gw, guw) = (fi.interpolate::<S>(&u), fi.interpolate::<S>(&w), fi.interpolate::<S>(&uw));
        for i in 0..n {
            for k in 0..s {
                c.close(guw[i][k], al * gu[i][k] + be * gw[i][k], 1e-12, "not_linear", || format!("{name} at {:?}", pts[i]));
            }
        }
        c.count("values", (n * s) as u64);
    }
    if what.compute_gradients() {
        let direct = InterpolateGradientInSpace::<f64, S>::interpolate_gradient_at_points(&index, &points, u.as_view());
        let mut into = vec![fenris::nalgebra::OMatrix::<f64, D, S>::from_element_generic(D::name(), S::name(), 7.0); n];
        InterpolateGradientInSpace::<f64, S>::interpolate_gradient_at_points_into(&index, &points, u.as_view(), &mut into);
        c.check(into == direct, "direct_into_differs", || name.to_string());
        for (who, op) in [("serial", &fi), ("parallel", &fp), ("read back", &back)] {
            let got = op.interpolate_gradients::<D, S>(&u);
            if !c.check(got.len() == n, "gradient_count", || format!("{name} ({who})")) {
                return;
            }
            for i in 0..n {
                let m = direct[i].iter().fold(1.0, |a: f64, b| a.max(b.abs()));
                for k in 0..s {
                    for d in 0..D::dim() {
                        c.close(got[i][(d, k)], direct[i][(d, k)], 1e-12 * m, "gradient", || format!("{name} ({who}): entry ({d}, {k}) at {:?}", pts[i]));
                    }
                }
            }
            let mut into = vec![fenris::nalgebra::OMatrix::<f64, D, S>::from_element_generic(D::name(), S::name(), 7.0); n];
            op.interpolate_gradients_into(&mut into, &u);
            c.check(into == got, "into_differs", || format!("{name} ({who})"));
        }
        c.count("gradients", (n * s) as u64);
    }
    if p.c.is_empty() {
        c.count("empty_spaces", 1);
    }
}

pub fn s02(run: &mut Run) {
    let rule = "points as in S01 (repeated ones, none, many); values and gradients against direct interpolation, serial against parallel construction, read back from JSON, linear combinations, fresh and reused outputs";
    run.section_threads("tri", rule, 12000, 200000, 4, |c| {
        let n = if c.rng.chance(0.01) { 1000 } else { *c.rng.pick(&[1, 4, 30]) };
        let mut m = tris(&mut c.rng, &Opts::any(n)).mesh();
        if c.rng.chance(0.08) {
            m = Mesh::from_vertices_and_connectivity(if c.rng.bool() { vec![] } else { m.vertices().to_vec() }, vec![]);
        }
        match c.rng.below(3) {
            0 => fixed::<_, _, U1>(c, &m, "tri3"),
            1 => fixed::<_, _, U2>(c, &m, "tri3"),
            _ => fixed::<_, _, U3>(c, &m, "tri3"),
        }
    });
    run.section_threads("tet", rule, 8000, 120000, 4, |c| {
        let n = if c.rng.chance(0.01) { 400 } else { *c.rng.pick(&[1, 4, 12]) };
        let mut m = tets(&mut c.rng, &Opts::any(n)).mesh();
        if c.rng.chance(0.08) {
            m = Mesh::from_vertices_and_connectivity(if c.rng.bool() { vec![] } else { m.vertices().to_vec() }, vec![]);
        }
        match c.rng.below(3) {
            0 => fixed::<_, _, U1>(c, &m, "tet4"),
            1 => fixed::<_, _, U2>(c, &m, "tet4"),
            _ => fixed::<_, _, U3>(c, &m, "tet4"),
        }
    });
    run.section("compressed", "operators given directly as compressed arrays (points without support, repeated nodes) against the weighted sums they define", 10000, 100000, |c| {
        let nodes = c.rng.sized(1, 12, 2000);
        let n = c.rng.sized(0, 8, 1500);
        let mut off = vec![0];
        let (mut ix, mut val, mut gr) = (vec![], vec![], vec![]);
        for _ in 0..n {
            for _ in 0..c.rng.sized(0, 4, 200) {
                ix.push(c.rng.below(nodes));
                val.push(c.rng.f(-1.0, 1.0));
                gr.extend([c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)]);
            }
            off.push(ix.len());
        }
        c.key((&ix, &off));
        let op = FixedInterpolator::from_compressed_values(Some(val.clone()), Some(gr.clone()), ix.clone(), off.clone());
        let u = DVector::from_iterator(3 * nodes, (0..3 * nodes).map(|_| c.rng.f(-1.0, 1.0)));
        let a = op.interpolate::<U3>(&u);
        let b = op.interpolate_gradients::<U2, U3>(&u);
        c.check(a.len() == n && b.len() == n, "compressed_count", || String::new());
        for i in 0..n {
            for k in 0..3 {
                let want: f64 = (off[i]..off[i + 1]).map(|j| val[j] * u[3 * ix[j] + k]).sum();
                c.close(a[i][k], want, 1e-13, "compressed_value", || format!("point {i} component {k}"));
                for d in 0..2 {
                    let want: f64 = (off[i]..off[i + 1]).map(|j| gr[2 * j + d] * u[3 * ix[j] + k]).sum();
                    c.close(b[i][(d, k)], want, 1e-13, "compressed_gradient", || format!("point {i} entry ({d}, {k})"));
                }
            }
        }
        c.count("compressed_points", n as u64);
        // too short nodal vectors are refused, whatever the shape of the operator
        if let Some(m) = ix.iter().max() {
            let short = DVector::from_element(3 * m + 2, 1.0);
            let r = c.catch(|| op.interpolate::<U3>(&short));
            c.check(r.is_err(), "short_vector_accepted", || format!("{} entries for node {m}", 3 * m + 2));
        }
    });
    run.require("values", 5000);
    run.require("gradients", 5000);
    run.require("empty_spaces", 20);
    run.require("compressed_points", 500);
}

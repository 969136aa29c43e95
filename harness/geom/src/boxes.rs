//! G04: axis-aligned boxes.
use crate::geo::*;
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::geometry::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{Const, DefaultAllocator, OPoint, SVector};
use vlib::{Case, Run};

type Pt<const N: usize> = OPoint<f64, Const<N>>;
type Bx<const N: usize> = AxisAlignedBoundingBox<f64, Const<N>>;

fn pt<const N: usize>(v: &[f64; N]) -> Pt<N> {
    OPoint::from(SVector::<f64, N>::from_fn(|i, _| v[i]))
}
fn arr<const N: usize>(p: &Pt<N>) -> [f64; N] {
    std::array::from_fn(|i| p[i])
}
/// Coordinates of very different sizes, with many coincidences.
fn coord(c: &mut Case, s: f64) -> f64 {
    let x = match c.rng.below(8) {
        0..=3 => c.rng.range(0, 6) as f64 - 3.0,
        4 => 0.0,
        5 => c.rng.logf(1e-12, 1e12) * if c.rng.bool() { 1.0 } else { -1.0 },
        _ => c.rng.f(-3.0, 3.0),
    };
    x * s
}
fn bx<const N: usize>(c: &mut Case, s: f64) -> ([f64; N], [f64; N]) {
    let a: [f64; N] = std::array::from_fn(|_| coord(c, s));
    let b: [f64; N] = std::array::from_fn(|i| if c.rng.chance(0.1) { a[i] } else { coord(c, s) });
    (std::array::from_fn(|i| a[i].min(b[i])), std::array::from_fn(|i| a[i].max(b[i])))
}
/// A point related to the box: inside, on the sides, in the planes of the sides, around.
fn probe<const N: usize>(c: &mut Case, lo: &[f64; N], hi: &[f64; N], s: f64) -> [f64; N] {
    std::array::from_fn(|i| match c.rng.below(8) {
        0 => lo[i],
        1 => hi[i],
        2 => 0.5 * (lo[i] + hi[i]),
        3 | 4 => (lo[i] + (hi[i] - lo[i]) * c.rng.f01()).clamp(lo[i], hi[i]),
        5 => lo[i] - (hi[i] - lo[i]) * c.rng.f01(),
        6 => hi[i] + (hi[i] - lo[i]) * c.rng.f01(),
        _ => coord(c, s),
    })
}

fn sets<const N: usize>(c: &mut Case)
where
    DefaultAllocator: DimAllocator<f64, Const<N>> + DimAllocator<usize, Const<N>>,
{
    let s = if c.rng.bool() { 1.0 } else { c.rng.logf(1e-20, 1e20) };
    let (lo, hi) = bx::<N>(c, s);
    let (lo2, hi2) = bx::<N>(c, s);
    c.desc(format!("{lo:?} {hi:?} | {lo2:?} {hi2:?}"));
    c.keyf(&[lo.to_vec(), hi.to_vec(), lo2.to_vec(), hi2.to_vec()].concat());
    let (a, b) = (Bx::<N>::new(pt(&lo), pt(&hi)), Bx::<N>::new(pt(&lo2), pt(&hi2)));
    c.check(arr(a.min()) == lo && arr(a.max()) == hi, "new", || format!("{a:?}"));
    // enclosing
    let e = a.enclose(&b);
    let (elo, ehi): ([f64; N], [f64; N]) = (std::array::from_fn(|i| lo[i].min(lo2[i])), std::array::from_fn(|i| hi[i].max(hi2[i])));
    c.check(arr(e.min()) == elo && arr(e.max()) == ehi, "enclose", || format!("{e:?}"));
    c.check(b.enclose(&a) == e && a.enclose(&a) == a && e.enclose(&a) == e, "enclose_laws", || format!("{e:?}"));
    // intersection test
    let want = (0..N).all(|i| lo[i].max(lo2[i]) <= hi[i].min(hi2[i]));
    c.check(a.intersects(&b) == want && b.intersects(&a) == want && a.intersects(&a), "intersects", || format!("{want}"));
    c.count(if want { "intersecting" } else { "separate" }, 1);
    if want && (0..N).any(|i| lo[i].max(lo2[i]) == hi[i].min(hi2[i])) {
        c.count("touching", 1);
    }
    // extents, center
    let ex: [f64; N] = std::array::from_fn(|i| hi[i] - lo[i]);
    let got = a.extents();
    c.check((0..N).all(|i| got[i] == ex[i]), "extents", || format!("{got:?}"));
    c.check(a.max_extent() == ex.iter().cloned().fold(0.0, f64::max), "max_extent", || format!("{}", a.max_extent()));
    let ce = arr(&a.center());
    c.check((0..N).all(|i| (ce[i] - (0.5 * lo[i] + 0.5 * hi[i])).abs() <= 4e-16 * lo[i].abs().max(hi[i].abs())), "center", || format!("{ce:?}"));
    // corners
    let mut cs: Vec<[u64; N]> = a.corners_iter().map(|p| arr(&p).map(|x| x.to_bits())).collect();
    let mut w: Vec<[u64; N]> = (0..1usize << N).map(|k| std::array::from_fn(|i| if k >> i & 1 == 0 { lo[i] } else { hi[i] }.to_bits())).collect();
    cs.sort();
    w.sort();
    c.check(cs == w, "corners", || format!("{cs:?}"));
    // scaling about the center
    let k = match c.rng.below(5) {
        0 => 0.0,
        1 => 1.0,
        _ => c.rng.f(0.0, 4.0),
    };
    let sc = a.uniformly_scale(k);
    for i in 0..N {
        let m = lo[i].abs().max(hi[i].abs());
        let (x, y) = (0.5 * (lo[i] + hi[i]) - 0.5 * k * ex[i], 0.5 * (lo[i] + hi[i]) + 0.5 * k * ex[i]);
        c.check((sc.min()[i] - x).abs() <= 2e-15 * (1.0 + k) * m && (sc.max()[i] - y).abs() <= 2e-15 * (1.0 + k) * m, "uniformly_scale", || format!("{k} {sc:?}"));
    }
    c.check(vlib::catch_quiet(|| a.uniformly_scale(-0.5)).is_err(), "negative_scale_accepted", || String::new());
    // growing (also shrinking by less than half the box)
    let g = if c.rng.bool() { c.rng.f(0.0, 2.0) * s } else { -0.45 * ex.iter().cloned().fold(f64::INFINITY, f64::min) * c.rng.f01() };
    let gr = a.grow_uniformly(g);
    c.check((0..N).all(|i| gr.min()[i] == lo[i] - g && gr.max()[i] == hi[i] + g), "grow", || format!("{g} {gr:?}"));
    // inverted boxes are refused
    let mut bad = lo;
    let ax = c.rng.below(N);
    bad[ax] = hi[ax] + s;
    c.check(vlib::catch_quiet(|| Bx::<N>::new(pt(&bad), pt(&hi))).is_err(), "inverted_accepted", || String::new());
    bad[ax] = f64::NAN;
    c.check(vlib::catch_quiet(|| Bx::<N>::new(pt(&bad), pt(&hi))).is_err(), "nan_accepted", || String::new());
    // points
    let n = c.rng.sized(0, 12, 400);
    let ps: Vec<[f64; N]> = (0..n).map(|_| std::array::from_fn(|_| coord(c, s))).collect();
    let pp: Vec<Pt<N>> = ps.iter().map(pt).collect();
    let f = Bx::<N>::from_points(&pp);
    if n == 0 {
        c.check(f.is_none(), "from_no_points", || format!("{f:?}"));
    } else if let Some(f) = f {
        let ok = (0..N).all(|i| f.min()[i] == ps.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && f.max()[i] == ps.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max));
        c.check(ok, "from_points", || format!("{ps:?} {f:?}"));
        c.check(pp.iter().all(|p| f.contains_point(p)), "from_points_contains", || format!("{ps:?} {f:?}"));
    } else {
        c.fail("from_points_none", format!("{ps:?}"));
    }
    let single = Bx::<N>::from(pt(&lo));
    c.check(arr(single.min()) == lo && arr(single.max()) == lo, "from_point", || format!("{single:?}"));
    c.check(a.bounding_box() == a, "own_box", || String::new());
}

fn dists<const N: usize>(c: &mut Case)
where
    DefaultAllocator: DimAllocator<f64, Const<N>> + DimAllocator<usize, Const<N>>,
{
    let s = if c.rng.bool() { 1.0 } else { c.rng.logf(1e-20, 1e20) };
    let (lo, hi) = bx::<N>(c, s);
    let a = Bx::<N>::new(pt(&lo), pt(&hi));
    c.keyf(&[lo.to_vec(), hi.to_vec()].concat());
    for _ in 0..4 {
        let q = probe(c, &lo, &hi, s);
        let p = pt(&q);
        c.desc(format!("{lo:?} {hi:?} query {q:?}"));
        let inside = (0..N).all(|i| lo[i] <= q[i] && q[i] <= hi[i]);
        c.check(a.contains_point(&p) == inside, "contains_point", || format!("{inside}"));
        c.count(if inside { "inside" } else { "outside" }, 1);
        let near: [f64; N] = std::array::from_fn(|i| if q[i] < lo[i] { lo[i] } else if q[i] > hi[i] { hi[i] } else { q[i] });
        let got = arr(&a.closest_point_to(&p));
        c.check(got == near, "closest_point", || format!("{got:?}"));
        let d2: f64 = (0..N).map(|i| (near[i] - q[i]).powi(2)).sum();
        let far: f64 = (0..N).map(|i| (lo[i] - q[i]).powi(2).max((hi[i] - q[i]).powi(2))).sum();
        // distances are as accurate as the positions they are differences of
        let m = (0..N).map(|i| lo[i].abs().max(hi[i].abs()).max(q[i].abs())).fold(0.0, f64::max);
        let tol = |d: f64| 1e-14 * d + 4e-15 * m;
        let tol2 = |d: f64| tol(d) * (2.0 * d + tol(d));
        c.close(a.dist2_to(&p), d2, tol2(d2.sqrt()), "dist2", || String::new());
        c.close(a.dist_to(&p), d2.sqrt(), tol(d2.sqrt()), "dist", || String::new());
        c.close(a.max_dist2_to(&p), far, tol2(far.sqrt()), "max_dist2", || String::new());
        c.close(a.max_dist_to(&p), far.sqrt(), tol(far.sqrt()), "max_dist", || String::new());
        c.check(!inside || a.dist2_to(&p) == 0.0, "dist_inside", || format!("{:e}", a.dist2_to(&p)));
        let fp = a.furthest_point_to(&p);
        let fa = arr(&fp);
        c.check((0..N).all(|i| fa[i] == lo[i] || fa[i] == hi[i]), "furthest_point_no_corner", || format!("{fa:?}"));
        c.close((0..N).map(|i| (fa[i] - q[i]).powi(2)).sum::<f64>(), far, tol2(far.sqrt()), "furthest_point", || format!("{fa:?}"));
        // extremal over the box
        for _ in 0..3 {
            let x: [f64; N] = std::array::from_fn(|i| (lo[i] + (hi[i] - lo[i]) * c.rng.f01()).clamp(lo[i], hi[i]));
            let d: f64 = (0..N).map(|i| (x[i] - q[i]).powi(2)).sum();
            c.check(a.dist2_to(&p) <= d + tol2(d.sqrt()) && d <= a.max_dist2_to(&p) + tol2(far.sqrt()), "not_extremal", || format!("{x:?}"));
            c.check(a.contains_point(&pt(&x)), "interior_not_contained", || format!("{x:?}"));
        }
    }
}

fn geometry(c: &mut Case) {
    // bounding boxes of primitives and meshes are the boxes of their vertices
    fn two(b: &Bx<2>, v: &[P2]) -> bool {
        (0..2).all(|i| b.min()[i] == v.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && b.max()[i] == v.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max))
    }
    fn three(b: &Bx<3>, v: &[P3]) -> bool {
        (0..3).all(|i| b.min()[i] == v.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && b.max()[i] == v.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max))
    }
    let s = if c.rng.bool() { 1.0 } else { c.rng.logf(1e-8, 1e8) };
    let off = if c.rng.bool() { 0.0 } else { c.rng.f(-10.0, 10.0) };
    let n = c.rng.range(8, 20);
    let p2: Vec<P2> = (0..n).map(|_| P2::new(coord(c, s) + off * s, coord(c, s) - off * s)).collect();
    let p3: Vec<P3> = (0..n).map(|_| P3::new(coord(c, s) + off * s, coord(c, s) - off * s, coord(c, s))).collect();
    c.keyf(&p2.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    c.desc(format!("{p2:?} {p3:?}"));
    let a2 = |k: usize| &p2[..k];
    c.check(two(&Triangle([p2[0], p2[1], p2[2]]).bounding_box(), a2(3)), "triangle2", || String::new());
    c.check(three(&Triangle([p3[0], p3[1], p3[2]]).bounding_box(), &p3[..3]), "triangle3", || String::new());
    c.check(two(&Quad2d([p2[0], p2[1], p2[2], p2[3]]).bounding_box(), a2(4)), "quad", || String::new());
    c.check(three(&Tetrahedron::from_vertices([p3[0], p3[1], p3[2], p3[3]]).bounding_box(), &p3[..4]), "tetrahedron", || String::new());
    c.check(three(&Hexahedron::from_vertices(std::array::from_fn(|i| p3[i])).bounding_box(), &p3[..8]), "hexahedron", || String::new());
    let k = c.rng.range(1, n);
    c.check(two(&SimplePolygon2d::from_vertices(p2[..k].to_vec()).bounding_box(), &p2[..k]), "polygon", || format!("{k}"));
    // a mesh only covers the vertices its cells use
    let m = c.rng.sized(0, 6, 200);
    let tris: Vec<[usize; 3]> = (0..m).map(|_| { let q = c.rng.perm(n); [q[0], q[1], q[2]] }).collect();
    let quads: Vec<[usize; 4]> = (0..m).map(|_| { let q = c.rng.perm(n); [q[0], q[1], q[2], q[3]] }).collect();
    let hexes: Vec<[usize; 8]> = (0..m).map(|_| { let q = c.rng.perm(n); std::array::from_fn(|i| q[i]) }).collect();
    let b = Mesh::from_vertices_and_connectivity(p2.clone(), tris.iter().map(|t| Tri3d2Connectivity(*t)).collect()).bounding_box();
    let used: Vec<P2> = if m == 0 { vec![P2::origin()] } else { tris.iter().flatten().map(|i| p2[*i]).collect() };
    c.check(two(&b, &used), "tri_mesh", || format!("{tris:?} {b:?}"));
    let b = Mesh::from_vertices_and_connectivity(p2.clone(), quads.iter().map(|t| Quad4d2Connectivity(*t)).collect()).bounding_box();
    let used: Vec<P2> = if m == 0 { vec![P2::origin()] } else { quads.iter().flatten().map(|i| p2[*i]).collect() };
    c.check(two(&b, &used), "quad_mesh", || format!("{quads:?} {b:?}"));
    let b = Mesh::from_vertices_and_connectivity(p3.clone(), quads.iter().map(|t| Tet4Connectivity(*t)).collect()).bounding_box();
    let used: Vec<P3> = if m == 0 { vec![P3::origin()] } else { quads.iter().flatten().map(|i| p3[*i]).collect() };
    c.check(three(&b, &used), "tet_mesh", || format!("{quads:?} {b:?}"));
    let b = Mesh::from_vertices_and_connectivity(p3.clone(), hexes.iter().map(|t| Hex8Connectivity(*t)).collect()).bounding_box();
    let used: Vec<P3> = if m == 0 { vec![P3::origin()] } else { hexes.iter().flatten().map(|i| p3[*i]).collect() };
    c.check(three(&b, &used), "hex_mesh", || format!("{hexes:?} {b:?}"));
    let b = Mesh::from_vertices_and_connectivity(p3.clone(), tris.iter().map(|t| Tri3d3Connectivity(*t)).collect()).bounding_box();
    let used: Vec<P3> = if m == 0 { vec![P3::origin()] } else { tris.iter().flatten().map(|i| p3[*i]).collect() };
    c.check(three(&b, &used), "surface_mesh", || format!("{tris:?} {b:?}"));
    if m > 0 {
        c.count("mesh_boxes", 1);
    }
    // stored boxes come back
    let bx = Bx::<3>::from_points(&p3).unwrap();
    let r: Result<Bx<3>, _> = serde_json::from_value(serde_json::to_value(&bx).unwrap());
    c.check(r.as_ref().ok() == Some(&bx), "stored", || format!("{r:?}"));
}

pub fn g04(run: &mut Run) {
    run.assumption("coordinates are finite and far from overflow; the bounding box of a mesh without cells is the origin, as coded");
    run.section("sets", "boxes in one to four dimensions, also flat and touching: construction, union, intersection test, corners, scaling, growing, points", 80000, 2000000, |c| match c.rng.below(4) {
        0 => sets::<1>(c),
        1 => sets::<2>(c),
        2 => sets::<3>(c),
        _ => sets::<4>(c),
    });
    run.section("dists", "closest and furthest points and distances", 80000, 2000000, |c| match c.rng.below(4) {
        0 => dists::<1>(c),
        1 => dists::<2>(c),
        2 => dists::<3>(c),
        _ => dists::<4>(c),
    });
    run.section("geometry", "boxes of primitives, polygons and meshes", 20000, 500000, geometry);
    for k in ["intersecting", "separate", "touching", "inside", "outside", "mesh_boxes"] {
        run.require(k, 1000);
    }
}

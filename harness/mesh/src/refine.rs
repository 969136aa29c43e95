use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::mesh::refinement::detail::*;
use fenris::mesh::refinement::*;
use fenris::mesh::TriangleMesh2d;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, RealField};
use std::collections::{BTreeMap, BTreeSet};
use vfem::{plain, Opts, Plain, Topo};
use vlib::{Case, Run};

type K = (usize, usize);

/// With coinciding vertices (cracks): only the multisets of vertices and of children, by their coordinates
fn check_slit_step(c: &mut Case, a: &Plain, b: &Plain) -> bool {
    let mut want: BTreeMap<K, Vec<f64>> = BTreeMap::new();
    for t in &a.c {
        for &i in t {
            for &j in t {
                want.insert((i.min(j), i.max(j)), if i == j { a.v[i].clone() } else { (0..2).map(|d| 0.5 * (a.v[i][d] + a.v[j][d])).collect() });
            }
        }
    }
    let sorted = |it: &mut dyn Iterator<Item = &Vec<f64>>| { let mut v: Vec<f64> = it.map(|p| p[0] + 0.37 * p[1]).collect(); v.sort_by(|x, y| x.partial_cmp(y).unwrap()); v };
    let (x, y) = (sorted(&mut want.values()), sorted(&mut b.v.iter()));
    if !c.check(x.len() == y.len(), "slit_vertices", || format!("{} vertices, expected {} (one per vertex and edge, although some coincide)", y.len(), x.len())) {
        return false;
    }
    let tol = 1e-12 * a.scale() + 1e-300;
    if !c.check(x.iter().zip(&y).all(|(x, y)| (x - y).abs() <= tol), "slit_positions", || "positions of vertices and edge midpoints".into()) {
        return false;
    }
    let count = |p: &Plain| p.faces(Topo::Tri).values().fold([0usize; 3], |mut n, x| { n[x.len().min(3) - 1] += 1; n });
    let (n, m) = (count(a), count(b));
    c.count("children_judged", b.c.len() as u64);
    c.check(b.c.len() == 4 * a.c.len() && m[0] == 2 * n[0] && m[1] == 2 * n[1] + 3 * a.c.len() && m[2] == 0, "slit_edges", || format!("boundary/inner/other edges {m:?} after refining {} triangles with {n:?}", a.c.len()))
}

/// Matches the vertices of `b` with the expected points; None if this is no bijection
fn match_points(c: &mut Case, b: &Plain, want: &BTreeMap<K, Vec<f64>>, tol: f64, sig: &str) -> Option<Vec<K>> {
    if !c.check(b.v.len() == want.len(), sig, || format!("{} vertices, expected {} (original vertices in use and one midpoint per edge)", b.v.len(), want.len())) {
        return None;
    }
    let mut taken = BTreeSet::new();
    let mut out = vec![];
    // sorted by first coordinate for matching
    let mut w: Vec<(&K, &Vec<f64>)> = want.iter().collect();
    w.sort_by(|x, y| x.1[0].partial_cmp(&y.1[0]).unwrap());
    for p in &b.v {
        let lo = w.partition_point(|x| x.1[0] < p[0] - tol);
        let mut best: Option<(f64, K)> = None;
        for (k, q) in w[lo..].iter().take_while(|x| x.1[0] <= p[0] + tol) {
            let d = p.iter().zip(*q).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
            if d <= tol && best.map(|x| d < x.0).unwrap_or(true) {
                best = Some((d, **k));
            }
        }
        match best {
            Some((_, k)) if taken.insert(k) => out.push(k),
            x => {
                c.fail(sig, format!("refined vertex {p:?} is not a new original vertex or edge midpoint ({x:?})"));
                return None;
            }
        }
    }
    Some(out)
}

fn canon(t: &[K]) -> Vec<K> {
    let i = (0..t.len()).min_by_key(|&i| t[i]).unwrap();
    (0..t.len()).map(|k| t[(i + k) % t.len()]).collect()
}

fn check_step(c: &mut Case, a: &Plain, b: &Plain) -> bool {
    let e = |x: usize, y: usize| (x.min(y), x.max(y));
    let mut want: BTreeMap<K, Vec<f64>> = BTreeMap::new();
    let mut children: Vec<Vec<K>> = vec![];
    for t in &a.c {
        let (p, q, r) = (t[0], t[1], t[2]);
        for &i in t {
            want.insert((i, i), a.v[i].clone());
        }
        for (x, y) in [(p, q), (q, r), (r, p)] {
            want.insert(e(x, y), (0..2).map(|d| 0.5 * (a.v[x][d] + a.v[y][d])).collect());
        }
        let (pq, qr, rp) = (e(p, q), e(q, r), e(r, p));
        for t in [[(p, p), pq, rp], [pq, (q, q), qr], [rp, qr, (r, r)], [pq, qr, rp]] {
            children.push(canon(&t));
        }
    }
    let tol = 1e-13 * a.scale() + 1e-300;
    let Some(keys) = match_points(c, b, &want, tol, "refined_vertices") else { return false };
    // original vertices keep their coordinates exactly
    for (i, k) in keys.iter().enumerate() {
        if k.0 == k.1 && !c.check(b.v[i] == a.v[k.0], "original_vertex_moved", || format!("{:?} became {:?}", a.v[k.0], b.v[i])) {
            return false;
        }
    }
    let mut got: Vec<Vec<K>> = b.c.iter().map(|t| canon(&t.iter().map(|&i| keys[i]).collect::<Vec<_>>())).collect();
    got.sort();
    children.sort();
    c.count("children_judged", got.len() as u64);
    c.check(got == children, "children", || {
        let k = got.iter().zip(&children).position(|(x, y)| x != y);
        format!("{} children, expected {}; first difference {:?}", got.len(), children.len(), k.map(|k| (&got[k], &children[k])))
    })
}

/// A scheme of our own: red refinement of tetrahedra into 8, to judge the generic driver
struct Red;
#[derive(Clone)]
struct Inter([VertexOrEdgeMidpointVertex; 4]);
impl RefineConnectivity<Tet4Connectivity> for Red {
    type Intermediate = Inter;
    type OutputConnectivity = Tet4Connectivity;
    type VertexLabel = VertexOrEdgeMidpointVertex;
    fn populate_refined_connectivity(&self, conn: &Tet4Connectivity, out: &mut Vec<Inter>) {
        let v = conn.0;
        let e = |i: usize, j: usize| -> VertexOrEdgeMidpointVertex { edge_midpoint([v[i], v[j]]).into() };
        let p = |i: usize| -> VertexOrEdgeMidpointVertex { vertex(v[i]).into() };
        out.push(Inter([p(0), e(0, 1), e(0, 2), e(0, 3)]));
        out.push(Inter([e(1, 0), p(1), e(1, 2), e(1, 3)]));
        out.push(Inter([e(2, 0), e(2, 1), p(2), e(2, 3)]));
        out.push(Inter([e(3, 0), e(3, 1), e(3, 2), p(3)]));
        let (a, b, d, f, g, h) = (e(0, 1), e(2, 3), e(0, 2), e(0, 3), e(1, 3), e(1, 2));
        for (x, y) in [(d, f), (f, g), (g, h), (h, d)] {
            out.push(Inter([a, b, x, y]));
        }
    }
    fn populate_vertex_labels(&self, i: &Inter, labels: &mut Vec<Self::VertexLabel>) {
        labels.extend_from_slice(&i.0)
    }
    fn construct_output_connectivity(&self, _: &Inter, v: &[usize]) -> Result<Tet4Connectivity, InvalidVertexCount> {
        Ok(Tet4Connectivity(v.try_into().map_err(|_| InvalidVertexCount)?))
    }
}

/// Labels that carry a coordinate function: checks that labels are resolved against the input mesh
#[derive(Clone, PartialEq, Eq, Hash)]
struct Blend(Vec<usize>);
impl VertexRepresentation for Blend {
    fn construct_vertex<T, D>(&self, all: &[OPoint<T, D>]) -> OPoint<T, D>
    where
        T: RealField,
        D: DimName,
        DefaultAllocator: DimAllocator<T, D>,
    {
        let mut p = OPoint::<T, D>::origin();
        for &i in &self.0 {
            p.coords += &all[i].coords;
        }
        p.coords /= T::from_usize(self.0.len()).unwrap();
        p
    }
}
struct Star;
impl RefineConnectivity<Quad4d2Connectivity> for Star {
    type Intermediate = [Blend; 3];
    type OutputConnectivity = Tri3d2Connectivity;
    type VertexLabel = Blend;
    fn populate_refined_connectivity(&self, q: &Quad4d2Connectivity, out: &mut Vec<[Blend; 3]>) {
        let mut s = q.0.to_vec();
        s.sort();
        for i in 0..4 {
            out.push([Blend(vec![q.0[i]]), Blend(vec![q.0[(i + 1) % 4]]), Blend(s.clone())]);
        }
    }
    fn populate_vertex_labels(&self, i: &[Blend; 3], labels: &mut Vec<Blend>) {
        labels.extend_from_slice(i)
    }
    fn construct_output_connectivity(&self, _: &[Blend; 3], v: &[usize]) -> Result<Tri3d2Connectivity, InvalidVertexCount> {
        Ok(Tri3d2Connectivity(v.try_into().map_err(|_| InvalidVertexCount)?))
    }
}

pub fn m02(run: &mut Run) {
    run.section("triangles", "conforming triangle meshes (holes, cracks, components, any numbering, rotation and cell order, graded, affinely mapped), 0..3 repetitions: every step replaces each triangle by its four congruent children over shared edge midpoints; measure, orientation, conformity and boundary preserved", 6000, 200000, |c| {
        let mut raw = { let o = Opts::some(&mut c.rng, 40); vfem::tris(&mut c.rng, &o) };
        let slit = c.rng.chance(0.15) && raw.slit(&mut c.rng) > 0;
        let mesh = raw.mesh();
        c.key(&raw.c);
        c.keyf(&raw.flat());
        c.desc(format!("{} triangles, {} vertices", raw.c.len(), raw.v.len()));
        let reps = c.rng.below(if raw.c.len() > 20 { 3 } else { 4 });
        let m0 = plain(&mesh);
        let (meas, scale) = (raw.measure(), raw.max_abs());
        let mut cur: TriangleMesh2d<f64> = mesh.clone();
        for _ in 0..reps {
            let next = refine_uniformly(&cur);
            let ok = if slit { check_slit_step(c, &plain(&cur), &plain(&next)) } else { check_step(c, &plain(&cur), &plain(&next)) };
            if !ok {
                return;
            }
            if slit {
                c.count("cracked_steps", 1);
            }
            c.count("refinement_steps", 1);
            cur = next;
        }
        let rep = plain(&refine_uniformly_repeat(&mesh, reps));
        let b = plain(&cur);
        let coords = |p: &Plain| {
            let mut x: Vec<Vec<u64>> = p.c.iter().map(|t| {
                let q: Vec<Vec<u64>> = t.iter().map(|&i| p.v[i].iter().map(|y| y.to_bits()).collect()).collect();
                let i = (0..3).min_by_key(|&i| q[i].clone()).unwrap();
                (0..3).flat_map(|k| q[(i + k) % 3].clone()).collect()
            }).collect();
            x.sort();
            x
        };
        c.check(rep.v.len() == b.v.len() && coords(&rep) == coords(&b), "repeat", || format!("refining {reps} times at once differs from {reps} single refinements"));
        // global guarantees, from the definition
        let r = &rep;
        c.close(r.measure(Topo::Tri), meas, 1e-11 * (meas + scale * scale * 1e-3), "measure", || format!("{reps} refinements"));
        c.check((0..r.c.len()).all(|i| r.cell_measure(Topo::Tri, i) > 0.0), "orientation", || "refined triangle not positively oriented".into());
        c.check(r.used().iter().all(|u| *u), "unused", || "unused vertex after refinement".into());
        let conf = r.conforming(Topo::Tri);
        c.check(conf.is_ok(), "conforming", || conf.unwrap_err());
        // the boundary is covered by the refined boundary
        let len = |p: &Plain| -> f64 { p.faces(Topo::Tri).iter().filter(|x| x.1.len() == 1).map(|(k, _)| (0..2).map(|d| (p.v[k[0]][d] - p.v[k[1]][d]).powi(2)).sum::<f64>().sqrt()).sum() };
        let count = |p: &Plain| p.faces(Topo::Tri).iter().filter(|x| x.1.len() == 1).count();
        c.check(count(r) == count(&m0) << reps, "boundary_edges", || format!("{} boundary edges after {reps} refinements of {}", count(r), count(&m0)));
        let l = len(&m0);
        c.close(len(r), l, 1e-11 * (l + scale), "boundary_length", || String::new());
    });
    run.section("custom_schemes", "user-defined schemes through the generic driver: red refinement of tetrahedra into 8 (edge midpoint labels) and quadrilaterals into 4 triangles around the centroid (own label type): one vertex per distinct label, at the label's position; measure, orientation, conformity", 3000, 100000, |c| {
        if c.rng.bool() {
            let raw = { let o = Opts::some(&mut c.rng, 36); vfem::tets(&mut c.rng, &o) };
            c.key(&raw.c);
            c.keyf(&raw.flat());
            let mesh = raw.mesh();
            let r = plain(&refine_mesh(&mesh, Red));
            let mut want: BTreeMap<K, Vec<f64>> = BTreeMap::new();
            for t in &raw.c {
                for &i in t {
                    for &j in t {
                        want.insert((i.min(j), i.max(j)), (0..3).map(|d| 0.5 * (raw.v[i][d] + raw.v[j][d])).collect());
                    }
                }
            }
            match_points(c, &r, &want, 1e-13 * raw.max_abs() + 1e-300, "tet_vertices");
            let m = raw.measure();
            c.check(r.c.len() == 8 * raw.c.len(), "tet_count", || format!("{}", r.c.len()));
            c.close(r.measure(Topo::Tet), m, 1e-10 * (m + raw.max_abs().powi(3) * 1e-3), "tet_measure", || String::new());
            c.check((0..r.c.len()).all(|i| r.cell_measure(Topo::Tet, i) > 0.0), "tet_orientation", || String::new());
            let conf = r.conforming(Topo::Tet);
            c.check(conf.is_ok(), "tet_conforming", || conf.unwrap_err());
        } else {
            let raw = { let o = Opts::some(&mut c.rng, 36); vfem::quads(&mut c.rng, &o) };
            c.key(&raw.c);
            c.keyf(&raw.flat());
            let mesh = raw.mesh();
            let r = plain(&refine_mesh(&mesh, Star));
            let mut want: BTreeMap<K, Vec<f64>> = BTreeMap::new();
            for (n, q) in raw.c.iter().enumerate() {
                for &i in q {
                    want.insert((0, i), raw.v[i].to_vec());
                }
                want.insert((1, n), (0..2).map(|d| q.iter().map(|&i| raw.v[i][d]).sum::<f64>() / 4.0).collect());
            }
            match_points(c, &r, &want, 1e-13 * raw.max_abs() + 1e-300, "quad_vertices");
            let m = raw.measure();
            c.close(r.measure(Topo::Tri), m, 1e-11 * (m + raw.max_abs().powi(2) * 1e-2), "quad_measure", || String::new());
            let conf = r.conforming(Topo::Tri);
            c.check(conf.is_ok() && r.c.len() == 4 * raw.c.len(), "quad_conforming", || format!("{conf:?}"));
        }
        c.count("custom_refinements", 1);
    });
    run.require("refinement_steps", 300);
    run.require("cracked_steps", 50);
    run.require("children_judged", 20_000);
    run.require("custom_refinements", 100);
}

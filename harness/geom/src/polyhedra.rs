//! G03: polyhedral meshes: cutting, triangulation, bookkeeping.
use crate::geo::*;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::geometry::*;
use fenris::mesh::procedural::{create_simple_stupid_sphere, create_unit_box_uniform_tet_mesh_3d};
use fenris::mesh::{HexMesh, Tet4Mesh};
use fenris::connectivity::{Hex8Connectivity, Tet4Connectivity};
use fenris::nalgebra::Unit;
use fenris_nested_vec::NestedVec;
use std::collections::{BTreeMap, BTreeSet};
use vlib::{Case, Run};

type Tets = Vec<[P3; 4]>;

/// Reference: clip tetrahedra by n . (x - p) <= 0.
fn clip(tets: &Tets, p: P3, n: V3) -> Tets {
    let mut out = vec![];
    for t in tets {
        let d: [f64; 4] = std::array::from_fn(|i| n.dot(&(t[i] - p)));
        let (ins, outs): (Vec<usize>, Vec<usize>) = (0..4).partition(|i| d[*i] <= 0.0);
        let cut = |i: usize, j: usize| t[i] + (t[j] - t[i]) * (d[i] / (d[i] - d[j]));
        let mut prism = |a: [P3; 3], b: [P3; 3]| {
            out.push([a[0], a[1], a[2], b[0]]);
            out.push([a[1], a[2], b[0], b[1]]);
            out.push([a[2], b[0], b[1], b[2]]);
        };
        match ins.len() {
            0 => {}
            4 => out.push(*t),
            1 => {
                let i = ins[0];
                out.push([t[i], cut(i, outs[0]), cut(i, outs[1]), cut(i, outs[2])]);
            }
            3 => {
                let o = outs[0];
                prism([t[ins[0]], t[ins[1]], t[ins[2]]], [cut(ins[0], o), cut(ins[1], o), cut(ins[2], o)]);
            }
            _ => {
                let (i, j, k, l) = (ins[0], ins[1], outs[0], outs[1]);
                prism([t[i], cut(i, k), cut(i, l)], [t[j], cut(j, k), cut(j, l)]);
            }
        }
    }
    out
}
/// Volume and first moment (about `c`).
fn moments(tets: &Tets, c: P3) -> (f64, V3) {
    let mut v = 0.0;
    let mut m = V3::zeros();
    for t in tets {
        let w = tet_vol(t).abs();
        v += w;
        m += t.iter().map(|p| p - c).sum::<V3>() * (0.25 * w);
    }
    (v, m)
}
fn cell_vertices(m: &PolyMesh3d<f64>, cell: &[usize]) -> Vec<usize> {
    let s: BTreeSet<usize> = cell.iter().flat_map(|f| m.get_face_connectivity(*f).unwrap()).copied().collect();
    s.into_iter().collect()
}
/// Volume and first moment of a convex cell: cones over its faces, whatever their orientation.
fn cell_moments(m: &PolyMesh3d<f64>, cell: &[usize], c: P3) -> (f64, V3) {
    let ids = cell_vertices(m, cell);
    let x = P3::from(ids.iter().map(|i| m.vertices()[*i].coords).sum::<V3>() / ids.len() as f64);
    let mut r = (0.0, V3::zeros());
    for f in cell {
        // repeated cuts in one plane can leave non-convex faces there, so the parts of a face carry signs
        let f = m.get_face_connectivity(*f).unwrap();
        let mut part = (0.0, V3::zeros());
        for k in 1..f.len().saturating_sub(1) {
            let t = [x, m.vertices()[f[0]], m.vertices()[f[k]], m.vertices()[f[k + 1]]];
            let w = tet_vol(&t);
            part.0 += w;
            part.1 += t.iter().map(|p| p - c).sum::<V3>() * (0.25 * w);
        }
        let g = if part.0 < 0.0 { -1.0 } else { 1.0 };
        r.0 += g * part.0;
        r.1 += part.1 * g;
    }
    r
}
fn area(m: &PolyMesh3d<f64>, f: &[usize]) -> V3 {
    let v = |i: usize| m.vertices()[f[i]];
    (1..f.len().saturating_sub(1)).map(|k| (v(k) - v(0)).cross(&(v(k + 1) - v(0))) * 0.5).sum()
}

struct State {
    m: PolyMesh3d<f64>,
    /// Reference decomposition of every cell that may still be present
    cells: Vec<Tets>,
    /// Whether boundary faces are known to point outwards
    outward: bool,
    /// Distinct cells never share boundary faces, conforming
    conforming: bool,
    /// Edges were split or cut planes touched vertices: cells are not strictly convex any more (up to
    /// rounding), so that triangulation and later cuts can create degenerate faces
    touched: usize,
    /// Of these, by the last operation
    fresh: usize,
    /// A face with two corners has appeared (only ever after `touched`)
    degenerate: bool,
    o: P3,
    s: f64,
    eps: f64,
}

fn project(x: [f64; 3], w: [f64; 3]) -> [f64; 3] {
    let d = 1.0 + w[0] * x[0] + w[1] * x[1] + w[2] * x[2];
    x.map(|y| y / d)
}
fn start(c: &mut Case) -> State {
    let f = Frame3::new(&mut c.rng);
    let w: [f64; 3] = if c.rng.bool() { [0.0; 3] } else { std::array::from_fn(|_| c.rng.f(-0.25, 0.25)) };
    let a = tet(&mut c.rng);
    let affine = c.rng.bool();
    let map = |x: [f64; 3]| -> P3 {
        let y = project(x, w);
        let y = if affine { std::array::from_fn(|i| (0..3).map(|j| (a[j + 1][i] - a[0][i]) * y[j]).sum()) } else { y };
        f.p(y)
    };
    let (m, cells): (PolyMesh3d<f64>, Vec<Tets>) = if c.rng.chance(0.6) {
        let n = [c.rng.sized(1, 3, 6), c.rng.sized(1, 3, 6), c.rng.sized(1, 2, 5)];
        let h: [f64; 3] = std::array::from_fn(|_| if c.rng.bool() { 1.0 } else { c.rng.f(0.4, 1.5) });
        let id = |i: usize, j: usize, k: usize| (k * (n[1] + 1) + j) * (n[0] + 1) + i;
        let mut v = vec![];
        for k in 0..=n[2] {
            for j in 0..=n[1] {
                for i in 0..=n[0] {
                    v.push(map([(i as f64 / n[0] as f64 - 0.5) * h[0], (j as f64 / n[1] as f64 - 0.5) * h[1], (k as f64 / n[2] as f64 - 0.5) * h[2]]));
                }
            }
        }
        let mut conn = vec![];
        for k in 0..n[2] {
            for j in 0..n[1] {
                for i in 0..n[0] {
                    conn.push([id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)]);
                }
            }
        }
        // projective maps with positive denominator keep the orientation; the affine one is positive
        let p = c.rng.perm(v.len());
        let mut inv = vec![0; p.len()];
        for (i, x) in p.iter().enumerate() {
            inv[*x] = i;
        }
        let v: Vec<P3> = p.iter().map(|i| v[*i]).collect();
        let conn: Vec<[usize; 8]> = conn.into_iter().map(|q: [usize; 8]| q.map(|i| inv[i])).collect();
        let cells = conn.iter().map(|q| [[0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6]].iter().map(|t| t.map(|i| v[q[i]])).collect()).collect();
        let mesh = HexMesh::from_vertices_and_connectivity(v, conn.into_iter().map(Hex8Connectivity).collect());
        c.count("hex_meshes", 1);
        (PolyMesh3d::from(&mesh), cells)
    } else {
        let (v, conn): (Vec<P3>, Vec<[usize; 4]>) = if c.rng.bool() {
            (tet(&mut c.rng).iter().map(|x| f.p(*x)).collect(), vec![[0, 1, 2, 3]])
        } else {
            let m = create_unit_box_uniform_tet_mesh_3d::<f64>(1);
            let v: Vec<P3> = m.vertices().iter().map(|x| map([x.x - 0.5, x.y - 0.5, x.z - 0.5])).collect();
            let conn = m.connectivity().iter().map(|t| {
                let q = t.0;
                if tet_vol(&q.map(|i| v[i])) < 0.0 { [q[1], q[0], q[2], q[3]] } else { q }
            }).collect();
            (v, conn)
        };
        let cells = conn.iter().map(|q| vec![q.map(|i| v[i])]).collect();
        let mesh = Tet4Mesh::from_vertices_and_connectivity(v, conn.into_iter().map(Tet4Connectivity).collect());
        c.count("tet_meshes", 1);
        (PolyMesh3d::from(&mesh), cells)
    };
    c.keyf(&m.vertices().iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>());
    State { m, cells, outward: true, conforming: true, touched: 0, fresh: 0, degenerate: false, o: P3::from(f.o), s: f.s, eps: 4.0 * f.eps() }
}

fn half_space(c: &mut Case, st: &State) -> (P3, V3, &'static str) {
    let v = st.m.vertices();
    let dir = |c: &mut Case| loop {
        let d = V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal());
        if d.norm() > 0.1 {
            return d.normalize();
        }
    };
    let inner = |c: &mut Case| {
        if v.is_empty() {
            return st.o;
        }
        let mut x = V3::zeros();
        let mut t = 0.0;
        for _ in 0..4 {
            let w = c.rng.f(0.05, 1.0);
            x += v[c.rng.below(v.len())].coords * w;
            t += w;
        }
        P3::from(x / t)
    };
    let kind = c.rng.below(8);
    match kind {
        0 if !v.is_empty() => (v[c.rng.below(v.len())], dir(c), "vertex"),
        1 if st.m.num_faces() > 0 => {
            // through an edge
            let f = st.m.get_face_connectivity(c.rng.below(st.m.num_faces())).unwrap();
            let k = c.rng.below(f.len());
            let (a, b) = (v[f[k]], v[f[(k + 1) % f.len()]]);
            let n = (b - a).cross(&dir(c));
            if n.norm() > 1e-3 * st.s * st.s {
                (a, n.normalize(), "edge")
            } else {
                (a, dir(c), "vertex")
            }
        }
        2 if st.m.num_faces() > 0 => {
            let f = st.m.get_face_connectivity(c.rng.below(st.m.num_faces())).unwrap();
            let n = area(&st.m, f);
            let sgn = if c.rng.bool() { 1.0 } else { -1.0 };
            if n.norm() > 1e-3 * st.s * st.s {
                (v[f[0]], n.normalize() * sgn, "face")
            } else {
                (v[f[0]], dir(c), "vertex")
            }
        }
        3 => {
            let d = dir(c);
            let sgn = if c.rng.chance(0.3) { -1.0 } else { 1.0 };
            (st.o + d * (10.0 * st.s), d * sgn, "far")
        }
        4 => {
            let mut d = V3::zeros();
            d[c.rng.below(3)] = if c.rng.bool() { 1.0 } else { -1.0 };
            (inner(c), d, "axis")
        }
        _ => (inner(c), dir(c), "general"),
    }
}

fn judge(c: &mut Case, st: &mut State, what: &str) {
    if st.touched > 0 && st.m.face_connectivity_iter().any(|f| f.len() < 3) {
        st.degenerate = true;
        c.count("degenerate_histories", 1);
    }
    let st = &*st;
    let m = &st.m;
    let (eps, s) = (st.eps, st.s);
    let vt = 2e2 * eps * s * s;
    // all references in range, closed cells, planar faces
    let mut uses: BTreeMap<usize, usize> = BTreeMap::new();
    let mut got: Vec<(f64, V3)> = vec![];
    for cell in m.cell_connectivity_iter() {
        let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for f in cell {
            *uses.entry(*f).or_default() += 1;
            let Some(f) = m.get_face_connectivity(*f) else {
                c.fail("face_index", format!("{what}: {cell:?}"));
                return;
            };
            if f.len() < 3 && st.degenerate {
                continue;
            }
            if f.len() < 3 {
                c.fail("short_face", format!("{what}: {f:?}"));
                return;
            }
            for k in 0..f.len() {
                let (a, b) = (f[k], f[(k + 1) % f.len()]);
                *edges.entry((a.min(b), a.max(b))).or_default() += 1;
            }
        }
        c.check(st.degenerate || st.touched > st.fresh || edges.iter().all(|(e, n)| *n == 2 && e.0 != e.1), "cell_closed", || format!("{what}: {cell:?} {edges:?}"));
        let (v, mm) = cell_moments(m, cell, st.o);
        got.push((v, mm));
    }
    for f in 0..m.num_faces() {
        let ids = m.get_face_connectivity(f).unwrap();
        let a = area(m, ids);
        if a.norm() > 1e-2 * s * s {
            let n = a.normalize();
            let x0 = m.vertices()[ids[0]];
            for i in ids {
                c.check(n.dot(&(m.vertices()[*i] - x0)).abs() <= 1e4 * eps, "face_planar", || format!("{what}: face {f} {ids:?}"));
            }
        }
    }
    // the right volume and centre of every cell that is not negligible
    let want: Vec<(f64, V3)> = st.cells.iter().map(|t| moments(t, st.o)).collect();
    let thr = 1e3 * vt;
    let unclear = |v: &Vec<(f64, V3)>| v.iter().any(|x| x.0 > 0.1 * thr && x.0 < 10.0 * thr);
    if !unclear(&want) && !unclear(&got) && st.touched <= 2 {
        let (w, g): (Vec<_>, Vec<_>) = (want.iter().filter(|x| x.0 > thr).collect(), got.iter().filter(|x| x.0 > thr).collect());
        if c.check(w.len() == g.len(), "cell_count", || format!("{what}: {} cells, expected {}", g.len(), w.len())) {
            for (k, (a, b)) in w.iter().zip(&g).enumerate() {
                c.close(b.0, a.0, vt, "cell_volume", || format!("{what}: cell {k}"));
                c.check((a.1 - b.1).norm() <= 2.0 * vt * (s + 10.0 * s), "cell_moment", || format!("{what}: cell {k} {a:?} {b:?}"));
            }
            c.count("cells_compared", w.len() as u64);
        }
    }
    let total: f64 = want.iter().map(|x| x.0).sum();
    let o = st.o.coords.norm();
    c.close(if st.touched > 2 { total } else { m.compute_volume() }, total, vt + 1e2 * eps * s * (s + o), "volume", || what.to_string());
    // boundary
    let b = m.find_boundary_faces();
    let expect: Vec<usize> = (0..m.num_faces()).filter(|f| uses.get(f).copied().unwrap_or(0) <= 1).collect();
    c.check(b == expect, "boundary_faces", || format!("{what}: {b:?}"));
    c.check(!st.conforming || st.touched > 0 || uses.values().all(|n| *n <= 2), "shared_by_more_than_two", || what.to_string());
    if st.outward && st.touched <= 1 {
        for cell in m.cell_connectivity_iter() {
            let ids = cell_vertices(m, cell);
            let x = P3::from(ids.iter().map(|i| m.vertices()[*i].coords).sum::<V3>() / ids.len() as f64);
            for f in cell.iter().filter(|f| uses[f] == 1) {
                let ids = m.get_face_connectivity(*f).unwrap();
                let a = area(m, ids);
                let h = a.dot(&(m.vertices()[ids[0]] - x));
                if a.norm() > 1e-4 * s * s && h.abs() > 1e-4 * s * a.norm() {
                    c.check(h > 0.0, "outward", || format!("{what}: face {f} {ids:?} points inwards"));
                    c.count("outward_faces", 1);
                }
            }
        }
    }
}

fn history(c: &mut Case) {
    let mut st = start(c);
    judge(c, &mut st, "initial");
    let mut log = String::new();
    let mut cuts = 0;
    let n = c.rng.range(1, 6);
    for _ in 0..n {
        if c.failed() {
            return;
        }
        let before = st.touched;
        let op = c.rng.below(12);
        match op {
            0..=4 => {
                let (p, n, kind) = half_space(c, &st);
                let hs = HalfSpace::from_point_and_normal(p, Unit::new_unchecked(n));
                log += &format!(" cut({kind} {p:?} {n:?})");
                c.desc(format!("{log} on {}", st.m.vertices().len()));
                let Some(m) = c.no_panic("cut_panics", || st.m.intersect_half_space(&hs)) else { return };
                for v in m.vertices() {
                    c.check(n.dot(&(v - p)) <= 64.0 * st.eps, "vertex_outside", || format!("{v:?}{log}"));
                }
                // the other side
                let other = st.m.intersect_half_space(&hs.complement());
                let (a, b, t) = (m.compute_volume(), other.compute_volume(), st.m.compute_volume());
                c.close(if st.touched > 1 { t } else { a + b }, t, 1e2 * st.eps * st.s * (4.0 * st.s + st.o.coords.norm()), "two_sides", || format!("{a} {b} {t}{log}"));
                let near = st.m.vertices().iter().any(|v| n.dot(&(v - p)).abs() <= 1e3 * st.eps);
                st.touched += near as usize;
                st.m = m;
                st.cells = st.cells.iter().map(|t| clip(t, p, n)).collect();
                cuts += 1;
                c.count(match kind {
                    "vertex" => "cuts_vertex",
                    "edge" => "cuts_edge",
                    "face" => "cuts_face",
                    "far" => "cuts_far",
                    _ => "cuts_general",
                }, 1);
            }
            5 => {
                // with a tetrahedron or a box
                let mut center = if st.m.vertices().is_empty() { st.o } else { st.m.vertices()[c.rng.below(st.m.vertices().len())] };
                if c.rng.chance(0.3) {
                    st.touched += 3;
                } else {
                    center += V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (0.1 * st.s);
                }
                let k = st.s * c.rng.f(0.3, 2.0);
                let (faces, m): (Vec<(P3, V3)>, _) = if c.rng.bool() {
                    let t = tet(&mut c.rng).map(|x| center + V3::new(x[0], x[1], x[2]) * k);
                    let cen = P3::from(t.iter().map(|x| x.coords).sum::<V3>() / 4.0);
                    let fs = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]].iter().map(|q| {
                        let mut n = (t[q[1]] - t[q[0]]).cross(&(t[q[2]] - t[q[0]])).normalize();
                        if n.dot(&(cen - t[q[0]])) > 0.0 {
                            n = -n;
                        }
                        (t[q[0]], n)
                    }).collect();
                    log += &format!(" tet{t:?}");
                    (fs, c.no_panic("intersect_tet_panics", || st.m.intersect_convex_polyhedron(&Tetrahedron::from_vertices(t))))
                } else {
                    let h = [k, k * 0.7, k * 1.3];
                    let r = [[-1., -1., -1.], [1., -1., -1.], [1., 1., -1.], [-1., 1., -1.], [-1., -1., 1.], [1., -1., 1.], [1., 1., 1.], [-1., 1., 1.]];
                    let v: [P3; 8] = r.map(|x: [f64; 3]| center + V3::new(x[0] * h[0], x[1] * h[1], x[2] * h[2]));
                    let mut fs = vec![];
                    for i in 0..3 {
                        for g in [-1.0, 1.0] {
                            let mut n = V3::zeros();
                            n[i] = g;
                            fs.push((center + n * h[i], n));
                        }
                    }
                    log += &format!(" box{center:?} {h:?}");
                    (fs, c.no_panic("intersect_box_panics", || st.m.intersect_convex_polyhedron(&Hexahedron::from_vertices(v))))
                };
                let Some(m) = m else { return };
                for (p, n) in &faces {
                    st.touched += st.m.vertices().iter().any(|v| n.dot(&(v - p)).abs() <= 1e3 * st.eps) as usize;
                }
                st.m = m;
                for (p, n) in faces {
                    st.cells = st.cells.iter().map(|t| clip(t, p, n)).collect();
                }
                cuts += 1;
                c.count("convex_intersections", 1);
            }
            6 => {
                // selection in arbitrary order; the reference keeps the matching parts
                let got: Vec<(f64, V3)> = st.m.cell_connectivity_iter().map(|q| cell_moments(&st.m, q, st.o)).collect();
                let want: Vec<f64> = st.cells.iter().map(|t| moments(t, st.o).0).collect();
                let thr = 2e5 * st.eps * st.s * st.s;
                let g: Vec<usize> = (0..got.len()).filter(|i| got[*i].0 > thr).collect();
                let w: Vec<usize> = (0..want.len()).filter(|i| want[*i] > thr).collect();
                if g.len() != w.len() {
                    continue; // unclear which is which
                }
                let mut p = c.rng.perm(g.len());
                p.truncate(c.rng.range(0, g.len()));
                let list: Vec<usize> = p.iter().map(|i| g[*i]).collect();
                log += &format!(" keep{list:?}");
                let Some(m) = c.no_panic("keep_panics", || st.m.keep_cells(&list)) else { return };
                c.check(m.num_cells() == list.len(), "keep_cells_count", || log.clone());
                for (k, i) in list.iter().enumerate() {
                    let (a, b) = (st.m.get_cell_connectivity(*i).unwrap(), m.get_cell_connectivity(k).unwrap_or(&[]));
                    let co = |m: &PolyMesh3d<f64>, q: &[usize]| -> Vec<Vec<[u64; 3]>> { q.iter().map(|f| m.face_vertices(*f).map(|v| [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]).collect()).collect() };
                    c.check(co(&st.m, a) == co(&m, b), "keep_cells_geometry", || format!("{k} {i}{log}"));
                }
                let used: BTreeSet<usize> = m.face_connectivity_iter().flatten().copied().collect();
                let usedf: BTreeSet<usize> = m.cell_connectivity_iter().flatten().copied().collect();
                c.check(used.len() == m.vertices().len() && usedf.len() == m.num_faces(), "keep_cells_leftovers", || log.clone());
                st.cells = p.iter().map(|i| st.cells[w[*i]].clone()).collect();
                st.m = m;
                st.outward = false;
                c.count("selections", 1);
            }
            7 => {
                let d = V3::new(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0)) * st.s;
                let before = st.m.vertices().to_vec();
                if c.rng.bool() {
                    st.m.translate(&d);
                } else {
                    st.m = st.m.clone().translated(&d);
                }
                c.check(before.iter().map(|x| x + d).eq(st.m.vertices().iter().copied()), "translate", || log.clone());
                st.cells = st.cells.iter().map(|t| t.iter().map(|q| q.map(|x| x + d)).collect()).collect();
                st.o += d;
                st.eps += 1e-15 * st.s;
                log += &format!(" move {d:?}");
            }
            8 => {
                let copy = st.m.clone();
                st.m.dedup_faces();
                if !st.conforming || cuts > 0 {
                    // faces created by a cut are never equal to others, except slivers
                } else {
                    c.check(copy == st.m, "dedup_changes_conforming_mesh", || log.clone());
                }
                log += " dedup";
            }
            9 => {
                if st.m.num_cells() > 200 {
                    continue;
                }
                let d = V3::new(c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0)) * st.s;
                let other = st.m.clone().translated(&d);
                let third = PolyMesh3d::<f64>::new_empty();
                st.m = PolyMesh::concatenate(&[st.m.clone(), third, other]);
                let moved: Vec<Tets> = st.cells.iter().map(|t| t.iter().map(|q| q.map(|x| x + d)).collect()).collect();
                st.cells.extend(moved);
                st.eps += 1e-15 * st.s;
                log += &format!(" double {d:?}");
                c.count("concatenations", 1);
            }
            10 => {
                if st.m.vertices().len() > 400 {
                    continue;
                }
                let edges: BTreeSet<(usize, usize)> = st.m.face_connectivity_iter().flat_map(|f| (0..f.len()).map(|k| (f[k].min(f[(k + 1) % f.len()]), f[k].max(f[(k + 1) % f.len()]))).collect::<Vec<_>>()).collect();
                let old = st.m.clone();
                if c.rng.bool() {
                    st.m.split_edges();
                } else {
                    st.m.split_edges_n_times(1);
                }
                c.check(st.m.vertices().len() == old.vertices().len() + edges.len() && st.m.vertices()[..old.vertices().len()] == *old.vertices(), "split_vertices", || log.clone());
                for (f, g) in old.face_connectivity_iter().zip(st.m.face_connectivity_iter()) {
                    let ok = g.len() == 2 * f.len() && (0..f.len()).all(|k| {
                        let (a, b) = (old.vertices()[f[k]], old.vertices()[f[(k + 1) % f.len()]]);
                        g[2 * k] == f[k] && (st.m.vertices()[g[2 * k + 1]] - fenris::nalgebra::center(&a, &b)).norm() <= st.eps
                    });
                    c.check(ok, "split_faces", || format!("{f:?} {g:?}{log}"));
                }
                log += " split";
                st.touched += 2;
                st.conforming = false;
                c.count("splits", 1);
            }
            _ => {
                if st.m.num_cells() > 60 || st.m.num_faces() > 300 {
                    continue;
                }
                log += " triangulate";
                c.desc(log.clone());
                if st.m.face_connectivity_iter().any(|f| f.len() < 3) {
                    c.check(st.m.triangulate().is_err(), "triangulate_short_faces", || log.clone());
                    continue;
                }
                let Some(Ok(m)) = c.no_panic("triangulate_panics", || st.m.triangulate().map_err(|e| e.to_string())) else {
                    c.fail("triangulate_refuses", log.clone());
                    return;
                };
                c.check(m.vertices() == st.m.vertices(), "triangulate_vertices", || log.clone());
                if c.rng.chance(0.3) {
                    // a cell without faces contributes nothing
                    let mut cells: Vec<Vec<usize>> = st.m.cell_connectivity_iter().map(|q| q.to_vec()).collect();
                    for _ in 0..c.rng.range(1, 3) {
                        let at = c.rng.below(cells.len() + 1);
                        cells.insert(at, vec![]);
                    }
                    let faces: Vec<Vec<usize>> = st.m.face_connectivity_iter().map(|f| f.to_vec()).collect();
                    let e = PolyMesh3d::from_poly_data(st.m.vertices().to_vec(), NestedVec::from(&faces), NestedVec::from(&cells));
                    let t = c.no_panic("triangulate_empty_cell_panics", || e.triangulate().map_err(|e| e.to_string()));
                    let same = matches!(&t, Some(Ok(t)) if t.face_connectivity_iter().eq(m.face_connectivity_iter()) && t.cell_connectivity_iter().eq(m.cell_connectivity_iter()));
                    c.check(same, "triangulate_empty_cell", || format!("{cells:?}{log}"));
                    c.count("empty_cells_triangulated", 1);
                }
                c.check(m.face_connectivity_iter().all(|f| f.len() == 3) && m.cell_connectivity_iter().all(|q| q.len() == 4), "triangulate_shape", || log.clone());
                let mut sets: Vec<Vec<usize>> = m.face_connectivity_iter().map(|f| { let mut f = f.to_vec(); f.sort(); f }).collect();
                sets.sort();
                let k = sets.len();
                sets.dedup();
                c.check(k == sets.len(), "triangulate_duplicate_faces", || log.clone());
                // boundary area is conserved
                let ba = |m: &PolyMesh3d<f64>, all: bool| -> f64 {
                    let mut n = vec![0; m.num_faces()];
                    m.cell_connectivity_iter().flatten().for_each(|f| n[*f] += 1);
                    (0..m.num_faces()).filter(|f| n[*f] == 1 || (all && n[*f] > 0)).map(|f| area(m, m.get_face_connectivity(f).unwrap()).norm()).sum()
                };
                c.close(if st.touched > 0 { 0.0 } else { ba(&m, false) }, if st.touched > 0 { 0.0 } else { ba(&st.m, false) }, 1e3 * st.eps * st.s, "triangulate_boundary_area", || log.clone());
                // every tetrahedron lies in its cell: volumes per cell, in order
                let vols: Vec<f64> = m.cell_connectivity_iter().map(|q| cell_moments(&m, q, st.o).0).collect();
                let total: f64 = st.cells.iter().map(|t| moments(t, st.o).0).sum();
                c.close(if st.touched > 1 { total } else { vols.iter().sum::<f64>() }, total, 1e3 * st.eps * st.s * st.s, "triangulate_volume", || log.clone());
                let Some(Ok(t)) = c.no_panic("to_tets_panics", || Tet4Mesh::try_from(&m).map_err(|e| e.to_string())) else {
                    c.fail("to_tets_refuses", log.clone());
                    return;
                };
                c.check(t.vertices() == m.vertices() && t.connectivity().len() == m.num_cells(), "to_tets_size", || log.clone());
                let mut cells = vec![];
                for (q, t) in m.cell_connectivity_iter().zip(t.connectivity()) {
                    let mut ids = t.0.to_vec();
                    ids.sort();
                    c.check(st.touched > 0 || ids == cell_vertices(&m, q), "to_tets_vertices", || format!("{ids:?}{log}"));
                    let p = t.0.map(|i| m.vertices()[i]);
                    let tv = tet_vol(&p);
                    c.check(tv > -1e2 * st.eps * st.s * st.s, "to_tets_orientation", || format!("{tv}{log}"));
                    cells.push(vec![p]);
                }
                if st.touched > 1 {
                    // the cells can have degenerated, so that nothing is known about their tetrahedra
                    c.count("degenerate_triangulations", 1);
                    return;
                }
                st.m = m;
                st.cells = cells;
                st.outward &= st.touched == 0;
                c.count("triangulations", 1);
            }
        }
        c.desc(log.clone());
        st.fresh = (before == 0 && st.touched == 1) as usize;
        judge(c, &mut st, &log);
    }
    c.count("histories", 1);
    if cuts > 1 {
        c.count("repeatedly_cut", 1);
    }
}

/// Meshes with arbitrary (also senseless) incidence: bookkeeping against naive versions.
fn bookkeeping(c: &mut Case) {
    let nv = c.rng.sized(0, 8, 120);
    let nf = if nv == 0 { 0 } else { c.rng.sized(0, 10, 200) };
    let nc = c.rng.sized(0, 6, 120);
    let verts: Vec<P3> = (0..nv).map(|_| P3::new(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0))).collect();
    let mut faces: Vec<Vec<usize>> = vec![];
    for _ in 0..nf {
        if !faces.is_empty() && c.rng.chance(0.4) {
            let mut f = c.rng.pick(&faces).clone();
            if c.rng.bool() {
                f.reverse();
            } else {
                c.rng.shuffle(&mut f);
            }
            faces.push(f);
        } else {
            let k = c.rng.sized(0, nv.min(5), nv.min(30));
            faces.push(c.rng.perm(nv)[..k].to_vec());
        }
    }
    let cells: Vec<Vec<usize>> = (0..nc).map(|_| (0..if nf == 0 { 0 } else { c.rng.sized(0, 5, 60) }).map(|_| c.rng.below(nf)).collect()).collect();
    c.key((&faces, &cells));
    c.desc(format!("{verts:?} {faces:?} {cells:?}"));
    let nested = |v: &Vec<Vec<usize>>| NestedVec::from(v);
    let lists = |it: &mut dyn Iterator<Item = &[usize]>| -> Vec<Vec<usize>> { it.map(|x| x.to_vec()).collect() };
    let m = PolyMesh3d::from_poly_data(verts.clone(), nested(&faces), nested(&cells));
    c.check(m.vertices() == verts && lists(&mut m.face_connectivity_iter()) == faces && lists(&mut m.cell_connectivity_iter()) == cells, "from_poly_data", || format!("{m:?}"));
    c.check(m.num_faces() == nf && m.num_cells() == nc, "counts", || format!("{} {}", m.num_faces(), m.num_cells()));
    for i in 0..nf + 2 {
        c.check(m.get_face_connectivity(i) == faces.get(i).map(|x| &x[..]), "get_face_connectivity", || format!("{i}"));
        let fv: Vec<P3> = m.face_vertices(i).copied().collect();
        c.check(fv == faces.get(i).map_or(vec![], |f| f.iter().map(|k| verts[*k]).collect::<Vec<_>>()), "face_vertices", || format!("{i} {fv:?}"));
        match (m.get_face(i), faces.get(i)) {
            (None, None) => {}
            (Some(g), Some(f)) => {
                let v: Vec<_> = (0..f.len() + 1).map(|k| g.get_vertex(k)).collect();
                c.check(g.num_vertices() == f.len() && (0..f.len()).all(|k| v[k] == Some(verts[f[k]])) && v[f.len()].is_none(), "get_face", || format!("{i} {v:?}"));
                if f.len() >= 3 {
                    let a = area(&m, f);
                    c.check((g.compute_area_vector() - a).norm() <= 1e-14, "area_vector", || format!("{i}"));
                    if a.norm() > 1e-3 {
                        let n = a.normalize();
                        c.check((g.compute_normal() - n).norm() <= 1e-11, "normal", || format!("{i}"));
                        let pl = g.compute_plane();
                        c.check(pl.map_or(false, |p| (p.normal().into_inner() - n).norm() < 1e-11 && p.point() == &verts[f[0]]), "plane", || format!("{i}"));
                        let hs = g.compute_half_space();
                        c.check(hs.map_or(false, |p| (p.normal() + n).norm() < 1e-11 && p.point() == &verts[f[0]]), "half_space", || format!("{i}"));
                    }
                }
            }
            (a, b) => c.fail("get_face_range", format!("{i} {a:?} {b:?}")),
        }
    }
    for i in 0..nc + 2 {
        c.check(m.get_cell_connectivity(i) == cells.get(i).map(|x| &x[..]), "get_cell_connectivity", || format!("{i}"));
    }
    let fc = m.compute_face_cell_connectivity();
    let want: Vec<Vec<usize>> = (0..nf).map(|f| (0..nc).flat_map(|q| cells[q].iter().filter(|x| **x == f).map(move |_| q)).collect()).collect();
    c.check(lists(&mut fc.iter()) == want, "face_cell_connectivity", || format!("{fc:?}"));
    let b = m.find_boundary_faces();
    c.check(b == (0..nf).filter(|f| want[*f].len() <= 1).collect::<Vec<_>>(), "find_boundary_faces", || format!("{b:?}"));
    // deduplication
    let mut d = m.clone();
    d.dedup_faces();
    let set = |f: &[usize]| { let mut f = f.to_vec(); f.sort(); f };
    let mut first: Vec<Vec<usize>> = vec![];
    let mut relabel = vec![];
    for f in &faces {
        let k = first.iter().position(|g| set(g) == set(f)).unwrap_or_else(|| { first.push(f.clone()); first.len() - 1 });
        relabel.push(k);
    }
    c.count("duplicate_faces", (faces.len() - first.len()) as u64);
    c.check(d.vertices() == verts && lists(&mut d.face_connectivity_iter()) == first, "dedup_faces", || format!("{d:?}"));
    let rc: Vec<Vec<usize>> = cells.iter().map(|q| q.iter().map(|f| relabel[*f]).collect()).collect();
    c.check(lists(&mut d.cell_connectivity_iter()) == rc, "dedup_cells", || format!("{d:?}"));
    // selection, also with repetitions
    let list: Vec<usize> = if nc == 0 { vec![] } else { (0..c.rng.range(0, 6)).map(|_| c.rng.below(nc)).collect() };
    let k = m.keep_cells(&list);
    let kf: Vec<usize> = list.iter().flat_map(|q| cells[*q].clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let kv: Vec<usize> = kf.iter().flat_map(|f| faces[*f].clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let wf: Vec<Vec<usize>> = kf.iter().map(|f| faces[*f].iter().map(|v| kv.binary_search(v).unwrap()).collect()).collect();
    let wc: Vec<Vec<usize>> = list.iter().map(|q| cells[*q].iter().map(|f| kf.binary_search(f).unwrap()).collect()).collect();
    c.check(k.vertices() == kv.iter().map(|v| verts[*v]).collect::<Vec<_>>() && lists(&mut k.face_connectivity_iter()) == wf && lists(&mut k.cell_connectivity_iter()) == wc, "keep_cells", || format!("{list:?} {k:?}"));
    if nc > 0 {
        c.check(panics(|| m.keep_cells(&[nc])), "keep_cells_out_of_range", || String::new());
    }
    // concatenation
    let parts = [m.clone(), k.clone(), PolyMesh3d::new_empty(), d.clone()];
    let j = PolyMesh::concatenate(parts.iter().take(c.rng.range(0, 4)));
    let cnt = [0, 1, 2, 3, 4].into_iter().find(|n| parts[..*n].iter().map(|p| p.vertices().len()).sum::<usize>() == j.vertices().len() && parts[..*n].iter().map(|p| p.num_faces()).sum::<usize>() == j.num_faces() && parts[..*n].iter().map(|p| p.num_cells()).sum::<usize>() == j.num_cells());
    if let Some(n) = cnt {
        let (mut v, mut f, mut q) = (vec![], vec![], vec![]);
        for p in &parts[..n] {
            let (vo, fo) = (v.len(), f.len());
            v.extend_from_slice(p.vertices());
            f.extend(p.face_connectivity_iter().map(|x| x.iter().map(|i| i + vo).collect::<Vec<_>>()));
            q.extend(p.cell_connectivity_iter().map(|x| x.iter().map(|i| i + fo).collect::<Vec<_>>()));
        }
        c.check(j.vertices() == v && lists(&mut j.face_connectivity_iter()) == f && lists(&mut j.cell_connectivity_iter()) == q, "concatenate", || format!("{j:?}"));
    } else {
        c.fail("concatenate_size", format!("{j:?}"));
    }
    // storage
    let t = serde_json::to_string(&m).unwrap();
    let r: Result<PolyMesh3d<f64>, _> = serde_json::from_str(&t);
    let same = r.as_ref().map_or(false, |r| r.num_faces() == nf && lists(&mut r.cell_connectivity_iter()) == cells && lists(&mut r.face_connectivity_iter()) == faces && r.vertices().iter().zip(&verts).all(|(a, b)| (a - b).norm() < 1e-15) && r.vertices().len() == nv);
    c.check(same, "serde", || format!("{r:?}"));
    // printed form lists every vertex, face and cell
    let text = m.to_string();
    let sec = |h: &str| -> Vec<Vec<usize>> { text.split(h).nth(1).unwrap_or("").lines().skip(1).take_while(|l| l.starts_with("    ")).map(|l| l.split(':').nth(1).unwrap_or("").split(',').filter_map(|x| x.trim().parse().ok()).collect()).collect() };
    c.check(sec("Face vertex indices:") == faces && sec("Cell face indices:") == cells, "display", || text.clone());
    // refused input
    let bad = c.rng.range(nv, nv + 2);
    let mut f2 = faces.clone();
    f2.push(vec![bad]);
    c.check(panics(|| PolyMesh3d::from_poly_data(verts.clone(), nested(&f2), NestedVec::new())), "bad_vertex_accepted", || String::new());
    let mut c2 = cells.clone();
    c2.push(vec![nf]);
    c.check(panics(|| PolyMesh3d::from_poly_data(verts.clone(), nested(&faces), nested(&c2))), "bad_face_accepted", || String::new());
    // triangulation refuses faces with fewer than three corners
    if faces.iter().any(|f| f.len() < 3) {
        c.check(m.triangulate().is_err(), "triangulate_short_faces", || String::new());
        c.count("short_faces", 1);
    }
    // cells that are no tetrahedra are refused
    if cells.iter().any(|q| q.len() != 4) && cells.iter().all(|q| q.len() != 4) {
        c.check(Tet4Mesh::try_from(&m).is_err(), "to_tets_accepts_non_tets", || String::new());
    }
}
/// Whether the call panics.
fn panics<R>(f: impl FnOnce() -> R) -> bool {
    vlib::catch_quiet(f).is_err()
}

/// Closest points of the faces of a cut mesh, which are general convex polygons.
fn faces(c: &mut Case) {
    let mut st = start(c);
    for _ in 0..c.rng.range(0, 3) {
        let (p, n, _) = half_space(c, &st);
        let hs = HalfSpace::from_point_and_normal(p, Unit::new_unchecked(n));
        let m = st.m.intersect_half_space(&hs);
        if st.m.vertices().iter().any(|v| n.dot(&(v - p)).abs() <= 1e3 * st.eps) {
            st.touched += 1;
        }
        if m.num_cells() == 0 || st.touched > 1 {
            break;
        }
        st.m = m;
    }
    for i in 0..st.m.num_faces() {
        let f = st.m.get_face_connectivity(i).unwrap();
        let a = area(&st.m, f).norm();
        let v: Vec<P3> = f.iter().map(|k| st.m.vertices()[*k]).collect();
        let short = (0..v.len()).map(|k| (v[k] - v[(k + 1) % v.len()]).norm()).fold(f64::INFINITY, f64::min);
        if a < 1e-3 * st.s * st.s || short < 1e-3 * st.s {
            continue;
        }
        let face = st.m.get_face(i).unwrap();
        let q = match c.rng.below(4) {
            0 => v[c.rng.below(v.len())],
            1 => {
                let t = c.rng.f01();
                v[0] + (v[1] - v[0]) * t
            }
            _ => v[c.rng.below(v.len())] + V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (st.s * c.rng.f(0.0, 1.0)),
        };
        let d = (1..v.len() - 1).map(|k| tri_dist(q, v[0], v[k], v[k + 1])).fold(f64::INFINITY, f64::min);
        let r = face.closest_point(&q);
        let tol = 1e5 * st.eps;
        c.close(r.distance, d, tol, "face_distance", || format!("{v:?} {q:?} {r:?}"));
        c.close((r.closest_point - q).norm(), d, tol, "face_closest", || format!("{v:?} {q:?} {r:?}"));
        c.count("general_faces", (v.len() > 4) as u64);
    }
}

fn sphere(c: &mut Case) {
    let n = c.rng.range(1, 6);
    let r = if c.rng.bool() { 1.0 } else { c.rng.logf(1e-3, 1e3) };
    let o = P3::new(c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0)) * if c.rng.bool() { 0.0 } else { r };
    c.keyf(&[n as f64, r, o.x, o.y, o.z]);
    let Some(m) = c.no_panic("sphere_panics", || create_simple_stupid_sphere(&o, r, n)) else { return };
    c.desc(format!("sphere {o:?} {r} {n}"));
    let st = State { m, cells: vec![], outward: false, conforming: true, touched: 0, fresh: 0, degenerate: false, o, s: r, eps: 1e-15 * (o.coords.norm() + 4.0 * r) };
    let m = &st.m;
    if !c.check(m.num_cells() == 1, "sphere_cells", || format!("{}", m.num_cells())) {
        return;
    }
    // all tangent half spaces
    let mut planes = vec![];
    for i in 0..n {
        for j in 0..n {
            let (t, p) = (std::f64::consts::PI * i as f64 / n as f64, 2.0 * std::f64::consts::PI * j as f64 / n as f64);
            planes.push(V3::new(t.sin() * p.cos(), t.sin() * p.sin(), t.cos()));
        }
    }
    for i in 0..3 {
        for g in [-1.0, 1.0] {
            let mut d = V3::zeros();
            d[i] = g;
            planes.push(d);
        }
    }
    let tol = 1e4 * st.eps;
    for v in m.vertices() {
        c.check(planes.iter().all(|d| d.dot(&(v - o)) <= r + tol), "sphere_vertex", || format!("{v:?} lies beyond a tangent plane"));
    }
    // every face lies in one of the planes, so that the body is exactly their intersection
    for f in m.face_connectivity_iter() {
        let on = planes.iter().any(|d| f.iter().all(|i| (d.dot(&(m.vertices()[*i] - o)) - r).abs() <= tol));
        c.check(on, "sphere_face", || format!("{f:?}"));
    }
    let ball = 4.0 / 3.0 * std::f64::consts::PI * r.powi(3);
    let v = m.compute_volume();
    c.check(v >= ball && v <= 8.0 * r.powi(3) * (1.0 + 1e-9), "sphere_volume", || format!("{v} {ball}"));
    let own = cell_moments(m, m.get_cell_connectivity(0).unwrap(), o).0;
    c.close(v, own, 1e3 * st.eps * r * (r + o.coords.norm()), "sphere_volume_matches", || String::new());
    if n == 1 {
        c.close(v, 8.0 * r.powi(3), 1e-9 * r.powi(3), "sphere_cube", || String::new());
    }
    let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for f in m.face_connectivity_iter() {
        for k in 0..f.len() {
            let (a, b) = (f[k], f[(k + 1) % f.len()]);
            *edges.entry((a.min(b), a.max(b))).or_default() += 1;
        }
    }
    c.check(edges.values().all(|n| *n == 2), "sphere_closed", || format!("{edges:?}"));
    c.count("spheres", 1);
}

pub fn g03(run: &mut Run) {
    run.assumption("cells are convex with planar faces; the orientation of degenerate faces and the presence of degenerate cells after touching cuts are not judged");
    run.section("history", "hexahedral and tetrahedral meshes under sequences of cuts, selections, moves, copies, edge splits and triangulations, against clipped tetrahedra", 15000, 500000, history);
    run.section("bookkeeping", "arbitrary incidence tables: deduplication, incidence, selection, concatenation, storage, refusal", 20000, 500000, bookkeeping);
    run.section("faces", "closest points of general convex faces", 8000, 200000, faces);
    run.section("sphere", "polyhedral sphere: the intersection of the tangent half spaces", 200, 2000, sphere);
    for k in ["hex_meshes", "tet_meshes", "cuts_vertex", "cuts_edge", "cuts_face", "cuts_far", "cuts_general", "convex_intersections", "selections", "concatenations", "splits", "triangulations", "repeatedly_cut", "cells_compared", "outward_faces", "duplicate_faces", "general_faces"] {
        run.require(k, 300);
    }
}

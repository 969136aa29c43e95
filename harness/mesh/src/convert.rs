use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::mesh::*;
use fenris::nalgebra::{DefaultAllocator, DimName};
use fenris_nested_vec::NestedVec;
use std::collections::{BTreeMap, BTreeSet};
use vfem::*;
use vlib::{Case, Run};

/// Converted mesh `b` against source `a`: every node is where the kind's table puts it, identity of nodes is
/// identity of the table's keys, nothing is unused or duplicated, cells stay in order.
fn check_converted(c: &mut Case, a: &Plain, b: &Plain, kind: &Kind, keeps_indices: bool) {
    let name = kind.name;
    let nn = kind.nodes.len();
    if !c.check(a.c.len() == b.c.len(), "cell_count", || format!("{name}: {} cells, expected {}", b.c.len(), a.c.len())) {
        return;
    }
    let tol = 1e-13 * a.scale();
    let mut by_key: BTreeMap<NodeKey, usize> = BTreeMap::new();
    let mut of_index: Vec<Option<NodeKey>> = vec![None; b.v.len()];
    for i in 0..a.c.len() {
        if !c.check(b.c[i].len() == nn, "node_count", || format!("{name}: cell {i} has {} nodes", b.c[i].len())) {
            return;
        }
        for n in 0..nn {
            let key = a.key(kind, i, n);
            let g = b.c[i][n];
            if !c.check(g < b.v.len(), "index_range", || format!("{name}: cell {i} node {n} is {g} of {}", b.v.len())) {
                return;
            }
            let d = a.v[0].len();
            let want: Vec<f64> = (0..d).map(|k| kind.nodes[n].iter().map(|&(q, w)| w * a.v[a.c[i][q]][k]).sum()).collect();
            let corner = kind.nodes[n].len() == 1;
            let ok = if corner { b.v[g] == a.v[a.c[i][n]] } else { want.iter().zip(&b.v[g]).all(|(x, y)| (x - y).abs() <= tol) };
            if !c.check(ok, if corner { "corner_position" } else { "node_position" }, || format!("{name}: cell {i} node {n} at {:?}, expected {want:?}", b.v[g])) {
                return;
            }
            let prev = *by_key.entry(key.clone()).or_insert(g);
            if !c.check(prev == g, "node_not_shared", || format!("{name}: cell {i} node {n}: vertices {prev} and {g} are the same node {key:?}")) {
                return;
            }
            let of = of_index[g].get_or_insert_with(|| key.clone()).clone();
            if !c.check(of == key, "node_confused", || format!("{name}: vertex {g} is used as node {of:?} and as {key:?}")) {
                return;
            }
            if keeps_indices && corner && !c.check(g == a.c[i][n], "corner_index", || format!("{name}: corner index {} became {g}", a.c[i][n])) {
                return;
            }
        }
    }
    c.check(of_index.iter().all(|x| x.is_some()), "unused_vertex", || format!("{name}: unused vertices"));
    c.count("converted_nodes", (nn * a.c.len()) as u64);
    c.count("shared_nodes", (nn * a.c.len() - by_key.len()) as u64);
}

/// polytopal mesh as (vertices, faces, cells)
fn poly<D: DimName>(p: &PolyMesh<f64, D>) -> (Vec<Vec<f64>>, Vec<Vec<usize>>, Vec<Vec<usize>>)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    (
        p.vertices().iter().map(|x| x.coords.iter().cloned().collect()).collect(),
        p.face_connectivity_iter().map(|f| f.to_vec()).collect(),
        p.cell_connectivity_iter().map(|f| f.to_vec()).collect(),
    )
}

fn check_poly<D: DimName>(c: &mut Case, a: &Plain, topo: Topo, p: &PolyMesh<f64, D>)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let (v, faces, cells) = poly(p);
    c.check(v == a.v, "poly_vertices", || String::new());
    let table = topo.faces();
    let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
    for f in &faces {
        let mut s = f.clone();
        s.sort();
        c.check(seen.insert(s), "poly_duplicate_face", || format!("face {f:?} twice"));
    }
    c.check(faces.len() == a.faces(topo).len(), "poly_face_count", || format!("{} faces, expected {}", faces.len(), a.faces(topo).len()));
    if !c.check(cells.len() == a.c.len(), "poly_cell_count", || format!("{}", cells.len())) {
        return;
    }
    let owners = a.faces(topo);
    for (i, cell) in cells.iter().enumerate() {
        let mut got: Vec<Vec<usize>> = cell.iter().map(|&f| { let mut x = faces[f].clone(); x.sort(); x }).collect();
        let mut want: Vec<Vec<usize>> = table.iter().map(|f| { let mut x: Vec<usize> = f.iter().map(|&k| a.c[i][k]).collect(); x.sort(); x }).collect();
        got.sort();
        want.sort();
        if !c.check(got == want, "poly_cell", || format!("cell {i} has faces {got:?}, expected {want:?}")) {
            return;
        }
    }
    for f in &faces {
        let mut s = f.clone();
        s.sort();
        let Some(own) = owners.get(&s) else {
            c.fail("poly_face", format!("{f:?} is no face"));
            return;
        };
        // same loop (up to the start) as some owner sees it; for boundary faces this fixes the normal
        let ok = own.iter().any(|&(ci, fi)| is_rotation(f, &table[fi].iter().map(|&k| a.c[ci][k]).collect::<Vec<_>>()));
        c.check(ok, "poly_face_orientation", || format!("face {f:?} is not ordered as any of its cells {own:?} sees it"));
    }
    let fc = p.compute_face_cell_connectivity();
    for (i, f) in faces.iter().enumerate() {
        let mut s = f.clone();
        s.sort();
        let mut want: Vec<usize> = owners[&s].iter().map(|x| x.0).collect();
        let mut got = fc.get(i).unwrap_or(&[]).to_vec();
        want.sort();
        got.sort();
        c.check(got == want, "poly_face_cells", || format!("face {i}: cells {got:?}, expected {want:?}"));
    }
    let b: Vec<usize> = (0..faces.len()).filter(|&i| { let mut s = faces[i].clone(); s.sort(); owners[&s].len() == 1 }).collect();
    let mut g = p.find_boundary_faces();
    g.sort();
    c.check(g == b, "poly_boundary", || format!("boundary faces {g:?}, expected {b:?}"));
    c.count("poly_faces", faces.len() as u64);
}

fn split_check(c: &mut Case, a: &Plain, t: &Plain) {
    c.check(t.v == a.v, "split_vertices", || "vertices changed".into());
    if !c.check(t.c.len() == 2 * a.c.len(), "split_count", || format!("{} triangles of {} quads", t.c.len(), a.c.len())) {
        return;
    }
    let s2 = a.size().powi(2);
    for (i, q) in a.c.iter().enumerate() {
        let area = a.cell_measure(Topo::Quad, i);
        let (x, y) = (t.cell_measure(Topo::Tri, 2 * i), t.cell_measure(Topo::Tri, 2 * i + 1));
        let corners: Vec<_> = q.iter().map(|&k| a.v[k].clone()).collect();
        if !c.check(x > 0.0 && y > 0.0, "split_orientation", || format!("quad {corners:?} splits into triangles of signed area {x:e}, {y:e}")) {
            return;
        }
        c.close(x + y, area, 1e-12 * (s2 + a.scale().powi(2) * 1e-2), "split_measure", || format!("quad {corners:?}"));
        for k in [2 * i, 2 * i + 1] {
            c.check(t.c[k].iter().all(|v| q.contains(v)), "split_foreign", || format!("{:?} of {q:?}", t.c[k]));
        }
        let u: BTreeSet<usize> = t.c[2 * i].iter().chain(&t.c[2 * i + 1]).cloned().collect();
        c.check(u.len() == q.iter().collect::<BTreeSet<_>>().len(), "split_cover", || format!("{u:?} of {q:?}"));
    }
}

pub fn m03(run: &mut Run) {
    run.section("p_refinement", "conforming triangle, quadrilateral, tetrahedral and hexahedral meshes (holes, components, cracks, random numbering/local rotation, graded, perturbed, affinely mapped) converted to tri6, quad9, tet10, tet20, hex20, hex27: node identities, positions, sharing, order of cells", 7200, 240000, |c| {
        let o = Opts::some(&mut c.rng, 30).cracked();
        match c.rng.below(6) {
            0 => {
                let r = tris(&mut c.rng, &o);
                c.key(("tri6", &r.c));
                let m = r.mesh();
                let b = Mesh2d::<f64, Tri6d2Connectivity>::from(m.clone());
                check_converted(c, &plain(&m), &plain(&b), &kind("tri6"), true);
                for (x, y) in b.connectivity().iter().zip(&r.c) {
                    c.check(Tri3d2Connectivity::from(x).0 == *y, "conn_tri6_tri3", || format!("{x:?}"));
                }
            }
            1 => {
                let r = quads(&mut c.rng, &o);
                c.key(("quad9", &r.c));
                let m = r.mesh();
                let b = Mesh2d::<f64, Quad9d2Connectivity>::from(m.clone());
                check_converted(c, &plain(&m), &plain(&b), &kind("quad9"), true);
                for (x, y) in b.connectivity().iter().zip(&r.c) {
                    c.check(Quad4d2Connectivity::from(x).0 == *y, "conn_quad9_quad4", || format!("{x:?}"));
                }
            }
            2 | 3 => {
                let r = { let o = Opts::some(&mut c.rng, 60).cracked(); tets(&mut c.rng, &o) };
                c.key(("tet", &r.c));
                let m = r.mesh();
                let a = plain(&m);
                let t10 = Mesh3d::<f64, Tet10Connectivity>::from(&m);
                check_converted(c, &a, &plain(&t10), &kind("tet10"), false);
                let t20 = Tet20Mesh::<f64>::from(&m);
                check_converted(c, &a, &plain(&t20), &kind("tet20"), false);
                // and back: the corners of the quadratic mesh, nothing else
                let back = plain(&Mesh3d::<f64, Tet4Connectivity>::from(&t10));
                check_converted(c, &a, &back, &kind("tet4"), false);
                for x in t10.connectivity() {
                    c.check(Tet4Connectivity::from(x).0[..] == x.0[..4], "conn_tet10_tet4", || format!("{x:?}"));
                }
                for x in t20.connectivity() {
                    c.check(Tet4Connectivity::from(x).0[..] == x.0[..4], "conn_tet20_tet4", || format!("{x:?}"));
                }
            }
            _ => {
                let r = hexes(&mut c.rng, &o);
                c.key(("hex", &r.c));
                let m = r.mesh();
                let a = plain(&m);
                check_converted(c, &a, &plain(&Hex20Mesh::<f64>::from(&m)), &kind("hex20"), false);
                check_converted(c, &a, &plain(&Hex27Mesh::<f64>::from(&m)), &kind("hex27"), false);
            }
        }
    });
    run.section("split_quads", "quadrilateral meshes with convex and concave cells (every corner as the concave one, any rotation): two positively oriented triangles per cell tiling it, over the same vertices", 7200, 400000, |c| {
        let mut r = { let o = Opts::some(&mut c.rng, 16).cracked(); quads(&mut c.rng, &o) };
        if c.rng.chance(0.5) {
            // push one corner of a single cell across its diagonal (vertices of one cell only, so a fresh one)
            let t = c.rng.below(r.c.len());
            let corner = c.rng.below(4);
            let q = r.corner(t);
            let (p, n, opp) = (q[(corner + 3) % 4], q[(corner + 1) % 4], q[(corner + 2) % 4]);
            // a point inside the triangle (prev, next, opposite): a simple dart
            let w = [c.rng.f(0.1, 1.0), c.rng.f(0.1, 1.0), c.rng.f(0.15, 1.0)];
            let s: f64 = w.iter().sum();
            let x: [f64; 2] = std::array::from_fn(|d| (w[0] * p[d] + w[1] * n[d] + w[2] * opp[d]) / s);
            let verts: Vec<[f64; 2]> = (0..4).map(|k| if k == corner { x } else { q[k] }).collect();
            let base = r.v.len();
            r.v.extend(verts);
            r.c[t] = [base, base + 1, base + 2, base + 3];
            r.drop_unused();
            c.count("concave_quads", 1);
        }
        c.key(&r.c);
        c.keyf(&r.flat());
        let m = r.mesh();
        split_check(c, &plain(&m), &plain(&m.clone().split_into_triangles()));
    });
    run.section("hex_to_tet", "straight hexahedral meshes: conforming positively oriented tetrahedra of the same total measure over the same vertices", 3600, 120000, |c| {
        let r = { let o = Opts::some(&mut c.rng, 18).straight().cracked(); hexes(&mut c.rng, &o) };
        c.key(&r.c);
        let m = r.mesh();
        let t = plain(&Tet4Mesh::<f64>::from(&m));
        let a = plain(&m);
        c.check(t.v == a.v, "hex_tet_vertices", || String::new());
        let (mut cells_ok, s3) = (true, a.size().powi(3) + a.scale().powi(3) * 1e-2);
        for i in 0..t.c.len() {
            cells_ok &= t.cell_measure(Topo::Tet, i) > 0.0;
        }
        c.check(cells_ok, "hex_tet_orientation", || "a tetrahedron is not positively oriented".into());
        let meas = a.measure(Topo::Hex);
        c.close(t.measure(Topo::Tet), meas, 1e-11 * s3, "hex_tet_measure", || String::new());
        let conf = t.conforming(Topo::Tet);
        c.check(conf.is_ok(), "hex_tet_conforming", || conf.unwrap_err());
        // every hexahedron is tiled by the tetrahedra over its corners
        for (i, h) in a.c.iter().enumerate() {
            let s: BTreeSet<usize> = h.iter().cloned().collect();
            let v: f64 = (0..t.c.len()).filter(|&k| t.c[k].iter().all(|x| s.contains(x))).map(|k| t.cell_measure(Topo::Tet, k)).sum();
            c.close(v, a.cell_measure(Topo::Hex, i), 1e-11 * s3, "hex_tet_tiling", || format!("hexahedron {i}"));
        }
        c.count("tets_from_hexes", t.c.len() as u64);
    });
    run.section("polymesh", "meshes of every kind as polytopal meshes: each face once, with the loop of one of its cells, cells with exactly their faces, face-cell incidence and boundary; triangulated and tetrahedral ones back to tetrahedra; non-tetrahedral ones reported as errors", 4800, 160000, |c| {
        let o = Opts::some(&mut c.rng, 24).cracked();
        match c.rng.below(4) {
            0 => {
                let r = tris(&mut c.rng, &o);
                c.key(("tri", &r.c));
                let m = r.mesh();
                check_poly(c, &plain(&m), Topo::Tri, &PolyMesh::from(&m));
            }
            1 => {
                let r = quads(&mut c.rng, &o);
                c.key(("quad", &r.c));
                let m = r.mesh();
                check_poly(c, &plain(&m), Topo::Quad, &PolyMesh::from(&m));
            }
            2 => {
                let r = { let o = Opts::some(&mut c.rng, 48).cracked(); tets(&mut c.rng, &o) };
                c.key(("tet", &r.c));
                let m = r.mesh();
                let a = plain(&m);
                let p = PolyMesh3d::from(&m);
                check_poly(c, &a, Topo::Tet, &p);
                // faces of the poly mesh in any rotation and orientation
                let (v, mut faces, mut cells) = poly(&p);
                for f in &mut faces {
                    let k = c.rng.below(f.len());
                    f.rotate_left(k);
                    if c.rng.bool() {
                        f.reverse();
                    }
                }
                for f in &mut cells {
                    c.rng.shuffle(f);
                }
                let mk = |faces: &[Vec<usize>], cells: &[Vec<usize>]| PolyMesh3d::from_poly_data(
                    v.iter().map(|p| p3(&a3(p))).collect(),
                    faces.iter().fold(NestedVec::new(), |mut n, f| { n.push(f); n }),
                    cells.iter().fold(NestedVec::new(), |mut n, f| { n.push(f); n }),
                );
                match Tet4Mesh::try_from(&mk(&faces, &cells)) {
                    Err(e) => c.fail("poly_tet_rejected", format!("{e}")),
                    Ok(t) => {
                        let t = plain(&t);
                        c.check(t.v == a.v && t.c.len() == a.c.len(), "poly_tet_shape", || String::new());
                        for i in 0..t.c.len().min(a.c.len()) {
                            let s = |x: &[usize]| { let mut y = x.to_vec(); y.sort(); y };
                            c.check(s(&t.c[i]) == s(&a.c[i]), "poly_tet_cell", || format!("cell {i}: {:?} vs {:?}", t.c[i], a.c[i]));
                            c.check(t.cell_measure(Topo::Tet, i) > 0.0, "poly_tet_orientation", || format!("cell {i}"));
                        }
                    }
                }
                // a cell with a wrong set of faces is an error
                if !cells.is_empty() {
                    let k = c.rng.below(cells.len());
                    let mut bad = cells.clone();
                    match c.rng.below(3) {
                        0 => { bad[k].pop(); }
                        1 => { let f = bad[k][0]; bad[k].push(f); }
                        _ if cells.len() > 1 => {
                            let other = (k + 1) % cells.len();
                            let foreign = cells[other].iter().find(|f| !cells[k].contains(f) && faces[**f].iter().any(|v| !a.c[k].contains(v))).cloned();
                            match foreign {
                                Some(f) => { let j = c.rng.below(4); bad[k][j] = f; }
                                None => { bad[k].pop(); }
                            }
                        }
                        _ => { bad[k].pop(); }
                    }
                    let r = Tet4Mesh::try_from(&mk(&faces, &bad));
                    c.check(r.is_err(), "poly_tet_accepted", || format!("cell with faces {:?} accepted as a tetrahedron", bad[k].iter().map(|&f| &faces[f]).collect::<Vec<_>>()));
                    c.count("rejected_poly", 1);
                }
            }
            _ => {
                let r = { let o = Opts::some(&mut c.rng, 12).straight().cracked(); hexes(&mut c.rng, &o) };
                c.key(("hex", &r.c));
                let m = r.mesh();
                let p = PolyMesh3d::from(&m);
                check_poly(c, &plain(&m), Topo::Hex, &p);
                c.check(Tet4Mesh::try_from(&p).is_err(), "poly_hex_as_tet", || "hexahedra accepted as tetrahedra".into());
            }
        }
    });
    run.require("converted_nodes", 50_000);
    run.require("shared_nodes", 10_000);
    run.require("concave_quads", 100);
    run.require("tets_from_hexes", 2_000);
    run.require("poly_faces", 3_000);
    run.require("rejected_poly", 20);
}

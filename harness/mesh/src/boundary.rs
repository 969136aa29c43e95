use fenris::connectivity::*;
use fenris::mesh::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName};
use std::collections::{BTreeMap, BTreeSet};
use vfem::*;
use vlib::{Case, Run};

/// Positions (as sets of loop corners) of the nodes of a face with `n` nodes and `nc` corners
fn face_layout(n: usize, nc: usize) -> Option<Vec<Vec<usize>>> {
    Some(match (nc, n) {
        (2, 2) => vec![vec![0], vec![1]],
        (2, 3) => vec![vec![0], vec![0, 1], vec![1]],
        (3, 3) | (4, 4) => (0..nc).map(|i| vec![i]).collect(),
        (3, 6) | (4, 8) | (4, 9) => {
            let mut v: Vec<Vec<usize>> = (0..nc).map(|i| vec![i]).collect();
            v.extend((0..nc).map(|i| vec![i, (i + 1) % nc]));
            if n == 9 {
                v.push(vec![0, 1, 2, 3]);
            }
            v
        }
        _ => return None,
    })
}

/// The face number (of the topology table) that the global index list `face` describes in cell `ci`,
/// judged by corner loop orientation and by the position of every further node
pub fn identify(p: &Plain, k: &Kind, ci: usize, face: &[usize]) -> Result<usize, String> {
    let cell = &p.c[ci];
    let mut found = None;
    for (fi, lp) in k.topo.faces().iter().enumerate() {
        let nc = lp.len();
        let Some(lay) = face_layout(face.len(), nc) else { continue };
        // corners of the reported face, in order
        let corners: Vec<usize> = (0..nc).map(|i| face[lay.iter().position(|x| x == &vec![i]).unwrap()]).collect();
        let want: Vec<usize> = lp.iter().map(|&i| cell[i]).collect();
        let mut s1 = corners.clone();
        s1.sort();
        let mut s2 = want.clone();
        s2.sort();
        if s1 != s2 {
            continue;
        }
        let oriented = if nc == 2 { corners == want } else { is_rotation(&corners, &want) };
        if !oriented {
            return Err(format!("face {face:?} of cell {ci} has orientation {corners:?}, expected {want:?}"));
        }
        // all nodes of the cell lying on the face, each at its place
        let on_face = k.nodes.iter().filter(|n| n.iter().all(|(i, _)| lp.contains(i))).count();
        if on_face != face.len() {
            return Err(format!("face {face:?} of cell {ci} has {} nodes but the cell has {on_face} nodes on it", face.len()));
        }
        for (n, l) in lay.iter().enumerate() {
            let mut c: Vec<usize> = l.iter().map(|&i| corners[i]).collect();
            c.sort();
            let node = (0..k.nodes.len()).find(|&m| {
                let mut x: Vec<usize> = k.nodes[m].iter().map(|&(i, _)| cell[i]).collect();
                x.sort();
                x == c
            });
            if node.map(|m| cell[m]) != Some(face[n]) {
                return Err(format!("node {n} of face {face:?} of cell {ci} should be the node between vertices {c:?}, which is {:?}", node.map(|m| cell[m])));
            }
        }
        found = Some(fi);
    }
    found.ok_or_else(|| format!("{face:?} is no face of cell {ci} {cell:?}"))
}

/// Signed measure enclosed by oriented faces given as corner loops (bilinear faces exactly)
fn enclosed(v: &[Vec<f64>], loops: &[Vec<usize>], o: &[f64]) -> f64 {
    let sub = |i: usize| -> Vec<f64> { v[i].iter().zip(o).map(|(a, b)| a - b).collect() };
    let mut s = 0.0;
    for l in loops {
        match l.len() {
            2 => {
                let (a, b) = (sub(l[0]), sub(l[1]));
                s += 0.5 * (a[0] * b[1] - a[1] * b[0]);
            }
            3 => s += tet_vol([0.0; 3], a3(&sub(l[0])), a3(&sub(l[1])), a3(&sub(l[2]))),
            _ => {
                let q: Vec<[f64; 3]> = l.iter().map(|&i| a3(&sub(i))).collect();
                for t in [[0, 1, 2], [0, 2, 3], [0, 1, 3], [1, 2, 3]] {
                    s += 0.5 * tet_vol([0.0; 3], q[t[0]], q[t[1]], q[t[2]]);
                }
            }
        }
    }
    s
}

fn check<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str, surface: bool)
where
    D: DimName,
    C: Connectivity,
    C::FaceConnectivity: ConnectivityMut,
    DefaultAllocator: Allocator<f64, D>,
{
    let k = kind(name);
    let p = plain(mesh);
    // face tables
    for (ci, conn) in mesh.connectivity().iter().enumerate() {
        let n = conn.num_faces();
        c.check(n == k.topo.faces().len(), "face_count", || format!("{name} reports {n} faces"));
        let mut seen = BTreeSet::new();
        for f in 0..n {
            let Some(face) = conn.get_face_connectivity(f) else {
                c.fail("face_missing", format!("{name} face {f}"));
                continue;
            };
            match identify(&p, &k, ci, face.vertex_indices()) {
                Ok(i) => {
                    c.check(seen.insert(i), "face_twice", || format!("{name}: face {f} is listed twice"));
                }
                Err(e) => c.fail("face_table", format!("{name} local face {f}: {e}")),
            }
        }
        c.check(conn.get_face_connectivity(n).is_none(), "face_oob", || format!("{name}: face {n} exists"));
        c.count("face_table_entries", n as u64);
        if c.failed() {
            return;
        }
    }
    // the boundary: faces of exactly one cell
    let fm = p.faces(k.topo);
    let want: BTreeSet<(usize, usize)> = fm.values().filter(|x| x.len() == 1).map(|x| x[0]).collect();
    let got = mesh.find_boundary_faces();
    let mut seen = BTreeSet::new();
    let mut loops = vec![];
    let mut verts = BTreeSet::new();
    for (face, ci, local) in &got {
        if !c.check(*ci < p.c.len() && mesh.connectivity()[*ci].get_face_connectivity(*local).map(|f| f.vertex_indices().to_vec()) == Some(face.vertex_indices().to_vec()), "boundary_face_identity", || {
            format!("{name}: boundary face {:?} is not face {local} of cell {ci}", face.vertex_indices())
        }) {
            return;
        }
        let fi = identify(&p, &k, *ci, face.vertex_indices()).unwrap();
        c.check(seen.insert((*ci, fi)), "boundary_twice", || format!("{name}: face {fi} of cell {ci} listed twice"));
        loops.push(k.topo.faces()[fi].iter().map(|&i| p.c[*ci][i]).collect::<Vec<usize>>());
        verts.extend(face.vertex_indices().iter().cloned());
    }
    c.count("boundary_faces", got.len() as u64);
    c.check(seen == want, "boundary_set", || {
        format!("{name}: missing (cell, face) {:?}, superfluous {:?}", want.difference(&seen).take(4).collect::<Vec<_>>(), seen.difference(&want).take(4).collect::<Vec<_>>())
    });
    let cells: Vec<usize> = want.iter().map(|x| x.0).collect::<BTreeSet<_>>().into_iter().collect();
    let bc = mesh.find_boundary_cells();
    c.check(bc == cells, "boundary_cells", || format!("{name}: {bc:?}, expected {cells:?}"));
    let bv = mesh.find_boundary_vertices();
    c.check(bv == verts.iter().cloned().collect::<Vec<_>>(), "boundary_vertices", || format!("{name}: {bv:?}, expected {verts:?}"));
    // closed: every oriented ridge is cancelled by an opposite one
    let mut ridge: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for l in &loops {
        if l.len() == 2 {
            *ridge.entry((l[0], 0)).or_default() -= 1;
            *ridge.entry((l[1], 0)).or_default() += 1;
        } else {
            for i in 0..l.len() {
                let (a, b) = (l[i], l[(i + 1) % l.len()]);
                *ridge.entry((a.min(b), a.max(b))).or_default() += if a < b { 1 } else { -1 };
            }
        }
    }
    // (a part of a surface with non-manifold edges may have an open boundary)
    c.check((surface && p.conforming(k.topo).is_err()) || ridge.values().all(|&x| x == 0), "closed", || format!("{name}: boundary is not closed"));
    if !surface && !got.is_empty() {
        let m = p.measure(k.topo);
        let e = enclosed(&p.v, &loops, &p.v[0]);
        let s = p.size();
        let tol = 1e-11 * (m + 0.01 * s.powi(p.v[0].len() as i32)) * (1.0 + p.scale() / s);
        c.close(e, m, tol, "enclosed_measure", || format!("{name}: measure enclosed by the boundary versus measure of the mesh"));
    }
    // extracted surface
    let surf = mesh.extract_surface_mesh();
    let sp = plain(&surf);
    let pos = |p: &Plain, f: &[usize]| -> Vec<u64> { f.iter().flat_map(|&i| p.v[i].iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect() };
    let mut a: Vec<Vec<u64>> = sp.c.iter().map(|f| pos(&sp, f)).collect();
    let mut b: Vec<Vec<u64>> = got.iter().map(|f| pos(&p, f.0.vertex_indices())).collect();
    a.sort();
    b.sort();
    c.check(a == b, "surface_faces", || format!("{name}: the surface mesh does not consist of the boundary faces"));
    c.check(sp.v.len() == verts.len() && sp.used().iter().all(|u| *u), "surface_vertices", || format!("{name}: {} vertices, {} on the boundary", sp.v.len(), verts.len()));
    c.count(if surface { "surface_meshes" } else { "volume_meshes" }, 1);
}

/// The boundary curve of a part of the surface of a volume mesh
fn surface_part<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: DimName,
    C: ConnectivityMut,
    C::FaceConnectivity: ConnectivityMut,
    DefaultAllocator: Allocator<f64, D>,
{
    let keep: Vec<usize> = (0..mesh.connectivity().len()).filter(|_| c.rng.chance(0.7)).collect();
    let part = mesh.keep_cells(&keep);
    check(c, &part, name, true);
}

pub fn m04(run: &mut Run) {
    run.section("volume", "meshes of all kinds with faces (2D: tri3, quad4, tri6, quad9; 3D: tet4, hex8, tet10, hex20, hex27) with holes, cracks, components, non-manifold contacts, rotated cells; extracted 3D surfaces and random parts of them (tri3, quad4, tri6, quad8, quad9 in space): face tables, boundary sets, orientation, closedness, enclosed measure, derived cells/vertices/surface", 14400, 500000, |c| {
        let kd = c.rng.below(9);
        let o = Opts::some(&mut c.rng, if kd < 4 { 60 } else { 24 }).cracked();
        c.desc(format!("kind {kd}"));
        macro_rules! go3 {
            ($m:expr, $name:expr, $sname:expr) => {{
                let m = $m;
                c.key(($name, plain(&m).c));
                check(c, &m, $name, false);
                if !c.failed() {
                    let s = m.extract_surface_mesh();
                    surface_part(c, &s, $sname);
                }
            }};
        }
        macro_rules! go2 {
            ($m:expr, $name:expr) => {{
                let m = $m;
                c.key(($name, plain(&m).c));
                check(c, &m, $name, false);
            }};
        }
        match kd {
            0 => go2!(tris(&mut c.rng, &o).mesh(), "tri3"),
            1 => go2!(quads(&mut c.rng, &o).mesh(), "quad4"),
            2 => go2!(Tri6Mesh2d::from(tris(&mut c.rng, &o).mesh()), "tri6"),
            3 => go2!(Quad9Mesh2d::from(quads(&mut c.rng, &o).mesh()), "quad9"),
            4 => go3!(tets(&mut c.rng, &o).mesh(), "tet4", "tri3"),
            5 => go3!(hexes(&mut c.rng, &o).mesh(), "hex8", "quad4"),
            6 => go3!(Tet10Mesh::from(&tets(&mut c.rng, &o).mesh()), "tet10", "tri6"),
            7 => go3!(Hex20Mesh::from(&hexes(&mut c.rng, &o).mesh()), "hex20", "quad8"),
            _ => go3!(Hex27Mesh::from(&hexes(&mut c.rng, &o).mesh()), "hex27", "quad9"),
        }
    });
    run.section("empty", "meshes without cells have an empty boundary", 1, 1, |c| {
        let m = TriangleMesh2d::<f64>::from_vertices_and_connectivity(vec![], vec![]);
        c.key(0);
        c.check(m.find_boundary_faces().is_empty() && m.find_boundary_cells().is_empty() && m.find_boundary_vertices().is_empty() && m.extract_surface_mesh().connectivity().is_empty(), "empty", || String::new());
    });
    run.require("boundary_faces", 10_000);
    run.require("face_table_entries", 20_000);
    run.require("surface_meshes", 200);
}

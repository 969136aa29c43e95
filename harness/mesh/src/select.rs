use fenris::connectivity::ConnectivityMut;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OVector};
use vfem::*;
use vlib::{Case, Run};

fn check_keep<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: DimName,
    C: ConnectivityMut,
    DefaultAllocator: Allocator<f64, D>,
{
    let n = mesh.connectivity().len();
    let list: Vec<usize> = match c.rng.below(6) {
        0 => vec![],
        1 => (0..n).collect(),
        2 => c.rng.perm(n),
        3 => (0..c.rng.range(1, n)).map(|_| c.rng.below(n)).collect(), // with repetitions
        4 => vec![c.rng.below(n)],
        _ => (0..n).filter(|_| c.rng.bool()).collect(),
    };
    c.key((name, &list));
    let (a, b) = (plain(mesh), plain(&mesh.keep_cells(&list)));
    let mut used = vec![false; a.v.len()];
    for &i in &list {
        for &v in &a.c[i] {
            used[v] = true;
        }
    }
    // relative order is kept, so the new vertices are exactly the used ones in order
    let want: Vec<usize> = (0..a.v.len()).filter(|&i| used[i]).collect();
    if !c.check(b.v.len() == want.len() && want.iter().zip(&b.v).all(|(&i, p)| &a.v[i] == p), "kept_vertices", || format!("{name}, cells {list:?}: {} vertices, expected {}", b.v.len(), want.len())) {
        return;
    }
    c.check(b.c.len() == list.len(), "kept_count", || format!("{} cells, asked for {}", b.c.len(), list.len()));
    for (k, &i) in list.iter().enumerate() {
        let old: Vec<usize> = b.c[k].iter().map(|&v| want[v]).collect();
        if !c.check(old == a.c[i], "kept_cell", || format!("{name}: kept cell {k} is {old:?} in original numbering, expected cell {i} = {:?}", a.c[i])) {
            return;
        }
    }
    c.count("kept_cells", list.len() as u64);
}

fn check_transform<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: DimName,
    C: ConnectivityMut,
    DefaultAllocator: Allocator<f64, D>,
{
    let a = plain(mesh);
    let t = OVector::<f64, D>::from_fn_generic(D::name(), fenris::nalgebra::U1, |_, _| c.rng.f(-5.0, 5.0));
    let moved: Vec<Vec<f64>> = a.v.iter().map(|p| p.iter().zip(t.iter()).map(|(x, y)| x + y).collect()).collect();
    let mut m = mesh.clone();
    m.translate(&t);
    let p = plain(&m);
    c.check(p.v == moved && p.c == a.c, "translate", || name.to_string());
    let p = plain(&mesh.clone().translated(&t));
    c.check(p.v == moved && p.c == a.c, "translated", || name.to_string());
    // every vertex is transformed exactly once, in order
    let mut m = mesh.clone();
    let mut calls = 0usize;
    m.transform_vertices(|p| {
        calls += 1;
        let n = calls as f64;
        p.coords.iter_mut().for_each(|x| *x = *x * *x + n);
    });
    let want: Vec<Vec<f64>> = a.v.iter().enumerate().map(|(i, p)| p.iter().map(|x| x * x + (i + 1) as f64).collect()).collect();
    let p = plain(&m);
    c.check(calls == a.v.len() && p.v == want && p.c == a.c, "transform_vertices", || format!("{name}: {calls} calls for {} vertices", a.v.len()));
    let mut m = mesh.clone();
    m.transform_all_vertices(|vs| {
        vs.reverse();
    });
    let mut rev = a.v.clone();
    rev.reverse();
    let p = plain(&m);
    c.check(p.v == rev && p.c == a.c, "transform_all", || name.to_string());
    let mut m = mesh.clone();
    m.vertices_mut()[0].coords[0] = 77.0;
    let p = plain(&m);
    let mut w = a.v.clone();
    w[0][0] = 77.0;
    c.check(p.v == w && p.c == a.c, "vertices_mut", || name.to_string());
    c.count("transformed_vertices", 4 * a.v.len() as u64);
}

macro_rules! serde_check {
    ($c:expr, $mesh:expr, $ty:ty, $name:expr) => {{
        let v = vlib::serde_json::to_value(&$mesh).unwrap();
        match vlib::serde_json::from_value::<$ty>(v) {
            Ok(m) => {
                $c.check(m == $mesh, "serde", || format!("{}: deserialized mesh differs", $name));
            }
            Err(e) => $c.fail("serde_error", format!("{}: {e}", $name)),
        }
        // through text: the values written are exactly representable
        let mut q = $mesh.clone();
        q.transform_vertices(|p| p.coords.iter_mut().for_each(|x| *x = (*x * 64.0).round() / 64.0));
        let s = vlib::serde_json::to_string(&q).unwrap();
        match vlib::serde_json::from_str::<$ty>(&s) {
            Ok(m) => {
                $c.check(m == q, "serde_text", || format!("{}: deserialized mesh differs", $name));
            }
            Err(e) => $c.fail("serde_error", format!("{}: {e}", $name)),
        }
        $c.count("serialized_meshes", 2);
    }};
}

pub fn m05(run: &mut Run) {
    run.section("keep", "meshes of all 10 kinds (some with unused vertices), cell lists empty/all/permuted/repeated/single/random: the induced sub-mesh; twice in a row", 18000, 600000, |c| {
        let kd = c.rng.below(10);
        let o = Opts::some(&mut c.rng, if kd < 4 { 60 } else { 14 });
        let unused = c.rng.chance(0.3);
        with_mesh_kind!(kd, &mut c.rng, o, |mesh, name| {
            let mut mesh = mesh;
            c.key(plain(&mesh).c);
            if unused {
                let mut v = mesh.vertices().to_vec();
                let p = v[0];
                v.insert(0, p);
                v.push(p);
                let conn: Vec<_> = mesh.connectivity().iter().map(|x| { let mut y = x.clone(); y.vertex_indices_mut().iter_mut().for_each(|i| *i += 1); y }).collect();
                mesh = Mesh::from_vertices_and_connectivity(v, conn);
            }
            c.desc(format!("{name} {} cells", mesh.connectivity().len()));
            check_keep(c, &mesh, name);
            let half: Vec<usize> = (0..mesh.connectivity().len()).rev().step_by(2).collect();
            let sub = mesh.keep_cells(&half);
            check_keep(c, &sub, name);
        });
    });
    run.section("transform", "translation and vertex transformations act on every vertex once and leave connectivity alone", 3600, 120000, |c| {
        let kd = c.rng.below(10);
        let o = Opts::some(&mut c.rng, if kd < 4 { 40 } else { 10 });
        with_mesh_kind!(kd, &mut c.rng, o, |mesh, name| {
            c.key((name, plain(&mesh).c));
            check_transform(c, &mesh, name);
        });
    });
    run.section("serde", "serialized meshes read back equal (value tree bit-exactly, JSON text for exactly printable values)", 3600, 120000, |c| {
        use fenris::mesh::*;
        let kd = c.rng.below(10);
        let o = Opts::some(&mut c.rng, if kd < 4 { 30 } else { 8 });
        c.desc(format!("kind {kd}"));
        let r = &mut c.rng;
        match kd {
            0 => { let m = tris(r, &o).mesh(); c.key(plain(&m).c); serde_check!(c, m, TriangleMesh2d<f64>, "tri3") }
            1 => { let m = quads(r, &o).mesh(); c.key(plain(&m).c); serde_check!(c, m, QuadMesh2d<f64>, "quad4") }
            2 => { let m = tets(r, &o).mesh(); c.key(plain(&m).c); serde_check!(c, m, Tet4Mesh<f64>, "tet4") }
            3 => { let m = hexes(r, &o).mesh(); c.key(plain(&m).c); serde_check!(c, m, HexMesh<f64>, "hex8") }
            4 => { let m = Tri6Mesh2d::from(tris(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Tri6Mesh2d<f64>, "tri6") }
            5 => { let m = Quad9Mesh2d::from(quads(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Quad9Mesh2d<f64>, "quad9") }
            6 => { let m = Tet10Mesh::from(&tets(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Tet10Mesh<f64>, "tet10") }
            7 => { let m = Hex20Mesh::from(&hexes(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Hex20Mesh<f64>, "hex20") }
            8 => { let m = Hex27Mesh::from(&hexes(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Hex27Mesh<f64>, "hex27") }
            _ => { let m = Tet20Mesh::from(&tets(r, &o).mesh()); c.key(plain(&m).c); serde_check!(c, m, Tet20Mesh<f64>, "tet20") }
        }
    });
    run.require("kept_cells", 5_000);
    run.require("transformed_vertices", 5_000);
    run.require("serialized_meshes", 300);
}

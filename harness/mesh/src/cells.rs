//! M07: the cells, elements, local faces and boxes of a mesh are those its vertices and connectivity describe.
use crate::boundary::identify;
use fenris::connectivity::*;
use fenris::element::ElementConnectivity;
use fenris::geometry::{BoundedGeometry, GeometryCollection, Hexahedron, LineSegment2d, Quad2d, Tetrahedron, Triangle};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, MatrixViewMut, OPoint, Point2, Point3, U1, U2, U3};
use fenris::nalgebra::Dyn;
use std::fmt::Debug;
use vfem::*;
use vlib::{Case, Run};

/// A geometric cell built from its corners only
trait FromCorners<D: DimName>: PartialEq + Debug
where
    DefaultAllocator: Allocator<f64, D>,
{
    fn build(v: &[OPoint<f64, D>]) -> Self;
}
impl FromCorners<U2> for LineSegment2d<f64> {
    fn build(v: &[Point2<f64>]) -> Self {
        LineSegment2d::from_end_points(v[0], v[1])
    }
}
impl<D: DimName> FromCorners<D> for Triangle<f64, D>
where
    DefaultAllocator: Allocator<f64, D>,
{
    fn build(v: &[OPoint<f64, D>]) -> Self {
        Triangle([v[0].clone(), v[1].clone(), v[2].clone()])
    }
}
impl FromCorners<U2> for Quad2d<f64> {
    fn build(v: &[Point2<f64>]) -> Self {
        Quad2d([v[0], v[1], v[2], v[3]])
    }
}
impl FromCorners<U3> for Tetrahedron<f64> {
    fn build(v: &[Point3<f64>]) -> Self {
        Tetrahedron::from_vertices([v[0], v[1], v[2], v[3]])
    }
}
impl FromCorners<U3> for Hexahedron<f64> {
    fn build(v: &[Point3<f64>]) -> Self {
        Hexahedron::from_vertices([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]])
    }
}

fn check_cells<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str, corners: usize)
where
    D: DimName,
    C: CellConnectivity<f64, D> + ConnectivityMut + Debug,
    C::FaceConnectivity: PartialEq + Debug,
    C::Cell: FromCorners<D>,
    DefaultAllocator: Allocator<f64, D>,
{
    let v = mesh.vertices();
    let n = mesh.connectivity().len();
    let want: Vec<C::Cell> = mesh
        .connectivity()
        .iter()
        .map(|k| C::Cell::build(&k.vertex_indices()[..corners].iter().map(|&i| v[i].clone()).collect::<Vec<_>>()))
        .collect();
    for i in 0..n {
        let conn = &mesh.connectivity()[i];
        c.check(mesh.get_cell(i).as_ref() == Some(&want[i]), "get_cell", || format!("{name}: cell {i} of {n} is {:?}, corners describe {:?}", mesh.get_cell(i), want[i]));
        c.check(mesh.get_geometry(i).as_ref() == Some(&want[i]), "get_geometry", || format!("{name}: geometry {i}"));
        c.check(conn.cell(v).as_ref() == Some(&want[i]), "connectivity_cell", || format!("{name}: cell {i}"));
        let mut faces = vec![];
        conn.for_each_face(|f| faces.push(f));
        let direct: Vec<_> = (0..conn.num_faces()).map(|f| conn.get_face_connectivity(f)).collect();
        c.check(direct.len() == faces.len() && direct.iter().zip(&faces).all(|(a, b)| a.as_ref() == Some(b)), "for_each_face", || format!("{name}: {faces:?} visited, listed {direct:?}"));
    }
    let it: Vec<C::Cell> = mesh.cell_iter().collect();
    c.check(it == want, "cell_iter", || format!("{name}: {} of {n} cells, or other ones", it.len()));
    c.check(mesh.num_geometries() == n, "num_geometries", || format!("{name}: {} of {n}", mesh.num_geometries()));
    for i in [n, n + 1, n + 1000, usize::MAX] {
        c.check(mesh.get_cell(i).is_none() && mesh.get_geometry(i).is_none(), "no_such_cell", || format!("{name}: cell {i} of {n} exists"));
    }
    // a vertex index outside the mesh never turns into some other cell
    if n > 0 {
        let i = c.rng.below(n);
        let k = c.rng.below(corners);
        let mut conn = mesh.connectivity().to_vec();
        conn[i].vertex_indices_mut()[k] = v.len() + c.rng.sized(0, 3, 1 << 40);
        let broken = Mesh::from_vertices_and_connectivity(v.to_vec(), conn);
        let r = c.catch(|| broken.get_cell(i));
        c.check(!matches!(r, Ok(Some(_))), "dangling_cell", || format!("{name}: a cell with a missing vertex is {r:?}"));
        c.count("dangling_cells", 1);
    }
    c.count("cells_compared", n as u64);
}

fn check_box<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str, corners: usize)
where
    D: DimName,
    C: CellConnectivity<f64, D>,
    C::Cell: BoundedGeometry<f64, Dimension = D>,
    DefaultAllocator: Allocator<f64, D>,
{
    let (v, n) = (mesh.vertices(), mesh.connectivity().len());
    // the box of the mesh is the smallest one around the corners of its cells
    let b = mesh.bounding_box();
    for k in 0..D::dim() {
        let used = || mesh.connectivity().iter().flat_map(|x| x.vertex_indices()[..corners].iter()).map(|&i| v[i][k]);
        let (lo, hi) = if n == 0 { (0.0, 0.0) } else { (used().fold(f64::INFINITY, f64::min), used().fold(f64::NEG_INFINITY, f64::max)) };
        c.check(b.min()[k] == lo && b.max()[k] == hi, "mesh_box", || format!("{name}: axis {k}: [{}, {}], corners span [{lo}, {hi}]", b.min()[k], b.max()[k]));
    }
    c.count("boxes", 1);
}

/// values of the nodes of an element in a global vector
fn check_gather<C>(c: &mut Case, conn: &C, name: &str, nodes: usize)
where
    C: ElementConnectivity<f64>,
    DefaultAllocator: fenris::allocators::BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    fn one<C, S: DimName + fenris::SmallDim>(c: &mut Case, conn: &C, name: &str, nodes: usize)
    where
        C: ElementConnectivity<f64>,
        DefaultAllocator: fenris::allocators::BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
    {
        let s = S::dim();
        let u = DVector::from_fn(nodes * s, |_, _| c.rng.normal());
        let idx = conn.vertex_indices();
        let mut buf = DMatrix::from_element(s, idx.len(), f64::NAN);
        conn.populate_element_variables::<S>(MatrixViewMut::from_slice_generic(buf.as_mut_slice(), S::name(), Dyn(idx.len())), &u);
        for (j, &i) in idx.iter().enumerate() {
            for k in 0..s {
                c.check(buf[(k, j)] == u[i * s + k], "gather", || format!("{name}: component {k} of local node {j} (node {i}) is {}, the vector has {}", buf[(k, j)], u[i * s + k]));
            }
        }
        c.count("gathered_values", (idx.len() * s) as u64);
    }
    match c.rng.below(3) {
        0 => one::<C, U1>(c, conn, name, nodes),
        1 => one::<C, U2>(c, conn, name, nodes),
        _ => one::<C, U3>(c, conn, name, nodes),
    }
}

macro_rules! full {
    ($c:expr, $mesh:expr, $name:expr) => {{
        let (mesh, name) = ($mesh, $name);
        $c.key((name, plain(&mesh).c));
        $c.desc(format!("{name} {} cells", mesh.connectivity().len()));
        check_cells($c, &mesh, name, kind(name).topo.corners());
        check_box($c, &mesh, name, kind(name).topo.corners());
        for conn in mesh.connectivity() {
            if $c.rng.chance(0.3) {
                check_gather($c, conn, name, mesh.vertices().len());
            }
        }
    }};
}

fn surface_faces<C>(c: &mut Case, name: &str, n: usize, make: impl Fn(&[usize]) -> C)
where
    C: ConnectivityMut + Debug + PartialEq + Clone,
    C::FaceConnectivity: ConnectivityMut,
{
    let total = n + c.rng.below(40);
    let perm = c.rng.perm(total);
    let idx = perm[..n].to_vec();
    let conn = make(&idx);
    c.key((name, &idx));
    c.check(conn.vertex_indices() == idx, "vertex_indices", || format!("{name}: {:?} for {idx:?}", conn.vertex_indices()));
    let k = kind(name);
    let p = Plain { v: vec![], c: vec![idx.clone()] };
    let mut seen = vec![];
    c.check(conn.num_faces() == k.topo.faces().len(), "face_count", || format!("{name}: {}", conn.num_faces()));
    for f in 0..conn.num_faces() {
        let Some(face) = conn.get_face_connectivity(f) else {
            c.fail("face_missing", format!("{name}: face {f}"));
            continue;
        };
        match identify(&p, &k, 0, face.vertex_indices()) {
            Ok(i) => {
                c.check(!seen.contains(&i), "face_twice", || format!("{name}: face {f} repeats an edge"));
                seen.push(i);
            }
            Err(e) => c.fail("face_table", format!("{name} face {f}: {e}")),
        }
        // faces of faces: none
        c.check(face.num_faces() == 0 && face.get_face_connectivity(0).is_none(), "face_of_edge", || format!("{name}: an edge has faces"));
        let mut g = face;
        let was = g.vertex_indices().to_vec();
        for (j, x) in g.vertex_indices_mut().iter_mut().enumerate() {
            *x += 100 * (j + 1);
        }
        c.check(g.vertex_indices().iter().enumerate().all(|(j, &x)| x == was[j] + 100 * (j + 1)), "edge_indices_mut", || format!("{name}: {was:?} became {:?}", g.vertex_indices()));
    }
    for f in [conn.num_faces(), conn.num_faces() + 1, usize::MAX] {
        c.check(conn.get_face_connectivity(f).is_none(), "face_oob", || format!("{name}: face {f} exists"));
    }
    let mut m = conn.clone();
    m.vertex_indices_mut().reverse();
    c.check(m.vertex_indices().iter().rev().eq(idx.iter()), "indices_mut", || format!("{name}: {idx:?} reversed is {:?}", m.vertex_indices()));
    m.vertex_indices_mut().reverse();
    c.check(m == conn, "indices_equal", || name.to_string());
    c.count("surface_face_tables", 1);
}

fn arr<const N: usize>(x: &[usize]) -> [usize; N] {
    x.try_into().unwrap()
}

/// one cell with arbitrary node numbers
fn lower(c: &mut Case) {
    let idx = |c: &mut Case, n: usize| { let m = n + c.rng.below(50); let p = c.rng.perm(m); p[..n].to_vec() };
    let i = idx(c, 9);
    c.key(&i);
    c.check(Quad4d2Connectivity::from(&Quad9d2Connectivity(arr(&i))).0[..] == i[..4], "corners_of", || "quad9".into());
    let i = idx(c, 6);
    c.check(Tri3d2Connectivity::from(&Tri6d2Connectivity(arr(&i))).0[..] == i[..3], "corners_of", || "tri6".into());
    let i = idx(c, 10);
    c.check(Tet4Connectivity::from(&Tet10Connectivity(arr(&i))).0[..] == i[..4], "corners_of", || "tet10".into());
    let i = idx(c, 20);
    c.check(Tet4Connectivity::from(&Tet20Connectivity(arr(&i))).0[..] == i[..4], "corners_of", || "tet20".into());
    let u = ();
    c.check(Connectivity::num_faces(&u) == 0 && u.get_face_connectivity(0).is_none() && u.vertex_indices().is_empty(), "unit", || String::new());
    // the reference cells of the geometry library are those of the elements
    let d = |x: [f64; 3]| Point3::new(2.0 * x[0] - 1.0, 2.0 * x[1] - 1.0, 2.0 * x[2] - 1.0);
    let t = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].map(d);
    c.check(Tetrahedron::<f64>::reference() == Tetrahedron::from_vertices(t), "reference_cell", || "tetrahedron".into());
    let h = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 1.0], [1.0, 1.0, 1.0], [0.0, 1.0, 1.0]].map(d);
    c.check(Hexahedron::<f64>::reference() == Hexahedron::from_vertices(h), "reference_cell", || "hexahedron".into());
    c.count("lowered", 4);
}

pub fn m07(run: &mut Run) {
    run.section("cells", "meshes of all volume and planar kinds: cells (by index, by iterator, as a geometry collection), visited faces, bounding box, indices outside the mesh, cells with missing vertices, element values", 6000, 300000, |c| {
        use fenris::mesh::*;
        let kd = c.rng.below(11);
        let mut o = Opts::some(&mut c.rng, if kd < 4 { 30 } else { 8 });
        o = if c.rng.bool() { o } else { o.straight() };
        let r = &mut c.rng;
        match kd {
            0 => full!(c, tris(r, &o).mesh(), "tri3"),
            1 => full!(c, quads(r, &o).mesh(), "quad4"),
            2 => full!(c, tets(r, &o).mesh(), "tet4"),
            3 => full!(c, hexes(r, &o).mesh(), "hex8"),
            4 => full!(c, Tri6Mesh2d::from(tris(r, &o).mesh()), "tri6"),
            5 => full!(c, Quad9Mesh2d::from(quads(r, &o).mesh()), "quad9"),
            6 => full!(c, Tet10Mesh::from(&tets(r, &o).mesh()), "tet10"),
            7 => full!(c, Hex20Mesh::from(&hexes(r, &o).mesh()), "hex20"),
            8 => full!(c, Hex27Mesh::from(&hexes(r, &o).mesh()), "hex27"),
            9 => full!(c, Tet20Mesh::from(&tets(r, &o).mesh()), "tet20"),
            _ => {
                let m = tets(r, &o).mesh().extract_surface_mesh();
                full!(c, m, "tri3")
            }
        }
    });
    run.section("curves", "surfaces with six-node triangles, polylines, empty meshes: the same", 2000, 100000, |c| {
        match c.rng.below(4) {
            0 => {
                let o = Opts::some(&mut c.rng, 8);
                let m = fenris::mesh::Tet10Mesh::from(&tets(&mut c.rng, &o).mesh()).extract_surface_mesh();
                c.key(plain(&m).c);
                check_cells(c, &m, "tri6", 3);
            }
            1 => {
                let n = c.rng.range(0, 20);
                let v: Vec<Point2<f64>> = (0..n + 1).map(|_| Point2::new(c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0))).collect();
                let k: Vec<_> = (0..n).map(|_| Segment2d2Connectivity([c.rng.below(n + 1), c.rng.below(n + 1)])).collect();
                c.key(&k);
                let m = Mesh::from_vertices_and_connectivity(v, k);
                check_cells(c, &m, "segment", 2);
                for conn in m.connectivity() {
                    check_gather(c, conn, "segment", n + 1);
                }
            }
            2 => {
                let v: Vec<Point3<f64>> = (0..c.rng.below(4)).map(|_| Point3::new(1.0, 2.0, 3.0)).collect();
                c.key(v.len());
                let m = Mesh::from_vertices_and_connectivity(v.clone(), Vec::<Tet4Connectivity>::new());
                check_cells(c, &m, "tet4", 4);
                check_box(c, &m, "tet4", 4);
                check_cells(c, &Mesh::from_vertices_and_connectivity(v, Vec::<Hex27Connectivity>::new()), "hex27", 8);
            }
            _ => {
                // cells over arbitrary vertices, shared and repeated at will
                let n = c.rng.range(1, 30);
                let v: Vec<Point3<f64>> = (0..n).map(|_| Point3::new(c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0))).collect();
                let m = c.rng.range(1, 12);
                let mut id = |k: usize| (0..k).map(|_| c.rng.below(n)).collect::<Vec<_>>();
                let t: Vec<_> = (0..m).map(|_| Tet20Connectivity(arr(&id(20)))).collect();
                let h: Vec<_> = (0..m).map(|_| Hex20Connectivity(arr(&id(20)))).collect();
                let s: Vec<_> = (0..m).map(|_| Tri3d3Connectivity(arr(&id(3)))).collect();
                c.key((&t, &h));
                let t = Mesh::from_vertices_and_connectivity(v.clone(), t);
                check_cells(c, &t, "tet20", 4);
                for conn in t.connectivity() {
                    check_gather(c, conn, "tet20", n);
                }
                check_cells(c, &Mesh::from_vertices_and_connectivity(v.clone(), h), "hex20", 8);
                check_cells(c, &Mesh::from_vertices_and_connectivity(v, s), "tri3", 3);
            }
        }
    });
    run.section("faces", "single cells with arbitrary node numbers, in the plane and in space: local faces form the oriented loop and use exactly the nodes on them; corner connectivities of higher order kinds", 3000, 100000, |c| {
        surface_faces(c, "tri3", 3, |i| Tri3d3Connectivity(arr(i)));
        surface_faces(c, "tri6", 6, |i| Tri6d3Connectivity(arr(i)));
        surface_faces(c, "quad4", 4, |i| Quad4d3Connectivity(arr(i)));
        surface_faces(c, "quad8", 8, |i| Quad8d3Connectivity(arr(i)));
        surface_faces(c, "quad9", 9, |i| Quad9d3Connectivity(arr(i)));
        surface_faces(c, "tri3", 3, |i| Tri3d2Connectivity(arr(i)));
        surface_faces(c, "tri6", 6, |i| Tri6d2Connectivity(arr(i)));
        surface_faces(c, "quad4", 4, |i| Quad4d2Connectivity(arr(i)));
        surface_faces(c, "quad9", 9, |i| Quad9d2Connectivity(arr(i)));
        lower(c);
    });
    run.require("cells_compared", 3_000);
    run.require("dangling_cells", 300);
    run.require("gathered_values", 3_000);
    run.require("surface_face_tables", 1_000);
}

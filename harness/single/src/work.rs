// Included twice: T = f32 and T = f64. Every function runs the library on the same (representable) input and
// writes down what it returns.
use crate::out::*;
use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::error::*;
use fenris::integrate::*;
use fenris::mesh::procedural::*;
use fenris::mesh::refinement::*;
use fenris::mesh::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::*;
use fenris::nalgebra_sparse::CsrMatrix;
use fenris::quadrature::subdivide::*;
use fenris::quadrature::*;
use fenris::space::*;
use fenris::SmallDim;
use fenris_geometry::sdf::*;
use fenris_geometry::*;
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use fenris_solid::materials::*;
use fenris_solid::*;
use fenris_sparse::cg::*;
use vfem::oracle::KMesh;

fn t(x: f64) -> T {
    x as T
}
fn pt<D: DimName>(x: &[f64]) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    OPoint::from(OVector::<T, D>::from_fn(|i, _| t(x[i])))
}
fn dv(x: &[f64]) -> DVector<T> {
    DVector::from_iterator(x.len(), x.iter().map(|&x| t(x)))
}
fn fl<'a>(x: impl IntoIterator<Item = &'a T>) -> Vec<f64> {
    x.into_iter().map(|&x| x as f64).collect()
}
fn flp<D: DimName>(p: &[OPoint<T, D>]) -> Vec<f64>
where
    DefaultAllocator: Allocator<T, D>,
{
    p.iter().flat_map(|p| p.coords.iter().map(|&x| x as f64).collect::<Vec<_>>()).collect()
}

macro_rules! every {
    ($km:expr, $m:ident, $d:ident => $body:expr) => {{
        macro_rules! arm {
            ($conn:ident, $dd:ty) => {{
                type $d = $dd;
                let verts: Vec<_> = $km.v.iter().map(|p| pt::<$d>(p)).collect();
                let conn: Vec<fenris::connectivity::$conn> = $km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
                let $m = Mesh::<T, $d, _>::from_vertices_and_connectivity(verts, conn);
                $body
            }};
        }
        match $km.name {
            "tri3" => arm!(Tri3d2Connectivity, U2),
            "tri6" => arm!(Tri6d2Connectivity, U2),
            "quad4" => arm!(Quad4d2Connectivity, U2),
            "quad9" => arm!(Quad9d2Connectivity, U2),
            "tet4" => arm!(Tet4Connectivity, U3),
            "tet10" => arm!(Tet10Connectivity, U3),
            "tet20" => arm!(Tet20Connectivity, U3),
            "hex8" => arm!(Hex8Connectivity, U3),
            "hex20" => arm!(Hex20Connectivity, U3),
            "hex27" => arm!(Hex27Connectivity, U3),
            _ => unreachable!(),
        }
    }};
}

// ---- elements ----

/// at: cell, reference coordinates, a displacement (relative to the diameter) of a point to be projected
pub fn elements(km: &KMesh, at: &[(usize, Vec<f64>)]) -> Out {
    let mut o = Out::default();
    every!(km, m, D => {
        for (cell, xi) in at {
            let xi = pt::<D>(xi);
            let n = FiniteElementConnectivity::element_node_count(&m, *cell);
            let mut b = vec![t(0.0); n];
            m.populate_element_basis(*cell, &mut b, &xi);
            o.num("basis", 60.0, 1.0, fl(&b));
            let mut g = OMatrix::<T, D, Dyn>::zeros(n);
            m.populate_element_gradients(*cell, MatrixViewMut::from(&mut g), &xi);
            o.num("gradients", 60.0, 1.0, fl(g.iter()));
            let x = m.map_element_reference_coords(*cell, &xi);
            o.num("mapped", 60.0, 0.0, flp(&[x.clone()]));
            let j = m.element_reference_jacobian(*cell, &xi);
            o.num("jacobian", 200.0, 0.0, fl(j.iter()));
            o.num("volume_form", 200.0, (j.norm() as f64).powi(D::dim() as i32), vec![volume_form(&j) as f64]);
            o.num("diameter", 20.0, 0.0, vec![FiniteElementSpace::<T>::diameter(&m, *cell) as f64]);
            let e = m.connectivity()[*cell].element(m.vertices()).unwrap();
            let mut b2 = vec![t(0.0); n];
            e.populate_basis(&mut b2, &xi);
            o.num("element_basis", 60.0, 1.0, fl(&b2));
            o.num("element_map", 60.0, 0.0, flp(&[e.map_reference_coords(&xi)]));
            o.num("element_diameter", 20.0, 0.0, vec![e.diameter() as f64]);
        }
        let e = m.connectivity()[0].element(m.vertices()).unwrap();
        for (w, p) in [e.canonical_mass_quadrature(), e.canonical_stiffness_quadrature()] {
            o.num("canonical_rule", 4.0, 1.0, fl(&w));
            o.num("canonical_rule", 4.0, 1.0, flp(&p));
        }
    });
    o
}
/// Reference coordinates recovered from mapped points. The library stops at residuals of 1000 epsilon diameters (for the
/// projection, multiplied by the Jacobian), and the diameter is at most four times the largest singular value.
pub fn inverse(km: &KMesh, at: &[(usize, Vec<f64>)], k: f64) -> Out {
    let mut o = Out::default();
    every!(km, m, D => {
        for (cell, xi) in at {
            let e = m.connectivity()[*cell].element(m.vertices()).unwrap();
            let x = e.map_reference_coords(&pt::<D>(xi));
            match map_physical_coordinates(&e, &x) {
                Ok(y) => o.num("mapped_back", 8000.0 * k, 1.0, flp(&[y])),
                Err(_) => o.int("mapped_back_fails", vec![1]),
            }
            match project_physical_coordinates(&e, &x) {
                Ok(y) => o.num("projected", 16000.0 * k * k, 1.0, flp(&[y])),
                Err(_) => o.int("projection_fails", vec![1]),
            }
        }
    });
    o
}

// ---- meshes ----

fn mesh_out<D, C>(o: &mut Out, name: &'static str, m: &Mesh<T, D, C>)
where
    D: DimName,
    C: Connectivity,
    DefaultAllocator: Allocator<T, D>,
{
    o.num(name, 60.0, 0.0, flp(m.vertices()));
    o.int(name, m.connectivity().iter().flat_map(|c| c.vertex_indices().to_vec()).collect());
}
pub fn meshes(km: &KMesh, times: usize, keep: &[usize]) -> Out {
    let mut o = Out::default();
    macro_rules! base {
        ($conn:ident, $d:ty) => {{
            let verts: Vec<_> = km.v.iter().map(|p| pt::<$d>(p)).collect();
            let conn: Vec<$conn> = km.c.iter().map(|c| $conn(std::array::from_fn(|i| c[i]))).collect();
            Mesh::<T, $d, $conn>::from_vertices_and_connectivity(verts, conn)
        }};
    }
    match km.name {
        "tri3" => {
            let m = base!(Tri3d2Connectivity, U2);
            mesh_out(&mut o, "tri6", &Mesh::<T, U2, Tri6d2Connectivity>::from(m.clone()));
            mesh_out(&mut o, "refined", &refine_uniformly_repeat(&m, times));
            mesh_out(&mut o, "kept", &m.keep_cells(keep));
            o.int("boundary_vertices", m.find_boundary_vertices());
            o.int("boundary_faces", m.find_boundary_faces().iter().flat_map(|(f, a, b)| vec![f.vertex_indices()[0], f.vertex_indices()[1], *a, *b]).collect());
            o.int("reordered", reorder::reorder_mesh_par(&m).vertex_permutation().perm().to_vec());
            o.int("colors", color_nodes(&m).iter().map(|c| c.subsets().len()).collect());
        }
        "quad4" => {
            let m = base!(Quad4d2Connectivity, U2);
            mesh_out(&mut o, "quad9", &Mesh::<T, U2, Quad9d2Connectivity>::from(m.clone()));
            mesh_out(&mut o, "kept", &m.keep_cells(keep));
            mesh_out(&mut o, "split", &m.clone().split_into_triangles());
            o.int("boundary_vertices", m.find_boundary_vertices());
            o.int("reordered", reorder::reorder_mesh_par(&m).vertex_permutation().perm().to_vec());
        }
        "tet4" => {
            let m = base!(Tet4Connectivity, U3);
            mesh_out(&mut o, "tet10", &Mesh::<T, U3, Tet10Connectivity>::from(&m));
            mesh_out(&mut o, "tet20", &Mesh::<T, U3, Tet20Connectivity>::from(&m));
            mesh_out(&mut o, "kept", &m.keep_cells(keep));
            o.int("boundary_vertices", m.find_boundary_vertices());
            mesh_out(&mut o, "surface", &m.extract_surface_mesh());
        }
        "hex8" => {
            let m = base!(Hex8Connectivity, U3);
            mesh_out(&mut o, "hex20", &Mesh::<T, U3, Hex20Connectivity>::from(&m));
            mesh_out(&mut o, "hex27", &Mesh::<T, U3, Hex27Connectivity>::from(&m));
            mesh_out(&mut o, "kept", &m.keep_cells(keep));
            o.int("boundary_vertices", m.find_boundary_vertices());
            mesh_out(&mut o, "surface", &m.extract_surface_mesh());
        }
        _ => unreachable!(),
    }
    o
}
pub struct Proc {
    pub unit: f64,
    pub x: usize,
    pub y: usize,
    pub z: usize,
    pub per: usize,
    pub corner: [f64; 2],
    pub cells: usize,
}
pub fn procedural(p: &Proc) -> Out {
    let mut o = Out::default();
    mesh_out(&mut o, "square_quads", &create_unit_square_uniform_quad_mesh_2d::<T>(p.cells));
    mesh_out(&mut o, "square_triangles", &create_unit_square_uniform_tri_mesh_2d::<T>(p.cells));
    mesh_out(&mut o, "box_hexes", &create_unit_box_uniform_hex_mesh_3d::<T>(p.cells.min(5)));
    mesh_out(&mut o, "box_tets", &create_unit_box_uniform_tet_mesh_3d::<T>(p.cells.min(5)));
    mesh_out(&mut o, "rectangle", &create_rectangular_uniform_quad_mesh_2d(t(p.unit), p.x, p.y, p.per, &Vector2::new(t(p.corner[0]), t(p.corner[1]))));
    mesh_out(&mut o, "block_hexes", &create_rectangular_uniform_hex_mesh(t(p.unit), p.x, p.y, p.z, p.per));
    mesh_out(&mut o, "block_tets", &create_rectangular_uniform_tet_mesh(t(p.unit), p.x, p.y, p.z, p.per));
    o
}
pub fn rules() -> Out {
    let mut o = Out::default();
    macro_rules! q {
        ($name:expr, $q:expr) => {{
            let (w, p) = $q;
            o.num($name, 16.0, 1.0, fl(&w));
            o.num($name, 16.0, 1.0, flp(&p));
        }};
    }
    for n in 1..12 {
        q!("gauss", univariate::gauss::<T>(n));
        if let Some(r) = univariate::try_gauss_lobatto::<T>(n) {
            q!("lobatto", r);
        }
        q!("quadrilateral_gauss", tensor::quadrilateral_gauss::<T>(n));
        q!("hexahedron_gauss", tensor::hexahedron_gauss::<T>(n.min(6)));
        q!("subdivided", subdivide_univariate(univariate::gauss::<T>(n.min(4)), n));
        q!("subdivided_triangle", subdivide_triangle(total_order::triangle::<T>(n.min(5)).unwrap(), n.min(5)));
    }
    for s in 0..12 {
        macro_rules! l {
            ($($f:ident),*) => { $( if let Ok(r) = total_order::$f::<T>(s) { q!(stringify!($f), r); } )* };
        }
        l!(triangle, quadrilateral, tetrahedron, hexahedron, prism, pyramid);
    }
    o
}

// ---- assembly ----

#[derive(Clone, Debug)]
pub struct Discrete {
    pub rule: (Vec<f64>, Vec<Vec<f64>>),
    pub u: Vec<f64>,
    pub u3: Vec<f64>,
    pub force: Vec<f64>,
    pub density: f64,
    pub lame: [f64; 2],
    pub fixed: Vec<usize>,
    pub par: bool,
}
struct Wave<S>(Vec<T>, std::marker::PhantomData<S>);
impl<D: SmallDim, S: SmallDim> Operator<T, D> for Wave<S> {
    type SolutionDim = S;
    type Parameters = ();
}
impl<D: SmallDim, S: SmallDim> SourceFunction<T, D> for Wave<S>
where
    DefaultAllocator: BiDimAllocator<T, D, S>,
{
    fn evaluate(&self, x: &OPoint<T, D>, _: &()) -> OVector<T, S> {
        let s: T = x.coords.iter().cloned().sum();
        OVector::<T, S>::from_fn(|i, _| self.0[i] + self.0[i + 1] * s)
    }
}
fn matrix(o: &mut Out, name: &'static str, mult: f64, a: &CsrMatrix<T>) {
    o.int(name, a.row_offsets().to_vec());
    o.int(name, a.col_indices().to_vec());
    o.num(name, mult, 0.0, fl(a.values()));
}
struct Jacobi(DVector<T>);
impl LinearOperator<T> for Jacobi {
    fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn std::error::Error>> {
        y.copy_from(&x.component_div(&self.0));
        Ok(())
    }
}
fn assemble_with<A>(par: bool, colors: &[fenris_paradis::DisjointSubsets], a: &A) -> CsrMatrix<T>
where
    A: ElementMatrixAssembler<T> + Sync,
{
    if par {
        CsrParAssembler::default().assemble(colors, a).unwrap()
    } else {
        CsrAssembler::default().assemble(a).unwrap()
    }
}
fn vector_with<A>(par: bool, colors: &[fenris_paradis::DisjointSubsets], a: &A) -> DVector<T>
where
    A: ElementVectorAssembler<T> + Sync,
{
    if par {
        VectorParAssembler::default().assemble_vector(colors, a).unwrap()
    } else {
        VectorAssembler::default().assemble_vector(a).unwrap()
    }
}
pub fn discrete(km: &KMesh, p: &Discrete, solve: bool) -> Out {
    let mut o = Out::default();
    every!(km, m, D => {
        let colors = color_nodes(&m);
        let n = m.vertices().len();
        let d = D::dim();
        let table = UniformQuadratureTable::<T, D, ()>::from_points_and_weights(p.rule.1.iter().map(|x| pt::<D>(x)).collect(), fl_t(&p.rule.0));
        let u = dv(&p.u);
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&m).with_operator(&LaplaceOperator).with_quadrature_table(&table).with_u(&u).build();
        let lap = assemble_with(p.par, &colors, &a);
        matrix(&mut o, "laplace", -1.0, &lap);
        o.num("laplace_energy", -1.0, 0.0, vec![assemble_scalar(&a).unwrap() as f64]);
        o.num("laplace_forces", -1.0, 0.0, fl(vector_with(p.par, &colors, &a).iter()));
        let mt = UniformQuadratureTable::<T, D, ()>::from_points_and_weights(p.rule.1.iter().map(|x| pt::<D>(x)).collect(), fl_t(&p.rule.0)).with_uniform_data(Density(t(p.density)));
        let ma = ElementMassAssembler::with_solution_dim(d).with_space(&m).with_quadrature_table(&mt);
        let mass = assemble_with(p.par, &colors, &ma);
        matrix(&mut o, "mass", -1.0, &mass);
        let w = Wave::<D>(fl_t(&p.force), std::marker::PhantomData);
        let s = ElementSourceAssemblerBuilder::new().with_finite_element_space(&m).with_source(&w).with_quadrature_table(&table).build();
        o.num("source", -1.0, 0.0, fl(vector_with(p.par, &colors, &s).iter()));
        // elasticity
        let lame = LameParameters { mu: t(p.lame[0]), lambda: t(p.lame[1]) };
        let et = UniformQuadratureTable::<T, D, ()>::from_points_and_weights(p.rule.1.iter().map(|x| pt::<D>(x)).collect(), fl_t(&p.rule.0)).with_uniform_data(lame);
        let u3 = dv(&p.u3[..d * n]);
        macro_rules! material {
            ($name:literal, $m:expr) => {{
                let op = MaterialEllipticOperator::new(&$m);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&m).with_operator(&op).with_quadrature_table(&et).with_u(&u3).build();
                matrix(&mut o, concat!($name, "_stiffness"), -1.0, &assemble_with(p.par, &colors, &a));
                o.num(concat!($name, "_forces"), -100.0, 0.0, fl(vector_with(p.par, &colors, &a).iter()));
                o.num(concat!($name, "_energy"), -100.0, 0.0, vec![assemble_scalar(&a).unwrap() as f64]);
            }};
        }
        material!("linear", LinearElasticMaterial);
        material!("stvk", StVKMaterial);
        material!("neohooke", NeoHookeanMaterial);
        // norms
        let f = |x: &OPoint<T, D>| Vector1::new(x.coords.iter().cloned().sum::<T>());
        let g = |_: &OPoint<T, D>| OMatrix::<T, D, U1>::from_element(t(1.0));
        o.num("l2", -1.0, 0.0, vec![estimate_L2_error::<T, U1, _, _>(&m, &f, &u, &table).unwrap() as f64]);
        o.num("h1", -1.0, 0.0, vec![estimate_H1_seminorm_error::<T, U1, _, _>(&m, &g, &u, &table).unwrap() as f64]);
        if solve {
            let mut a = lap.clone();
            let one = Wave::<U1>(fl_t(&p.force), std::marker::PhantomData);
            let s = ElementSourceAssemblerBuilder::new().with_finite_element_space(&m).with_source(&one).with_quadrature_table(&table).build();
            let mut b = vector_with(p.par, &colors, &s);
            apply_homogeneous_dirichlet_bc_csr(&mut a, &p.fixed, 1);
            apply_homogeneous_dirichlet_bc_rhs(&mut b, &p.fixed, 1);
            matrix(&mut o, "constrained", -1.0, &a);
            let tol = t(if std::mem::size_of::<T>() == 4 { 1e-6 } else { 1e-12 });
            let mut diag = DVector::repeat(n, t(1.0));
            for (i, j, v) in a.triplet_iter() {
                if i == j {
                    diag[i] = *v;
                }
            }
            let mut x = DVector::zeros(n);
            let r = ConjugateGradient::new()
                .with_operator(&a)
                .with_preconditioner(Jacobi(diag))
                .with_stopping_criterion(RelativeResidualCriterion::new(tol))
                .with_max_iter(40 * n + 100)
                .solve_with_guess(&b, &mut x);
            if r.is_ok() {
                o.num("solution", -20.0, 0.0, fl(x.iter()));
                o.num("stored_energy", -20.0, 0.0, vec![x.dot(&b) as f64]);
            } else {
                o.flag("not_converged");
            }
        }
    });
    o
}
fn fl_t(x: &[f64]) -> Vec<T> {
    x.iter().map(|&x| t(x)).collect()
}

// ---- interpolation ----

/// values are a linear function of the coordinates plus an own value per node
pub fn interpolation(km: &KMesh, u: &[f64], points: &[Vec<f64>]) -> Out {
    let mut o = Out::default();
    macro_rules! arm {
        ($conn:ident, $d:ty) => {{
            let verts: Vec<_> = km.v.iter().map(|p| pt::<$d>(p)).collect();
            let conn: Vec<$conn> = km.c.iter().map(|c| $conn(std::array::from_fn(|i| c[i]))).collect();
            let m = Mesh::<T, $d, $conn>::from_vertices_and_connectivity(verts, conn);
            for i in 0..km.c.len() {
                let bb = m.bounds_for_element(i);
                o.num("bounds", 4.0, 0.0, flp(&[bb.min().clone(), bb.max().clone()]));
            }
            let ix = SpatiallyIndexed::from_space(m);
            let pts: Vec<_> = points.iter().map(|x| pt::<$d>(x)).collect();
            let u = dv(u);
            let val = InterpolateInSpace::<T, U2>::interpolate_at_points(&ix, &pts, u.as_view());
            let grad = InterpolateGradientInSpace::<T, U2>::interpolate_gradient_at_points(&ix, &pts, u.as_view());
            o.num("values", -1.0, 0.0, val.iter().flat_map(|x| fl(x.iter())).collect());
            o.num("value_gradients", -1.0, 0.0, grad.iter().flat_map(|x| fl(x.iter())).collect());
            let fixed = FixedInterpolator::from_space_and_points(&ix, &pts, ValuesOrGradients::Both);
            o.num("fixed_values", -1.0, 0.0, fixed.interpolate::<U2>(&u).iter().flat_map(|x| fl(x.iter())).collect());
            o.num("fixed_gradients", -1.0, 0.0, fixed.interpolate_gradients::<$d, U2>(&u).iter().flat_map(|x| fl(x.iter())).collect());
            for p in &pts {
                let (e, xi) = ix.find_closest_element_and_reference_coords(p).unwrap();
                o.int("closest_element", vec![e]);
                o.num("reference_coords", -1.0, 1.0, flp(&[xi]));
            }
        }};
    }
    match km.name {
        "tri3" => arm!(Tri3d2Connectivity, U2),
        "tet4" => arm!(Tet4Connectivity, U3),
        _ => unreachable!(),
    }
    o
}

// ---- geometry ----

pub struct Geo {
    pub tri: Vec<Vec<f64>>,
    pub quad: Vec<Vec<f64>>,
    pub tet: Vec<Vec<f64>>,
    pub hex: Vec<Vec<f64>>,
    pub poly: Vec<Vec<f64>>,
    pub poly2: Vec<Vec<f64>>,
    pub p2: Vec<f64>,
    pub p3: Vec<f64>,
    pub q3: Vec<f64>,
    pub n3: Vec<f64>,
}
pub fn geometry(g: &Geo) -> Out {
    let mut o = Out::default();
    let p2s = |v: &[Vec<f64>]| v.iter().map(|x| pt::<U2>(x)).collect::<Vec<_>>();
    let p3s = |v: &[Vec<f64>]| v.iter().map(|x| pt::<U3>(x)).collect::<Vec<_>>();
    let (p2, p3, q3) = (pt::<U2>(&g.p2), pt::<U3>(&g.p3), pt::<U3>(&g.q3));
    let one = |x: T| vec![x as f64];
    // boxes
    let tet = p3s(&g.tet);
    let b = AxisAlignedBoundingBox::from_points(&tet).unwrap();
    o.num("box", 4.0, 0.0, flp(&[b.min().clone(), b.max().clone(), b.center(), OPoint::from(b.extents()), b.closest_point_to(&p3), b.furthest_point_to(&p3)]));
    o.num("box_distances", 20.0, 0.0, vec![b.dist_to(&p3) as f64, b.max_dist_to(&p3) as f64, b.max_extent() as f64]);
    // triangles
    let tr = p2s(&g.tri);
    let tr = Triangle([tr[0], tr[1], tr[2]]);
    let size = g.tri.iter().flatten().fold(1.0, |a: f64, x| a.max(x.abs()));
    o.num("triangle", 20.0, size * size, vec![tr.area() as f64, tr.signed_area() as f64]);
    o.num("triangle_centroid", 20.0, size, flp(&[tr.centroid()]));
    o.num("triangle_distance", 100.0, size, one(tr.distance(&p2)));
    let sd = tr.query_signed_distance(&p2).unwrap();
    o.num("triangle_signed_distance", 100.0, size, one(sd.signed_distance));
    let t3 = Triangle([tet[0].clone(), tet[1].clone(), tet[2].clone()]);
    let size = g.tet.iter().flatten().chain(&g.p3).fold(1.0, |a: f64, x| a.max(x.abs()));
    o.num("triangle3", 40.0, size * size, one(t3.area()));
    o.num("triangle3_distance", 100.0, size, one(t3.distance(&p3)));
    o.num("solid_angle", -1.0, 1.0, one(t3.compute_solid_angle(&p3)));
    // quads
    let q = p2s(&g.quad);
    let q = Quad2d([q[0], q[1], q[2], q[3]]);
    let size2 = g.quad.iter().flatten().chain(&g.p2).fold(1.0, |a: f64, x| a.max(x.abs()));
    o.num("quad", 40.0, size2 * size2, one(q.area()));
    o.num("quad_distance", 100.0, size2, one(q.distance(&p2)));
    // polyhedra
    let te = Tetrahedron::from_vertices([tet[0].clone(), tet[1].clone(), tet[2].clone(), tet[3].clone()]);
    o.num("tet_volume", 100.0, size * size * size, one(te.compute_volume()));
    o.num("tet_distance", 100.0, size, one(te.distance(&p3)));
    let h = p3s(&g.hex);
    let h = Hexahedron::from_vertices(std::array::from_fn(|i| h[i].clone()));
    let size3 = g.hex.iter().flatten().chain(&g.p3).fold(1.0, |a: f64, x| a.max(x.abs()));
    o.num("hex_volume", 200.0, size3 * size3 * size3, one(h.compute_volume()));
    o.num("hex_distance", 200.0, size3, one(h.distance(&p3)));
    // lines
    let s = LineSegment3d::from_end_points(tet[0].clone(), tet[1].clone());
    o.num("segment", -1.0, size, flp(&[s.closest_point(&p3), s.midpoint()]));
    o.num("segment_length", 20.0, size, one(s.length()));
    let l = Line3d::from_point_and_dir(q3.clone(), Vector3::new(t(g.n3[0]), t(g.n3[1]), t(g.n3[2])));
    o.num("line", -1.0, size, flp(&[l.project_point(&p3)]));
    let normal = Unit::new_normalize(Vector3::new(t(g.n3[0]), t(g.n3[1]), t(g.n3[2])));
    let hs = HalfSpace::from_point_and_normal(q3.clone(), normal.clone());
    o.num("half_space", 60.0, size.max(4.0), one(hs.signed_distance_to_point(&p3)));
    let pl = Plane::from_point_and_normal(q3, normal.clone());
    o.num("segment_to_plane", -1.0, size, flp(&[s.closest_point_to_plane(&pl)]));
    // polygons
    let poly = p2s(&g.poly);
    let sp = SimplePolygon2d::from_vertices(poly.clone());
    let size = g.poly.iter().chain(&g.poly2).flatten().chain(&g.p2).fold(1.0, |a: f64, x| a.max(x.abs()));
    o.num("polygon", 200.0, size * size, vec![sp.area() as f64, sp.signed_area() as f64]);
    o.num("polygon_distance", 100.0, size, one(sp.distance(&p2)));
    let far = sp.closest_edge(&p2).unwrap();
    o.num("polygon_signed_distance", 100.0, size, one(far.signed_distance));
    let c1 = ConvexPolygon::from_vertices(poly);
    let c2 = ConvexPolygon::from_vertices(p2s(&g.poly2));
    let both = c1.intersect_polygon(&c2);
    let area = |v: &[Point2<T>]| -> f64 {
        (0..v.len()).map(|i| { let (a, b) = (v[i], v[(i + 1) % v.len()]); (a.x as f64 * b.y as f64 - a.y as f64 * b.x as f64) / 2.0 }).sum()
    };
    o.num("common_area", -1.0, size * size, vec![area(both.vertices())]);
    let s3 = sp.apply_isometry(&Isometry3::identity());
    o.num("polygon3", 200.0, size * size, one(s3.area()));
    let cut = s3.intersect_half_space(&HalfSpace::from_point_and_normal(pt::<U3>(&[g.p2[0] * 0.3, g.p2[1] * 0.3, 0.0]), normal));
    o.num("cut_area", -1.0, size * size, one(cut.area()));
    o
}

// ---- solver ----

pub struct Nl {
    pub a: Vec<f64>,
    pub root: Vec<f64>,
    pub start: Vec<f64>,
    pub e: f64,
    pub line: bool,
}
struct Fun<'a>(&'a Nl);
impl<'a> Fun<'a> {
    fn a(&self) -> DMatrix<T> {
        let n = self.0.root.len();
        DMatrix::from_iterator(n, n, self.0.a.iter().map(|&x| t(x)))
    }
}
impl<'a> VectorFunction<T> for Fun<'a> {
    fn dimension(&self) -> usize {
        self.0.root.len()
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<T>, x: &DVectorView<T>) {
        let y = x - dv(&self.0.root);
        f.copy_from(&(self.a() * y.map(|y| y + t(self.0.e) * y * y * y)));
    }
}
impl<'a> DifferentiableVectorFunction<T> for Fun<'a> {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<T>, x: &DVectorView<T>, rhs: &DVectorView<T>) -> Result<(), Box<dyn std::error::Error>> {
        let y = x - dv(&self.0.root);
        let j = self.a() * DMatrix::from_diagonal(&y.map(|y| t(1.0) + t(3.0 * self.0.e) * y * y));
        sol.copy_from(&j.lu().solve(&rhs.clone_owned()).ok_or("singular")?);
        Ok(())
    }
}
pub fn nonlinear(p: &Nl) -> Out {
    let mut o = Out::default();
    let n = p.root.len();
    let mut x = dv(&p.start);
    let (mut f, mut dx) = (DVector::zeros(n), DVector::zeros(n));
    let set = NewtonSettings { max_iterations: Some(60), tolerance: t(1e-4) };
    let mut fun = Fun(p);
    let r = if p.line {
        newton_line_search(&mut fun, &mut x, &mut f, &mut dx, set, &mut BacktrackingLineSearch {}).is_ok()
    } else {
        newton(&mut fun, &mut x, &mut f, &mut dx, set).is_ok()
    };
    o.int("newton_converged", vec![r as usize]);
    if r {
        o.num("newton", -1.0, 1.0, fl(x.iter()));
    }
    let j = approximate_jacobian(Fun(p), &dv(&p.start), &t(0.0625));
    o.num("approximate_jacobian", -1.0, 0.0, fl(j.iter()));
    let g = approximate_gradient_fd(|x: DVectorView<T>| x.norm_squared(), &mut dv(&p.start), t(0.0625));
    o.num("approximate_gradient", -1.0, 0.0, fl(g.iter()));
    o
}

use fenris::allocators::BiDimAllocator;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::nalgebra::*;
use fenris::nalgebra_sparse::CsrMatrix;
use fenris::quadrature::*;
use fenris::space::VolumetricFiniteElementSpace;
use fenris::SmallDim;
use fenris_sparse::cg::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use vfem::oracle::*;
use vfem::view::*;
use vlib::{Case, Rng};

/// a polynomial in up to three variables
#[derive(Clone, Debug)]
pub struct Poly {
    pub t: Vec<([u32; 3], f64)>,
    pub center: Vec<f64>,
    pub len: f64,
}
impl Poly {
    pub fn random(rng: &mut Rng, d: usize, degree: u32, center: &[f64], len: f64) -> Poly {
        let mut t = vec![];
        for a in 0..=degree {
            for b in 0..=(if d > 1 { degree } else { 0 }) {
                for k in 0..=(if d > 2 { degree } else { 0 }) {
                    if a + b + k <= degree {
                        t.push(([a, b, k], rng.normal()));
                    }
                }
            }
        }
        Poly { t, center: center.to_vec(), len }
    }
    pub fn at(&self, x: &[f64]) -> f64 {
        self.t
            .iter()
            .map(|(e, k)| k * x.iter().enumerate().map(|(i, x)| ((x - self.center[i]) / self.len).powi(e[i] as i32)).product::<f64>())
            .sum()
    }
    pub fn d(&self, i: usize) -> Poly {
        let t = self
            .t
            .iter()
            .filter(|(e, _)| e[i] > 0)
            .map(|(e, k)| {
                let mut f = *e;
                f[i] -= 1;
                (f, k * e[i] as f64 / self.len)
            })
            .collect();
        Poly { t, center: self.center.clone(), len: self.len }
    }
    pub fn plus(&self, o: &Poly, f: f64) -> Poly {
        let mut r = self.clone();
        r.t.extend(o.t.iter().map(|(e, k)| (*e, k * f)));
        r
    }
    pub fn zero(&self) -> Poly {
        Poly { t: vec![], ..self.clone() }
    }
    pub fn laplacian(&self, d: usize) -> Poly {
        (0..d).fold(self.zero(), |a, i| a.plus(&self.d(i).d(i), 1.0))
    }
}

/// one polynomial per component
pub struct Load<S> {
    pub p: Vec<Poly>,
    pub _s: PhantomData<S>,
}
impl<D: SmallDim, S: SmallDim> Operator<f64, D> for Load<S> {
    type SolutionDim = S;
    type Parameters = ();
}
impl<D: SmallDim, S: SmallDim> SourceFunction<f64, D> for Load<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn evaluate(&self, x: &OPoint<f64, D>, _: &()) -> OVector<f64, S> {
        let x = v(x);
        OVector::<f64, S>::from_fn(|i, _| self.p[i].at(&x))
    }
}

pub struct Problem {
    pub km: KMesh,
    pub sh: Shape,
    pub boundary: Vec<bool>,
    pub center: Vec<f64>,
    pub len: f64,
}
pub fn degree(name: &str) -> u32 {
    match name {
        "seg1" | "tri3" | "quad4" | "tet4" | "hex8" => 1,
        "tet20" => 3,
        _ => 2,
    }
}
/// nodes on faces that belong to one cell only, and nodes of no cell
pub fn boundary_nodes(e: &El, v: usize, c: &[Vec<usize>]) -> Vec<bool> {
    let faces = e.topo.map_or(vec![vec![0], vec![1]], |t| t.faces());
    let mut m: BTreeMap<Vec<usize>, Vec<(usize, usize)>> = BTreeMap::new();
    let mut out = vec![true; v];
    for (i, cell) in c.iter().enumerate() {
        for &k in cell {
            out[k] = false;
        }
        for (j, f) in faces.iter().enumerate() {
            let mut key: Vec<usize> = f.iter().map(|&k| cell[k]).collect();
            key.sort();
            m.entry(key).or_default().push((i, j));
        }
    }
    for l in m.values() {
        if let [(i, j)] = l[..] {
            for (n, w) in e.weights.iter().enumerate() {
                if w.iter().all(|(k, _)| faces[j].contains(k)) {
                    out[c[i][n]] = true;
                }
            }
        }
    }
    out
}
impl Problem {
    pub fn random(c: &mut Case, names: &[&'static str], affine: bool) -> Problem {
        let name = *c.rng.pick(names);
        let sh = Shape::new(name);
        let max = match name {
            "seg1" => 60,
            "tri3" | "quad4" => 60,
            "tri6" | "quad9" => 24,
            "tet4" | "hex8" => 40,
            _ => 12,
        };
        let km = kmesh(&mut c.rng, name, max, affine);
        c.key((name, &km.c));
        c.keyf(&km.flat());
        Problem::of(sh, km)
    }
    pub fn of(sh: Shape, km: KMesh) -> Problem {
        let boundary = boundary_nodes(&sh.e, km.v.len(), &km.c);
        let d = km.v[0].len();
        let center: Vec<f64> = (0..d).map(|k| km.v.iter().map(|x| x[k]).sum::<f64>() / km.v.len() as f64).collect();
        let len = km.v.iter().map(|x| dist(x, &center)).fold(1e-300, f64::max);
        Problem { km, sh, boundary, center, len }
    }
    pub fn n(&self) -> usize {
        self.km.v.len()
    }
    /// boundary nodes and some others, in random order and sometimes repeated
    pub fn constrained(&self, rng: &mut Rng) -> Vec<usize> {
        let p = if rng.bool() { 0.0 } else { 0.1 };
        let mut n: Vec<usize> = (0..self.n()).filter(|&i| self.boundary[i] || rng.chance(p)).collect();
        rng.shuffle(&mut n);
        if rng.chance(0.2) {
            let k = *rng.pick(&n);
            n.push(k);
        }
        n
    }
}

fn fl<D: DimName>(q: QuadraturePair<f64, D>) -> (Vec<f64>, Vec<Vec<f64>>)
where
    DefaultAllocator: allocator::Allocator<f64, D>,
{
    (q.0, q.1.iter().map(v).collect())
}
/// a rule of the library that is exact for polynomials of degree four on affine cells
pub fn strong(rng: &mut Rng, e: &El) -> (Vec<f64>, Vec<Vec<f64>>) {
    let k = rng.range(4, 7);
    match Dom::of(e) {
        Dom::Seg => fl(univariate::gauss::<f64>(k / 2 + 1)),
        Dom::Tri => fl(total_order::triangle::<f64>(k).unwrap()),
        Dom::Quad => fl(tensor::quadrilateral_gauss::<f64>(k / 2 + 1)),
        Dom::Tet => fl(total_order::tetrahedron::<f64>(k).unwrap()),
        _ => fl(tensor::hexahedron_gauss::<f64>(k / 2 + 1)),
    }
}
pub fn table<D: SmallDim>(r: &(Vec<f64>, Vec<Vec<f64>>)) -> UniformQuadratureTable<f64, D, ()>
where
    DefaultAllocator: allocator::Allocator<f64, D>,
{
    UniformQuadratureTable::from_points_and_weights(r.1.iter().map(|x| pt::<D>(x)).collect(), r.0.clone())
}

pub struct Jacobi(pub DVector<f64>);
impl LinearOperator<f64> for Jacobi {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn std::error::Error>> {
        y.copy_from(&x.component_div(&self.0));
        Ok(())
    }
}

pub fn dense(a: &CsrMatrix<f64>) -> DMatrix<f64> {
    let mut m = DMatrix::zeros(a.nrows(), a.ncols());
    for (i, j, x) in a.triplet_iter() {
        m[(i, j)] += *x;
    }
    m
}

/// solves the symmetric positive definite system by one of several ways
pub fn solve(c: &mut Case, a: &CsrMatrix<f64>, b: &DVector<f64>) -> Option<DVector<f64>> {
    let n = b.len();
    let way = if n > 350 { c.rng.below(2) } else { c.rng.below(3) };
    let mut x = DVector::zeros(n);
    if way < 2 {
        c.count("iterative_solves", 1);
        let r = if way == 0 {
            ConjugateGradient::new()
                .with_operator(a)
                .with_stopping_criterion(RelativeResidualCriterion::new(1e-13))
                .with_max_iter(40 * n + 100)
                .solve_with_guess(b, &mut x)
                .map(|o| o.num_iterations)
                .map_err(|e| format!("{e:?}"))
        } else {
            let mut diag = DVector::repeat(n, 1.0);
            for (i, j, v) in a.triplet_iter() {
                if i == j {
                    diag[i] = *v;
                }
            }
            ConjugateGradient::new()
                .with_operator(a)
                .with_preconditioner(Jacobi(diag))
                .with_stopping_criterion(RelativeResidualCriterion::new(1e-13))
                .with_max_iter(40 * n + 100)
                .solve_with_guess(b, &mut x)
                .map(|o| o.num_iterations)
                .map_err(|e| format!("{e:?}"))
        };
        match r {
            Ok(_) => Some(x),
            // the attainable accuracy of an ill conditioned system may be worse than asked for
            Err(_) => {
                c.count("iterations_not_converged", 1);
                dense(a).lu().solve(b)
            }
        }
    } else {
        c.count("direct_solves", 1);
        let s = dense(a).cholesky();
        if !c.check(s.is_some(), "not_positive_definite", || format!("{n} unknowns")) {
            return None;
        }
        Some(s.unwrap().solve(b))
    }
}

/// global matrix and vector, serial or parallel
pub fn assemble<A, V>(c: &mut Case, colors: &[fenris_paradis_colors::Colors], a: &A, f: Option<&V>) -> (CsrMatrix<f64>, DVector<f64>)
where
    A: ElementMatrixAssembler<f64> + Sync,
    V: ElementVectorAssembler<f64> + Sync,
{
    let n = a.num_nodes() * a.solution_dim();
    let par = c.rng.bool();
    let m = if par { CsrParAssembler::default().assemble(colors, a).unwrap() } else { CsrAssembler::default().assemble(a).unwrap() };
    let v = match f {
        None => DVector::zeros(n),
        Some(f) if par => VectorParAssembler::default().assemble_vector(colors, f).unwrap(),
        Some(f) => VectorAssembler::default().assemble_vector(f).unwrap(),
    };
    if par {
        c.count("parallel_systems", 1);
    }
    (m, v)
}
pub mod fenris_paradis_colors {
    pub type Colors = fenris_paradis::DisjointSubsets;
}

/// A w = f - A g with w = 0 at the constrained nodes; returns w + g
pub fn solve_with_values(c: &mut Case, mut a: CsrMatrix<f64>, f: DVector<f64>, g: &DVector<f64>, nodes: &[usize], s: usize) -> Option<DVector<f64>> {
    let mut ag = DVector::zeros(g.len());
    for (i, j, x) in a.triplet_iter() {
        ag[i] += x * g[j];
    }
    let mut b = f - ag;
    apply_homogeneous_dirichlet_bc_csr(&mut a, nodes, s);
    apply_homogeneous_dirichlet_bc_rhs(&mut b, nodes, s);
    solve(c, &a, &b).map(|w| w + g)
}

pub trait Space<D: SmallDim>: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync
where
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
}
impl<D: SmallDim, M> Space<D> for M
where
    M: VolumetricFiniteElementSpace<f64, ReferenceDim = D, GeometryDim = D> + Sync,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
}

#[macro_export]
macro_rules! every_mesh {
    ($km:expr, $m:ident, $d:ident => $body:expr) => {{
        macro_rules! arm {
            ($conn:ident, $dd:ty) => {{
                type $d = $dd;
                let verts: Vec<_> = $km.v.iter().map(|p| vfem::view::pt::<$d>(p)).collect();
                let conn: Vec<fenris::connectivity::$conn> =
                    $km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
                let $m = fenris::mesh::Mesh::from_vertices_and_connectivity(verts, conn);
                $body
            }};
        }
        match $km.name {
            "tri3" => arm!(Tri3d2Connectivity, U2),
            "tri6" => arm!(Tri6d2Connectivity, U2),
            "quad4" => arm!(Quad4d2Connectivity, U2),
            "quad9" => arm!(Quad9d2Connectivity, U2),
            "tet4" => arm!(Tet4Connectivity, U3),
            "tet10" => arm!(Tet10Connectivity, U3),
            "tet20" => arm!(Tet20Connectivity, U3),
            "hex8" => arm!(Hex8Connectivity, U3),
            "hex20" => arm!(Hex20Connectivity, U3),
            "hex27" => arm!(Hex27Connectivity, U3),
            _ => unreachable!(),
        }
    }};
}
pub const ALL: [&str; 10] = ["tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];

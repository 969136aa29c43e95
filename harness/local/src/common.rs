use fenris::allocators::BiDimAllocator;
use fenris::assembly::local::*;
use fenris::nalgebra::*;
use fenris::util::NestedVec;
use fenris::SmallDim;
use vfem::oracle::*;
use vfem::view::*;
use vlib::{Case, Rng};

/// points, weights and per-point data of one rule on plain numbers
#[derive(Clone, Debug)]
pub struct Rule<Data> {
    pub p: Vec<Vec<f64>>,
    pub w: Vec<f64>,
    pub data: Vec<Data>,
}

/// one of the library's tables, forwarding every call unchanged
#[derive(Clone, Debug)]
pub enum Table<D: SmallDim, Data>
where
    DefaultAllocator: allocator::Allocator<f64, D>,
{
    U(UniformQuadratureTable<f64, D, Data>),
    G(GeneralQuadratureTable<f64, D, Data>),
    C(CompactQuadratureTable<f64, D, Data>),
}
macro_rules! fwd {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            Table::U($t) => $e,
            Table::G($t) => $e,
            Table::C($t) => $e,
        }
    };
}
impl<D: SmallDim, Data: Default + Clone> QuadratureTable<f64, D> for Table<D, Data>
where
    DefaultAllocator: allocator::Allocator<f64, D>,
{
    type Data = Data;
    fn element_quadrature_size(&self, i: usize) -> usize {
        fwd!(self, t => t.element_quadrature_size(i))
    }
    fn populate_element_data(&self, i: usize, data: &mut [Data]) {
        fwd!(self, t => t.populate_element_data(i, data))
    }
    fn populate_element_quadrature(&self, i: usize, points: &mut [OPoint<f64, D>], weights: &mut [f64]) {
        fwd!(self, t => t.populate_element_quadrature(i, points, weights))
    }
    fn populate_element_quadrature_and_data(&self, i: usize, points: &mut [OPoint<f64, D>], weights: &mut [f64], data: &mut [Data]) {
        fwd!(self, t => t.populate_element_quadrature_and_data(i, points, weights, data))
    }
}

/// which rule every element uses
#[derive(Clone, Debug)]
pub struct Rules<Data> {
    pub rules: Vec<Rule<Data>>,
    pub map: Vec<usize>,
}
impl<Data: Clone + Default> Rules<Data> {
    pub fn of(&self, i: usize) -> &Rule<Data> {
        &self.rules[self.map[i]]
    }
    pub fn random(rng: &mut Rng, e: &El, cells: usize, positive: bool, mut data: impl FnMut(&mut Rng) -> Data) -> Self {
        let k = match rng.below(3) {
            0 => 1,
            1 => rng.range(1, 4),
            _ => cells,
        };
        let rules = (0..k)
            .map(|_| {
                let n = rng.sized(1, 6, 80);
                let p = (0..n).map(|_| e.ref_point(rng)).collect();
                let w = (0..n).map(|_| if !positive && rng.chance(0.2) { -rng.f01() } else { rng.f(0.05, 1.0) }).collect();
                Rule { p, w, data: (0..n).map(|_| data(rng)).collect() }
            })
            .collect();
        let map = (0..cells).map(|i| if k == cells { i } else { rng.below(k) }).collect();
        Rules { rules, map }
    }
    /// a rule that is exact for the given degree
    pub fn exact(rng: &mut Rng, e: &El, cells: usize, n: usize, mut data: impl FnMut(&mut Rng) -> Data) -> Self {
        let (w, p) = Dom::of(e).rule(n);
        let d = w.iter().map(|_| data(rng)).collect();
        Rules { rules: vec![Rule { p, w, data: d }], map: vec![0; cells] }
    }
    pub fn table<D: SmallDim>(&self, kind: usize) -> Table<D, Data>
    where
        DefaultAllocator: allocator::Allocator<f64, D>,
    {
        let pts = |r: &Rule<Data>| r.p.iter().map(|x| pt::<D>(x)).collect::<Vec<_>>();
        let kind = if kind == 0 && self.rules.len() > 1 { 1 } else { kind };
        match kind {
            0 => Table::U(UniformQuadratureTable::from_points_weights_and_data(
                pts(&self.rules[0]),
                self.rules[0].w.clone(),
                self.rules[0].data.clone(),
            )),
            1 => {
                let (mut p, mut w, mut d) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
                for &k in &self.map {
                    let r = &self.rules[k];
                    p.push(&pts(r));
                    w.push(&r.w);
                    d.push(&r.data);
                }
                Table::G(GeneralQuadratureTable::from_points_weights_and_data(p, w, d))
            }
            _ => {
                let (mut p, mut w, mut d) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
                for r in &self.rules {
                    p.push(&pts(r));
                    w.push(&r.w);
                    d.push(&r.data);
                }
                Table::C(CompactQuadratureTable::from_quadrature_rules_and_map(p, w, d, self.map.clone()))
            }
        }
    }
}

/// everything the oracle needs at one quadrature point
pub struct At {
    pub w: f64,
    pub det: f64,
    pub phi: Vec<f64>,
    /// physical gradients
    pub grad: Vec<Vec<f64>>,
    pub x: Vec<f64>,
}

pub struct Mesh0 {
    pub km: KMesh,
    pub sh: Shape,
    /// smallest distance of two corners of a cell
    pub size: f64,
}

impl Mesh0 {
    pub fn random(c: &mut Case, names: &[&'static str], max2: usize, max3: usize, affine: bool) -> Mesh0 {
        let name = *c.rng.pick(names);
        let sh = Shape::new(name);
        let mut km = kmesh(&mut c.rng, name, if sh.e.rd == 3 { max3 } else { max2 }, affine);
        if c.rng.chance(0.15) {
            // mirrored: negative Jacobian determinants
            for x in km.v.iter_mut() {
                x[0] = -x[0];
            }
            c.count("mirrored_meshes", 1);
        }
        if c.rng.chance(0.25) {
            let t = c.rng.logf(1e-7, 1e7);
            km.v.iter_mut().flatten().for_each(|x| *x *= t);
            c.count("meshes_of_extreme_size", 1);
        }
        c.key((name, &km.c));
        c.keyf(&km.flat());
        let mut size = f64::INFINITY;
        for i in 0..km.c.len() {
            let k = km.corners(&sh.e, i);
            for a in 0..k.len() {
                for b in 0..a {
                    size = size.min(dist(&k[a], &k[b]));
                }
            }
        }
        Mesh0 { km, sh, size }
    }
    pub fn cells(&self) -> usize {
        self.km.c.len()
    }
    pub fn nodes(&self) -> usize {
        self.km.v.len()
    }
    pub fn at<Data>(&self, i: usize, rule: &Rule<Data>) -> Vec<At> {
        let corners = self.km.corners(&self.sh.e, i);
        rule.w
            .iter()
            .zip(&rule.p)
            .map(|(w, p)| {
                let (grad, det) = self.sh.phys_grads(&corners, p);
                At { w: *w, det, phi: self.sh.basis(p), grad, x: self.sh.e.map(&corners, p) }
            })
            .collect()
    }
    pub fn local(&self, i: usize, s: usize, u: &[f64]) -> Vec<f64> {
        self.km.c[i].iter().flat_map(|&k| u[s * k..s * k + s].to_vec()).collect()
    }
}
/// gradient of the discrete function with local values u (s per node): g[k][i] = d u_i / d x_k
pub fn ugrad(at: &At, u: &[f64], s: usize) -> Vec<Vec<f64>> {
    let d = at.grad[0].len();
    let mut g = vec![vec![0.0; s]; d];
    for (n, gr) in at.grad.iter().enumerate() {
        for k in 0..d {
            for i in 0..s {
                g[k][i] += gr[k] * u[s * n + i];
            }
        }
    }
    g
}
pub fn uval(at: &At, u: &[f64], s: usize) -> Vec<f64> {
    (0..s).map(|i| at.phi.iter().enumerate().map(|(n, p)| p * u[s * n + i]).sum()).collect()
}
pub fn om<D: SmallDim, S: SmallDim>(g: &[Vec<f64>]) -> OMatrix<f64, D, S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    OMatrix::<f64, D, S>::from_fn(|k, i| g[k][i])
}
pub fn maxa(x: &[f64]) -> f64 {
    x.iter().fold(0.0, |a: f64, b| a.max(b.abs()))
}

#[macro_export]
macro_rules! every_mesh {
    ($km:expr, $m:ident, $d:ident => $body:expr) => {{
        macro_rules! arm {
            ($conn:ident, $dd:ty) => {{
                type $d = $dd;
                let verts: Vec<_> = $km.v.iter().map(|p| vfem::view::pt::<$d>(p)).collect();
                let conn: Vec<fenris::connectivity::$conn> =
                    $km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
                let $m = fenris::mesh::Mesh::from_vertices_and_connectivity(verts, conn);
                $body
            }};
        }
        match $km.name {
            "seg1" => arm!(Segment2d1Connectivity, U1),
            "tri3" => arm!(Tri3d2Connectivity, U2),
            "tri6" => arm!(Tri6d2Connectivity, U2),
            "quad4" => arm!(Quad4d2Connectivity, U2),
            "quad9" => arm!(Quad9d2Connectivity, U2),
            "tet4" => arm!(Tet4Connectivity, U3),
            "tet10" => arm!(Tet10Connectivity, U3),
            "tet20" => arm!(Tet20Connectivity, U3),
            "hex8" => arm!(Hex8Connectivity, U3),
            "hex20" => arm!(Hex20Connectivity, U3),
            "hex27" => arm!(Hex27Connectivity, U3),
            _ => unreachable!(),
        }
    }};
}

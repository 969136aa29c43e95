//! Elements behind plain-number closures, so that one oracle judges every element kind.
use fenris::allocators::BiDimAllocator;
use fenris::element::*;
use fenris::nalgebra::{DMatrix, DefaultAllocator, DimName, OPoint, OVector, Point1, Point2, Point3, U1};
use crate::*;
use vlib::Rng;

#[derive(Clone, Debug)]
pub struct El {
    pub name: &'static str,
    /// None for segments
    pub topo: Option<Topo>,
    pub rd: usize,
    pub gd: usize,
    /// reference position of every node
    pub rnodes: Vec<Vec<f64>>,
    /// reference corners
    pub rcorners: Vec<Vec<f64>>,
    /// exponents of a monomial basis of the function space
    pub mono: Vec<[u32; 3]>,
    /// weights of every node on the corners
    pub weights: Vec<Vec<(usize, f64)>>,
}

pub const TRI_REF: [[f64; 2]; 3] = [[-1.0, -1.0], [1.0, -1.0], [-1.0, 1.0]];
pub const TET_REF: [[f64; 3]; 4] = [[-1.0, -1.0, -1.0], [1.0, -1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0]];

fn total(d: usize, p: u32) -> Vec<[u32; 3]> {
    let mut out = vec![];
    for a in 0..=p {
        for b in 0..=(if d > 1 { p } else { 0 }) {
            for c in 0..=(if d > 2 { p } else { 0 }) {
                if a + b + c <= p {
                    out.push([a, b, c]);
                }
            }
        }
    }
    out
}
fn tensor(d: usize, p: u32) -> Vec<[u32; 3]> {
    let mut out = vec![];
    for a in 0..=p {
        for b in 0..=(if d > 1 { p } else { 0 }) {
            for c in 0..=(if d > 2 { p } else { 0 }) {
                out.push([a, b, c]);
            }
        }
    }
    out
}
/// superlinear degree at most two
fn serendipity() -> Vec<[u32; 3]> {
    tensor(3, 2).into_iter().filter(|m| m.iter().filter(|&&e| e > 1).sum::<u32>() <= 2).collect()
}

pub const KINDS: [&str; 13] =
    ["seg1", "seg2", "tri3", "tri3s", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];

pub fn describe(name: &'static str) -> El {
    if name == "seg1" || name == "seg2" {
        let r = vec![vec![-1.0], vec![1.0]];
        return El {
            name,
            topo: None,
            rd: 1,
            gd: if name == "seg1" { 1 } else { 2 },
            rnodes: r.clone(),
            rcorners: r,
            mono: total(1, 1),
            weights: vec![vec![(0, 1.0)], vec![(1, 1.0)]],
        };
    }
    let k = kind(if name == "tri3s" { "tri3" } else { name });
    let rcorners: Vec<Vec<f64>> = match k.topo {
        Topo::Tri => TRI_REF.iter().map(|p| p.to_vec()).collect(),
        Topo::Quad => QUAD_CORNERS.iter().map(|p| p.iter().map(|&x| x as f64).collect()).collect(),
        Topo::Tet => TET_REF.iter().map(|p| p.to_vec()).collect(),
        Topo::Hex => HEX_CORNERS.iter().map(|p| p.iter().map(|&x| x as f64).collect()).collect(),
    };
    let rd = rcorners[0].len();
    let rnodes = k.nodes.iter().map(|w| (0..rd).map(|d| w.iter().map(|&(c, x)| x * rcorners[c][d]).sum()).collect()).collect();
    let mono = match name {
        "tri3" | "tri3s" => total(2, 1),
        "tri6" => total(2, 2),
        "quad4" => tensor(2, 1),
        "quad9" => tensor(2, 2),
        "tet4" => total(3, 1),
        "tet10" => total(3, 2),
        "tet20" => total(3, 3),
        "hex8" => tensor(3, 1),
        "hex20" => serendipity(),
        "hex27" => tensor(3, 2),
        _ => unreachable!(),
    };
    assert_eq!(mono.len(), k.nodes.len());
    El { name, topo: Some(k.topo), rd, gd: if name == "tri3s" { 3 } else { rd }, rnodes, rcorners, mono, weights: k.nodes }
}

impl El {
    /// random point of the reference domain: inside, on its boundary, at a node
    pub fn ref_point(&self, rng: &mut Rng) -> Vec<f64> {
        if rng.chance(0.1) {
            return rng.pick(&self.rnodes).clone();
        }
        if rng.chance(0.05) {
            return vec![0.0; self.rd].iter().map(|_: &f64| if self.simplex() { -1.0 / 3.0 } else { 0.0 }).collect();
        }
        if self.simplex() {
            let n = self.rd + 1;
            let mut w: Vec<f64> = (0..n).map(|_| if rng.chance(0.2) { 0.0 } else { -rng.f01().max(1e-300).ln() }).collect();
            let s: f64 = w.iter().sum();
            if s == 0.0 {
                return self.rcorners[0].clone();
            }
            w.iter_mut().for_each(|x| *x /= s);
            return (0..self.rd).map(|d| (0..n).map(|i| w[i] * self.rcorners[i][d]).sum()).collect();
        }
        (0..self.rd).map(|_| if rng.chance(0.2) { *rng.pick(&[-1.0, 1.0, 0.0]) } else { rng.f(-1.0, 1.0) }).collect()
    }
    pub fn simplex(&self) -> bool {
        matches!(self.topo, Some(Topo::Tri) | Some(Topo::Tet))
    }
    /// weights of the corners at reference point x: the geometry map
    pub fn geo(&self, x: &[f64]) -> Vec<f64> {
        if self.simplex() {
            let mut w = vec![0.0; self.rd + 1];
            for d in 0..self.rd {
                w[d + 1] = (x[d] + 1.0) / 2.0;
            }
            w[0] = 1.0 - w[1..].iter().sum::<f64>();
            w
        } else {
            self.rcorners.iter().map(|c| (0..self.rd).map(|d| (1.0 + c[d] * x[d]) / 2.0).product()).collect()
        }
    }
    /// derivatives of these weights
    pub fn geo_grad(&self, x: &[f64]) -> Vec<Vec<f64>> {
        if self.simplex() {
            let mut g = vec![vec![0.0; self.rd]; self.rd + 1];
            for d in 0..self.rd {
                g[d + 1][d] = 0.5;
                g[0][d] = -0.5;
            }
            g
        } else {
            self.rcorners
                .iter()
                .map(|c| {
                    (0..self.rd)
                        .map(|k| (0..self.rd).map(|d| if d == k { c[d] / 2.0 } else { (1.0 + c[d] * x[d]) / 2.0 }).product())
                        .collect()
                })
                .collect()
        }
    }
    pub fn map(&self, corners: &[Vec<f64>], x: &[f64]) -> Vec<f64> {
        let w = self.geo(x);
        (0..self.gd).map(|d| w.iter().zip(corners).map(|(w, c)| w * c[d]).sum()).collect()
    }
    /// gd rows of rd entries
    pub fn jac(&self, corners: &[Vec<f64>], x: &[f64]) -> Vec<Vec<f64>> {
        let g = self.geo_grad(x);
        (0..self.gd)
            .map(|d| (0..self.rd).map(|k| g.iter().zip(corners).map(|(g, c)| g[k] * c[d]).sum()).collect())
            .collect()
    }
    pub fn node_positions(&self, corners: &[Vec<f64>]) -> Vec<Vec<f64>> {
        self.weights.iter().map(|w| (0..self.gd).map(|d| w.iter().map(|&(c, x)| x * corners[c][d]).sum()).collect()).collect()
    }
}

/// What the library's element says
pub struct View {
    pub n: usize,
    pub basis: Box<dyn Fn(&[f64]) -> Vec<f64>>,
    /// per node, rd entries
    pub grads: Box<dyn Fn(&[f64]) -> Vec<Vec<f64>>>,
    pub map: Box<dyn Fn(&[f64]) -> Vec<f64>>,
    pub jac: Box<dyn Fn(&[f64]) -> Vec<Vec<f64>>>,
    pub diameter: Box<dyn Fn() -> f64>,
    pub nodes: Vec<Vec<f64>>,
    pub inverse: Option<Box<dyn Fn(&[f64]) -> Result<Vec<f64>, String>>>,
    pub project: Option<Box<dyn Fn(&[f64]) -> Result<Vec<f64>, String>>>,
    pub normal: Option<Box<dyn Fn(&[f64]) -> Vec<f64>>>,
    /// (inside, reference coordinates)
    pub closest: Option<Box<dyn Fn(&[f64]) -> (bool, Vec<f64>)>>,
    pub bounds: Option<Box<dyn Fn() -> (Vec<f64>, Vec<f64>)>>,
}

pub fn pt<D: DimName>(x: &[f64]) -> OPoint<f64, D>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    assert_eq!(x.len(), D::dim());
    OPoint::from(OVector::<f64, D>::from_fn_generic(D::name(), U1, |i, _| x[i]))
}
pub fn v<D: DimName>(p: &OPoint<f64, D>) -> Vec<f64>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    p.coords.iter().cloned().collect()
}

pub fn view<E>(e: E, nodes: Vec<Vec<f64>>) -> View
where
    E: FiniteElement<f64> + Clone + 'static,
    DefaultAllocator: BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
{
    let n = e.num_nodes();
    let rd = <E as ReferenceFiniteElement<f64>>::ReferenceDim::dim();
    let (e1, e2, e3, e4, e5) = (e.clone(), e.clone(), e.clone(), e.clone(), e);
    View {
        n,
        basis: Box::new(move |x| {
            let mut b = vec![f64::NAN; n];
            e1.populate_basis(&mut b, &pt(x));
            b
        }),
        grads: Box::new(move |x| {
            use fenris::nalgebra::{Dyn, MatrixViewMut};
            let mut b = DMatrix::from_element(rd, n, f64::NAN);
            {
                let mut m = MatrixViewMut::from_slice_generic(b.as_mut_slice(), <E as ReferenceFiniteElement<f64>>::ReferenceDim::name(), Dyn(n));
                e2.populate_basis_gradients(m.as_view_mut(), &pt(x));
            }
            (0..n).map(|i| b.column(i).iter().cloned().collect()).collect()
        }),
        map: Box::new(move |x| v(&e3.map_reference_coords(&pt(x)))),
        jac: Box::new(move |x| {
            let j = e4.reference_jacobian(&pt(x));
            (0..j.nrows()).map(|i| (0..j.ncols()).map(|k| j[(i, k)]).collect()).collect()
        }),
        diameter: Box::new(move || e5.diameter()),
        nodes,
        inverse: None,
        project: None,
        normal: None,
        closest: None,
        bounds: None,
    }
}

fn arr2<const N: usize>(p: &[Vec<f64>]) -> [Point2<f64>; N] {
    std::array::from_fn(|i| Point2::new(p[i][0], p[i][1]))
}
fn arr3<const N: usize>(p: &[Vec<f64>]) -> [Point3<f64>; N] {
    std::array::from_fn(|i| Point3::new(p[i][0], p[i][1], p[i][2]))
}
fn err(e: Box<dyn std::error::Error>) -> String {
    e.to_string()
}

macro_rules! volumetric {
    ($e:expr, $d:ty) => {{
        let e = $e;
        let nodes: Vec<Vec<f64>> = e.vertices().iter().map(v).collect();
        let mut w = view(e.clone(), nodes);
        let (e1, e2) = (e.clone(), e.clone());
        w.inverse = Some(Box::new(move |x| map_physical_coordinates::<f64, _, $d>(&e1, &pt(x)).map(|p| v(&p)).map_err(err)));
        w.project = Some(Box::new(move |x| project_physical_coordinates(&e2, &pt(x)).map(|p| v(&p)).map_err(err)));
        w
    }};
}
macro_rules! closest {
    ($w:ident, $e:expr) => {{
        let (e1, e2) = ($e.clone(), $e.clone());
        $w.closest = Some(Box::new(move |x| match e1.closest_point(&pt(x)) {
            ClosestPoint::InElement(p) => (true, v(&p)),
            ClosestPoint::ClosestPoint(p) => (false, v(&p)),
        }));
        $w.bounds = Some(Box::new(move || {
            let b = e2.element_bounds();
            (v(b.min()), v(b.max()))
        }));
    }};
}

/// the library's element of this kind with these node positions
pub fn element(name: &str, p: &[Vec<f64>]) -> View {
    use fenris::nalgebra::{U2, U3};
    match name {
        "seg1" => volumetric!(Segment2d1Element::from_vertices([Point1::new(p[0][0]), Point1::new(p[1][0])]), U1),
        "seg2" => {
            let e = Segment2d2Element::from_vertices(arr2::<2>(p));
            let mut w = view(e, e.vertices().iter().map(v).collect());
            w.project = Some(Box::new(move |x| project_physical_coordinates(&e, &pt(x)).map(|p| v(&p)).map_err(err)));
            w.normal = Some(Box::new(move |x| e.normal(&pt(x)).iter().cloned().collect()));
            w
        }
        "tri3" => {
            let e = Tri3d2Element::from_vertices(arr2(p));
            let mut w = volumetric!(e, U2);
            closest!(w, e);
            w
        }
        "tri3s" => {
            let e = Tri3d3Element::from_vertices(arr3(p));
            let mut w = view(e, e.vertices().iter().map(v).collect());
            w.project = Some(Box::new(move |x| project_physical_coordinates(&e, &pt(x)).map(|p| v(&p)).map_err(err)));
            w.normal = Some(Box::new(move |x| e.normal(&pt(x)).iter().cloned().collect()));
            closest!(w, e);
            w
        }
        "tri6" => volumetric!(Tri6d2Element::from_vertices(arr2(p)), U2),
        "quad4" => volumetric!(Quad4d2Element::from_vertices(arr2(p)), U2),
        "quad9" => volumetric!(Quad9d2Element::from_vertices(arr2(p)), U2),
        "tet4" => {
            let e = Tet4Element::from_vertices(arr3(p));
            let mut w = volumetric!(e, U3);
            closest!(w, e);
            w
        }
        "tet10" => volumetric!(Tet10Element::from_vertices(arr3(p)), U3),
        "tet20" => volumetric!(Tet20Element::from_vertices(arr3(p)), U3),
        "hex8" => volumetric!(Hex8Element::from_vertices(arr3(p)), U3),
        "hex20" => volumetric!(Hex20Element::from_vertices(arr3(p)), U3),
        "hex27" => volumetric!(Hex27Element::from_vertices(arr3(p)), U3),
        _ => panic!(),
    }
}

pub fn reference(name: &str) -> Option<View> {
    macro_rules! r {
        ($e:expr) => {{
            let e = $e;
            let nodes: Vec<Vec<f64>> = e.vertices().iter().map(v).collect();
            Some(view(e, nodes))
        }};
    }
    match name {
        "tri3" => r!(Tri3d2Element::<f64>::reference()),
        "tri6" => r!(Tri6d2Element::<f64>::reference()),
        "quad4" => r!(Quad4d2Element::<f64>::reference()),
        "quad9" => r!(Quad9d2Element::<f64>::reference()),
        "tet4" => r!(Tet4Element::<f64>::reference()),
        "tet10" => r!(Tet10Element::<f64>::reference()),
        "tet20" => r!(Tet20Element::<f64>::reference()),
        "hex8" => r!(Hex8Element::<f64>::reference()),
        "hex20" => r!(Hex20Element::<f64>::reference()),
        "hex27" => r!(Hex27Element::<f64>::reference()),
        _ => None,
    }
}

/// the same element looked up through a connectivity, a mesh and the element-in-space adapter
pub fn through_mesh(name: &str, p: &[Vec<f64>], conn: &[usize], all: usize) -> Option<View> {
    use fenris::connectivity::*;
    use fenris::mesh::Mesh;
    use fenris::nalgebra::{U2, U3};
    use fenris::space::ElementInSpace;
    use std::sync::Arc;
    #[derive(Clone)]
    struct Own<S>(Arc<S>);
    macro_rules! m {
        ($c:expr, $d:ty) => {{
            let c = $c;
            let verts: Vec<OPoint<f64, $d>> = {
                let mut vs = vec![pt::<$d>(&vec![f64::NAN; <$d>::dim()]); all];
                for (i, &g) in conn.iter().enumerate() {
                    vs[g] = pt(&p[i]);
                }
                vs
            };
            let mesh = Mesh::from_vertices_and_connectivity(verts, vec![c.clone(), c]);
            let own = Own(Arc::new(mesh));
            macro_rules! el {
                ($m:ident) => {
                    ElementInSpace::from_space_and_element_index(&*$m.0, 1)
                };
            }
            let n = el!(own).num_nodes();
            let rd = <$d>::dim();
            let (m1, m2, m3, m4, m5) = (own.clone(), own.clone(), own.clone(), own.clone(), own.clone());
            Some(View {
                n,
                basis: Box::new(move |x| {
                    let mut b = vec![f64::NAN; n];
                    el!(m1).populate_basis(&mut b, &pt(x));
                    b
                }),
                grads: Box::new(move |x| {
                    use fenris::nalgebra::{Dyn, MatrixViewMut};
                    let mut b = vec![f64::NAN; rd * n];
                    el!(m2).populate_basis_gradients(MatrixViewMut::from_slice_generic(&mut b, <$d>::name(), Dyn(n)), &pt(x));
                    b.chunks(rd).map(|c| c.to_vec()).collect()
                }),
                map: Box::new(move |x| v(&el!(m3).map_reference_coords(&pt(x)))),
                jac: Box::new(move |x| {
                    let j = el!(m4).reference_jacobian(&pt(x));
                    (0..j.nrows()).map(|i| (0..j.ncols()).map(|k| j[(i, k)]).collect()).collect()
                }),
                diameter: Box::new(move || el!(m5).diameter()),
                nodes: p.to_vec(),
                inverse: None,
                project: None,
                normal: None,
                closest: None,
                bounds: None,
            })
        }};
    }
    macro_rules! a {
        () => {
            std::array::from_fn(|i| conn[i])
        };
    }
    match name {
        "seg1" => m!(Segment2d1Connectivity(a!()), U1),
        "tri3" => m!(Tri3d2Connectivity(a!()), U2),
        "tri6" => m!(Tri6d2Connectivity(a!()), U2),
        "quad4" => m!(Quad4d2Connectivity(a!()), U2),
        "quad9" => m!(Quad9d2Connectivity(a!()), U2),
        "tet4" => m!(Tet4Connectivity(a!()), U3),
        "tet10" => m!(Tet10Connectivity(a!()), U3),
        "tet20" => m!(Tet20Connectivity(a!()), U3),
        "hex8" => m!(Hex8Connectivity(a!()), U3),
        "hex20" => m!(Hex20Connectivity(a!()), U3),
        "hex27" => m!(Hex27Connectivity(a!()), U3),
        _ => None,
    }
}

/// Corners of a random valid cell. `mild`: close to a parallelepiped; otherwise any positively oriented (convex) shape.
pub fn corners(rng: &mut Rng, e: &El, mild: bool, decades: f64, shift: f64) -> Vec<Vec<f64>> {
    let size = 10f64.powf(rng.f(-decades, decades));
    let amount = if mild { 0.15 } else { 0.9 };
    let lin = |rng: &mut Rng, p: &mut Vec<Vec<f64>>| {
        let d = p[0].len();
        match d {
            2 => {
                let m = random_linear::<2>(rng, if mild { 0.3 } else { 1.0 });
                p.iter_mut().for_each(|q| *q = apply(&m, &[0.0; 2], &[q[0], q[1]]).to_vec());
            }
            3 => {
                let m = random_linear::<3>(rng, if mild { 0.3 } else { 1.0 });
                p.iter_mut().for_each(|q| *q = apply(&m, &[0.0; 3], &[q[0], q[1], q[2]]).to_vec());
            }
            _ => {}
        }
    };
    let mut p: Vec<Vec<f64>>;
    loop {
        p = e.rcorners.clone();
        for q in p.iter_mut() {
            q.resize(e.gd, 0.0);
        }
        if e.topo.is_none() {
            p = (0..2).map(|_| (0..e.gd).map(|_| rng.normal()).collect()).collect();
            if dist(&p[0], &p[1]) < 0.1 {
                continue;
            }
            if e.gd == 1 && p[0][0] > p[1][0] {
                p.swap(0, 1);
            }
            break;
        }
        if !e.simplex() {
            for q in p.iter_mut().flatten() {
                *q += rng.f(-amount, amount);
            }
        }
        let ok = match e.topo.unwrap() {
            Topo::Quad => (0..4).all(|i| {
                let a = |k: usize| [p[(i + k) % 4][0], p[(i + k) % 4][1]];
                cross2(sub2(a(1), a(0)), sub2(a(2), a(0))) > 0.05
            }),
            Topo::Hex => {
                let mut h = [[0.0; 3]; 8];
                for k in 0..8 {
                    h[k] = a3(&p[k]);
                }
                // positive Jacobian on a lattice (valid with a margin)
                let mut ok = true;
                for a in 0..7 {
                    for b in 0..7 {
                        for c in 0..7 {
                            let x = [a as f64 / 3.0 - 1.0, b as f64 / 3.0 - 1.0, c as f64 / 3.0 - 1.0];
                            ok &= det3(&trilinear_jac(&h, x)) > 0.1;
                        }
                    }
                }
                ok
            }
            _ => true,
        };
        if ok {
            break;
        }
    }
    lin(rng, &mut p);
    let t: Vec<f64> = (0..e.gd).map(|_| rng.f(-shift, shift)).collect();
    for q in p.iter_mut() {
        for d in 0..e.gd {
            q[d] = (q[d] + t[d]) * size;
        }
    }
    p
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
pub fn extent(p: &[Vec<f64>]) -> f64 {
    let mut m: f64 = 0.0;
    for a in p {
        for b in p {
            m = m.max(dist(a, b));
        }
    }
    m
}
pub fn maxabs(p: &[Vec<f64>]) -> f64 {
    p.iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs()))
}

//! Independent finite element arithmetic on plain numbers: reference rules, shape functions, meshes of every kind.
use crate::view::{describe, El};
use crate::*;
use std::collections::BTreeMap;
use vlib::Rng;

/// Gauss-Legendre by Newton's method on the three-term recurrence
pub fn gauss_legendre(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut w = vec![0.0; n];
    let mut x = vec![0.0; n];
    let eval = |t: f64| {
        let (mut a, mut b) = (1.0, t); // P0, P1
        for k in 2..=n {
            let c = ((2 * k - 1) as f64 * t * b - (k - 1) as f64 * a) / k as f64;
            a = b;
            b = c;
        }
        let d = n as f64 * (t * b - a) / (t * t - 1.0);
        (b, d)
    };
    if n == 1 {
        return (vec![2.0], vec![0.0]);
    }
    for i in 0..n {
        let mut t = (std::f64::consts::PI * (4 * i + 3) as f64 / (4 * n + 2) as f64).cos();
        for _ in 0..20 {
            let (p, d) = eval(t);
            t -= p / d;
        }
        let (_, d) = eval(t);
        x[n - 1 - i] = t;
        w[n - 1 - i] = 2.0 / ((1.0 - t * t) * d * d);
    }
    (w, x)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dom {
    Seg,
    Tri,
    Quad,
    Tet,
    Hex,
    Prism,
    Pyramid,
}

impl Dom {
    pub fn dim(self) -> usize {
        match self {
            Dom::Seg => 1,
            Dom::Tri | Dom::Quad => 2,
            _ => 3,
        }
    }
    pub fn measure(self) -> f64 {
        match self {
            Dom::Seg | Dom::Tri => 2.0,
            Dom::Quad | Dom::Prism => 4.0,
            Dom::Tet => 4.0 / 3.0,
            Dom::Hex => 8.0,
            Dom::Pyramid => 8.0 / 3.0,
        }
    }
    /// how far outside the domain a point is (<= 0: inside)
    pub fn outside(self, p: &[f64]) -> f64 {
        let cube = p.iter().fold(f64::NEG_INFINITY, |a: f64, x| a.max(x.abs() - 1.0));
        match self {
            Dom::Seg | Dom::Quad | Dom::Hex => cube,
            Dom::Tri => cube.max(p[0] + p[1]),
            Dom::Tet => cube.max(p[0] + p[1] + p[2] + 1.0),
            Dom::Prism => cube.max(p[0] + p[1]),
            Dom::Pyramid => cube.max(p[0].abs() - (1.0 - p[2]) / 2.0).max(p[1].abs() - (1.0 - p[2]) / 2.0),
        }
    }
    pub fn of(e: &El) -> Dom {
        match e.topo {
            None => Dom::Seg,
            Some(Topo::Tri) => Dom::Tri,
            Some(Topo::Quad) => Dom::Quad,
            Some(Topo::Tet) => Dom::Tet,
            Some(Topo::Hex) => Dom::Hex,
        }
    }
    /// exact for total degree <= 2n-3
    pub fn rule(self, n: usize) -> (Vec<f64>, Vec<Vec<f64>>) {
        let (gw, gx) = gauss_legendre(n);
        let d = self.dim();
        let (mut w, mut p) = (vec![], vec![]);
        for i in 0..n.pow(d as u32) {
            let k = [i % n, (i / n) % n, i / n / n];
            let x: Vec<f64> = (0..d).map(|j| gx[k[j]]).collect();
            let mut wt: f64 = (0..d).map(|j| gw[k[j]]).product();
            let u: Vec<f64> = x.iter().map(|x| (x + 1.0) / 2.0).collect();
            let y = match self {
                Dom::Seg | Dom::Quad | Dom::Hex => x,
                Dom::Tri | Dom::Prism => {
                    wt *= 1.0 - u[0];
                    let mut y = vec![-1.0 + 2.0 * u[0], -1.0 + 2.0 * u[1] * (1.0 - u[0])];
                    if self == Dom::Prism {
                        y.push(x[2]);
                    }
                    y
                }
                Dom::Tet => {
                    wt *= (1.0 - u[0]) * (1.0 - u[0]) * (1.0 - u[1]);
                    vec![
                        -1.0 + 2.0 * u[0],
                        -1.0 + 2.0 * u[1] * (1.0 - u[0]),
                        -1.0 + 2.0 * u[2] * (1.0 - u[0]) * (1.0 - u[1]),
                    ]
                }
                Dom::Pyramid => {
                    let h = (1.0 - x[2]) / 2.0;
                    wt *= h * h;
                    vec![h * x[0], h * x[1], x[2]]
                }
            };
            w.push(wt);
            p.push(y);
        }
        (w, p)
    }
}

/// Shape functions from the inverse Vandermonde matrix of the monomial basis
#[derive(Clone, Debug)]
pub struct Shape {
    pub e: El,
    /// coefficient of monomial j in shape function i
    coef: Vec<Vec<f64>>,
}

fn mono(m: &[u32; 3], x: &[f64]) -> f64 {
    (0..x.len()).map(|d| x[d].powi(m[d] as i32)).product()
}
fn mono_grad(m: &[u32; 3], x: &[f64], k: usize) -> f64 {
    if m[k] == 0 {
        return 0.0;
    }
    (0..x.len()).map(|d| if d == k { m[d] as f64 * x[d].powi(m[d] as i32 - 1) } else { x[d].powi(m[d] as i32) }).product()
}

/// solve A X = B by Gauss-Jordan with partial pivoting (rows); B and X are matrices
pub fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let n = a.len();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| a[i][c].abs().partial_cmp(&a[j][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        b.swap(c, p);
        let d = a[c][c];
        for r in 0..n {
            if r != c && a[r][c] != 0.0 {
                let f = a[r][c] / d;
                for k in c..n {
                    a[r][k] -= f * a[c][k];
                }
                for k in 0..b[r].len() {
                    b[r][k] -= f * b[c][k];
                }
            }
        }
        a[c].iter_mut().skip(c).for_each(|x| *x /= d);
        b[c].iter_mut().for_each(|x| *x /= d);
    }
    b
}

impl Shape {
    pub fn new(name: &'static str) -> Shape {
        let e = describe(name);
        let n = e.rnodes.len();
        // V[i][j] = monomial j at node i; shape k has coefficients c_k with V c_k = e_k
        let vm: Vec<Vec<f64>> = e.rnodes.iter().map(|x| e.mono.iter().map(|m| mono(m, x)).collect()).collect();
        let id: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
        let inv = solve(vm, id); // inv[j][k]
        let coef = (0..n).map(|k| (0..n).map(|j| inv[j][k]).collect()).collect();
        Shape { e, coef }
    }
    pub fn len(&self) -> usize {
        self.coef.len()
    }
    pub fn basis(&self, x: &[f64]) -> Vec<f64> {
        let m: Vec<f64> = self.e.mono.iter().map(|m| mono(m, x)).collect();
        self.coef.iter().map(|c| c.iter().zip(&m).map(|(a, b)| a * b).sum()).collect()
    }
    pub fn grads(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let g: Vec<Vec<f64>> = (0..self.e.rd).map(|k| self.e.mono.iter().map(|m| mono_grad(m, x, k)).collect()).collect();
        self.coef.iter().map(|c| g.iter().map(|g| c.iter().zip(g).map(|(a, b)| a * b).sum()).collect()).collect()
    }
    /// physical gradients of the shape functions (volumetric elements), and |det J|
    pub fn phys_grads(&self, corners: &[Vec<f64>], x: &[f64]) -> (Vec<Vec<f64>>, f64) {
        let d = self.e.rd;
        let j = self.e.jac(corners, x); // j[phys][ref]
        let jt: Vec<Vec<f64>> = (0..d).map(|a| (0..d).map(|b| j[b][a]).collect()).collect();
        let g = self.grads(x);
        // J^T grad = refgrad
        let rhs: Vec<Vec<f64>> = (0..d).map(|k| g.iter().map(|g| g[k]).collect()).collect();
        let sol = solve(jt, rhs);
        ((0..self.len()).map(|i| (0..d).map(|k| sol[k][i]).collect()).collect(), vol(&j))
    }
}

pub fn det(m: &[Vec<f64>]) -> f64 {
    match m.len() {
        1 => m[0][0],
        2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
        _ => det3(&[a3(&m[0]), a3(&m[1]), a3(&m[2])]),
    }
}
/// volume form of a Jacobian with gd rows and rd columns
pub fn vol(j: &[Vec<f64>]) -> f64 {
    let (gd, rd) = (j.len(), j[0].len());
    if gd == rd {
        return det(j).abs();
    }
    let col = |k: usize| j.iter().map(|r| r[k]).collect::<Vec<f64>>();
    if rd == 1 {
        return col(0).iter().map(|x| x * x).sum::<f64>().sqrt();
    }
    norm3(cross(a3(&col(0)), a3(&col(1))))
}

/// A mesh of any kind on plain numbers
#[derive(Clone, Debug)]
pub struct KMesh {
    pub name: &'static str,
    pub v: Vec<Vec<f64>>,
    pub c: Vec<Vec<usize>>,
}

pub const VOLUMETRIC: [&str; 11] = ["seg1", "tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];

/// straight: every cell is an affine image of the reference cell
pub fn kmesh(rng: &mut Rng, name: &'static str, max: usize, affine: bool) -> KMesh {
    let o = Opts { decades: 0.5, shift: 3.0, ..Opts::any(max) };
    let o = if affine { Opts { perturb: 0.0, ..o } } else { o };
    let conv = |v: Vec<Vec<f64>>, c: Vec<Vec<usize>>| (v, c);
    let e = describe(name);
    let (v, c): (Vec<Vec<f64>>, Vec<Vec<usize>>) = match e.topo {
        None => {
            let n = rng.range(1, max.max(1));
            let mut x = vec![rng.f(-3.0, 3.0)];
            for i in 0..n {
                x.push(x[i] + rng.logf(0.1, 3.0));
            }
            let p = rng.perm(n + 1);
            let mut v = vec![vec![]; n + 1];
            for i in 0..=n {
                v[p[i]] = if e.gd == 1 { vec![x[i]] } else { vec![x[i], rng.f(-2.0, 2.0)] };
            }
            let mut c: Vec<Vec<usize>> = (0..n).map(|i| vec![p[i], p[i + 1]]).collect();
            rng.shuffle(&mut c);
            conv(v, c)
        }
        Some(Topo::Tri) => {
            let m = tris(rng, &o);
            let (a, b) = (rng.f(-1.0, 1.0), rng.f(-1.0, 1.0));
            let lift = rng.f(0.0, 1.0);
            conv(
                m.v.iter()
                    .map(|p| if e.gd == 3 { vec![p[0], p[1], a * p[0] + b * p[1] + lift * rng.f(-1.0, 1.0)] } else { p.to_vec() })
                    .collect(),
                m.c.iter().map(|c| c.to_vec()).collect(),
            )
        }
        Some(Topo::Quad) => {
            let m = quads(rng, &o);
            conv(m.v.iter().map(|p| p.to_vec()).collect(), m.c.iter().map(|c| c.to_vec()).collect())
        }
        Some(Topo::Tet) => {
            let m = tets(rng, &o);
            conv(m.v.iter().map(|p| p.to_vec()).collect(), m.c.iter().map(|c| c.to_vec()).collect())
        }
        Some(Topo::Hex) => {
            let m = hexes(rng, &o);
            conv(m.v.iter().map(|p| p.to_vec()).collect(), m.c.iter().map(|c| c.to_vec()).collect())
        }
    };
    elevate(rng, &e, v, c)
}

/// adds the remaining nodes of the kind (shared between neighbors), in random global order
pub fn elevate(rng: &mut Rng, e: &El, v: Vec<Vec<f64>>, c: Vec<Vec<usize>>) -> KMesh {
    let mut nodes: Vec<Vec<f64>> = v.clone();
    let mut ids: BTreeMap<Vec<(usize, i32)>, usize> = BTreeMap::new();
    let mut cells = vec![];
    for cell in &c {
        let mut out = cell.clone();
        for w in &e.weights[cell.len()..] {
            let mut key: Vec<(usize, i32)> = w.iter().map(|&(k, x)| (cell[k], (x * 1000.0).round() as i32)).collect();
            key.sort();
            let id = *ids.entry(key).or_insert_with(|| {
                nodes.push((0..e.gd).map(|d| w.iter().map(|&(k, x)| x * v[cell[k]][d]).sum()).collect());
                nodes.len() - 1
            });
            out.push(id);
        }
        cells.push(out);
    }
    let p = rng.perm(nodes.len());
    let mut vv = vec![vec![]; nodes.len()];
    for (i, n) in nodes.into_iter().enumerate() {
        vv[p[i]] = n;
    }
    KMesh { name: e.name, v: vv, c: cells.iter().map(|c| c.iter().map(|&i| p[i]).collect()).collect() }
}

impl KMesh {
    pub fn corners(&self, e: &El, i: usize) -> Vec<Vec<f64>> {
        self.c[i][..e.rcorners.len()].iter().map(|&k| self.v[k].clone()).collect()
    }
    pub fn flat(&self) -> Vec<f64> {
        self.v.concat()
    }
}

/// the library's mesh with this kind's connectivity type
#[macro_export]
macro_rules! with_mesh {
    ($km:expr, [$($kind:literal => ($conn:ident, $d:ty)),*], $m:ident => $body:expr) => {
        match $km.name {
            $($kind => {
                let verts: Vec<_> = $km.v.iter().map(|p| $crate::view::pt::<$d>(p)).collect();
                let conn: Vec<fenris::connectivity::$conn> =
                    $km.c.iter().map(|c| fenris::connectivity::$conn(std::array::from_fn(|i| c[i]))).collect();
                let $m = fenris::mesh::Mesh::from_vertices_and_connectivity(verts, conn);
                $body
            })*
            _ => unreachable!(),
        }
    };
}
#[macro_export]
macro_rules! with_volume_mesh {
    ($km:expr, $m:ident => $body:expr) => {
        $crate::with_mesh!($km, [
            "tri3" => (Tri3d2Connectivity, fenris::nalgebra::U2), "tri6" => (Tri6d2Connectivity, fenris::nalgebra::U2),
            "quad4" => (Quad4d2Connectivity, fenris::nalgebra::U2), "quad9" => (Quad9d2Connectivity, fenris::nalgebra::U2),
            "tet4" => (Tet4Connectivity, fenris::nalgebra::U3), "tet10" => (Tet10Connectivity, fenris::nalgebra::U3),
            "tet20" => (Tet20Connectivity, fenris::nalgebra::U3), "hex8" => (Hex8Connectivity, fenris::nalgebra::U3),
            "hex20" => (Hex20Connectivity, fenris::nalgebra::U3), "hex27" => (Hex27Connectivity, fenris::nalgebra::U3)
        ], $m => $body)
    };
}

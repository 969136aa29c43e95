//! Topology tables of the cell kinds (written down independently of the library) and plain mesh views.
use crate::*;
use fenris::connectivity::Connectivity;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Topo {
    Tri,
    Quad,
    Tet,
    Hex,
}

#[derive(Clone, Debug)]
pub struct Kind {
    pub name: &'static str,
    pub topo: Topo,
    /// position of every node as weights on the corners
    pub nodes: Vec<Vec<(usize, f64)>>,
}

pub const TET_EDGES10: [[usize; 2]; 6] = [[0, 1], [1, 2], [0, 2], [0, 3], [2, 3], [1, 3]];
pub const HEX_EDGES: [[usize; 2]; 12] =
    [[0, 1], [0, 3], [0, 4], [1, 2], [1, 5], [2, 3], [2, 6], [3, 7], [4, 5], [4, 7], [5, 6], [6, 7]];
pub const HEX_FACES27: [[usize; 4]; 6] = [[0, 1, 2, 3], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [2, 3, 7, 6], [4, 5, 6, 7]];

impl Topo {
    pub fn corners(self) -> usize {
        match self {
            Topo::Tri => 3,
            Topo::Quad | Topo::Tet => 4,
            Topo::Hex => 8,
        }
    }
    /// outward (counter-clockwise in 2D) corner loops of the faces
    pub fn faces(self) -> Vec<Vec<usize>> {
        match self {
            Topo::Tri => vec![vec![0, 1], vec![1, 2], vec![2, 0]],
            Topo::Quad => vec![vec![0, 1], vec![1, 2], vec![2, 3], vec![3, 0]],
            Topo::Tet => vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![0, 3, 2]],
            Topo::Hex => vec![
                vec![0, 3, 2, 1],
                vec![0, 1, 5, 4],
                vec![1, 2, 6, 5],
                vec![2, 3, 7, 6],
                vec![0, 4, 7, 3],
                vec![4, 5, 6, 7],
            ],
        }
    }
}

pub fn kind(name: &str) -> Kind {
    let mids = |es: &[[usize; 2]]| es.iter().map(|e| vec![(e[0], 0.5), (e[1], 0.5)]).collect::<Vec<_>>();
    let corners = |n: usize| (0..n).map(|i| vec![(i, 1.0)]).collect::<Vec<_>>();
    let tri = [[0, 1], [1, 2], [2, 0]];
    let quad = [[0, 1], [1, 2], [2, 3], [3, 0]];
    let (name, topo, nodes) = match name {
        "tri3" => ("tri3", Topo::Tri, corners(3)),
        "tri6" => ("tri6", Topo::Tri, [corners(3), mids(&tri)].concat()),
        "quad4" => ("quad4", Topo::Quad, corners(4)),
        "quad8" => ("quad8", Topo::Quad, [corners(4), mids(&quad)].concat()),
        "quad9" => ("quad9", Topo::Quad, [corners(4), mids(&quad), vec![(0..4).map(|i| (i, 0.25)).collect()]].concat()),
        "tet4" => ("tet4", Topo::Tet, corners(4)),
        "tet10" => ("tet10", Topo::Tet, [corners(4), mids(&TET_EDGES10)].concat()),
        "tet20" => {
            let mut n = corners(4);
            for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
                n.push(vec![(a, 2.0 / 3.0), (b, 1.0 / 3.0)]);
                n.push(vec![(a, 1.0 / 3.0), (b, 2.0 / 3.0)]);
            }
            for f in [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]] {
                n.push(f.iter().map(|&i| (i, 1.0 / 3.0)).collect());
            }
            ("tet20", Topo::Tet, n)
        }
        "hex8" => ("hex8", Topo::Hex, corners(8)),
        "hex20" => ("hex20", Topo::Hex, [corners(8), mids(&HEX_EDGES)].concat()),
        "hex27" => {
            let mut n = [corners(8), mids(&HEX_EDGES)].concat();
            for f in HEX_FACES27 {
                n.push(f.iter().map(|&i| (i, 0.25)).collect());
            }
            n.push((0..8).map(|i| (i, 0.125)).collect());
            ("hex27", Topo::Hex, n)
        }
        _ => panic!("kind {name}"),
    };
    Kind { name, topo, nodes }
}

/// Identity of a node: which corner vertices it lies between, with which weight (in 1/1000)
pub type NodeKey = Vec<(usize, i32)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Plain {
    pub v: Vec<Vec<f64>>,
    pub c: Vec<Vec<usize>>,
}

pub fn plain<D, C>(m: &Mesh<f64, D, C>) -> Plain
where
    D: DimName,
    C: Connectivity,
    DefaultAllocator: Allocator<f64, D>,
{
    Plain {
        v: m.vertices().iter().map(|p| p.coords.iter().cloned().collect()).collect(),
        c: m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
    }
}

fn a2(p: &[f64]) -> [f64; 2] {
    [p[0], p[1]]
}
pub fn a3(p: &[f64]) -> [f64; 3] {
    [p[0], p[1], p[2]]
}

impl Plain {
    pub fn size(&self) -> f64 {
        let d = self.v.first().map(|p| p.len()).unwrap_or(0);
        (0..d)
            .map(|i| {
                let lo = self.v.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
                let hi = self.v.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
                hi - lo
            })
            .fold(0.0, f64::max)
    }
    /// size plus distance from the origin: the scale of rounding errors in coordinates
    pub fn scale(&self) -> f64 {
        self.v.iter().flatten().fold(1e-300, |a: f64, b| a.max(b.abs()))
    }
    pub fn cell_measure(&self, t: Topo, i: usize) -> f64 {
        let c = &self.c[i];
        let v = |k: usize| &self.v[c[k]];
        match t {
            Topo::Tri => tri_area(a2(v(0)), a2(v(1)), a2(v(2))),
            Topo::Quad => quad_area(&[a2(v(0)), a2(v(1)), a2(v(2)), a2(v(3))]),
            Topo::Tet => tet_vol(a3(v(0)), a3(v(1)), a3(v(2)), a3(v(3))),
            Topo::Hex => {
                let mut h = [[0.0; 3]; 8];
                for k in 0..8 {
                    h[k] = a3(v(k));
                }
                hex_vol(&h)
            }
        }
    }
    pub fn measure(&self, t: Topo) -> f64 {
        (0..self.c.len()).map(|i| self.cell_measure(t, i)).sum()
    }
    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.v.len()];
        for &i in self.c.iter().flatten() {
            u[i] = true;
        }
        u
    }
    pub fn key(&self, k: &Kind, cell: usize, node: usize) -> NodeKey {
        let mut x: NodeKey = k.nodes[node].iter().map(|&(i, w)| (self.c[cell][i], (w * 1000.0).round() as i32)).collect();
        x.sort();
        x
    }
    /// faces as sorted corner lists -> (cell, face number of the table)
    pub fn faces(&self, t: Topo) -> BTreeMap<Vec<usize>, Vec<(usize, usize)>> {
        let mut m: BTreeMap<Vec<usize>, Vec<(usize, usize)>> = BTreeMap::new();
        let fs = t.faces();
        for (ci, c) in self.c.iter().enumerate() {
            for (fi, f) in fs.iter().enumerate() {
                let mut k: Vec<usize> = f.iter().map(|&i| c[i]).collect();
                k.sort();
                m.entry(k).or_default().push((ci, fi));
            }
        }
        m
    }
    /// Conforming: every face belongs to one or two cells, and two cells see it with opposite orientation
    pub fn conforming(&self, t: Topo) -> Result<usize, String> {
        let fs = t.faces();
        let mut interior = 0;
        for (k, cells) in self.faces(t) {
            match cells.len() {
                1 => {}
                2 => {
                    interior += 1;
                    let lp = |(c, f): (usize, usize)| fs[f].iter().map(|&i| self.c[c][i]).collect::<Vec<_>>();
                    let (a, mut b) = (lp(cells[0]), lp(cells[1]));
                    b.reverse();
                    if !is_rotation(&a, &b) {
                        return Err(format!("cells {cells:?} see face {k:?} with the same orientation"));
                    }
                }
                n => return Err(format!("face {k:?} belongs to {n} cells {cells:?}")),
            }
        }
        Ok(interior)
    }
    /// index pairs of distinct vertices closer than tol (O(n log n) on one coordinate)
    pub fn duplicates(&self, tol: f64) -> Option<(usize, usize)> {
        let mut ix: Vec<usize> = (0..self.v.len()).collect();
        ix.sort_by(|&a, &b| self.v[a][0].partial_cmp(&self.v[b][0]).unwrap());
        for (n, &i) in ix.iter().enumerate() {
            for &j in &ix[n + 1..] {
                if self.v[j][0] - self.v[i][0] > tol {
                    break;
                }
                if self.v[i].iter().zip(&self.v[j]).all(|(a, b)| (a - b).abs() <= tol) {
                    return Some((i, j));
                }
            }
        }
        None
    }
}

/// same loop up to its start (segments have a direction: no rotation)
pub fn is_rotation(a: &[usize], b: &[usize]) -> bool {
    if a.len() == 2 {
        return a == b;
    }
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i])))
}

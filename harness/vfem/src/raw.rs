use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{Point2, Point3, U2, U3};
use std::collections::BTreeMap;
use vlib::Rng;

/// A plain mesh: D-dimensional vertices, N-node cells.
#[derive(Clone, Debug)]
pub struct Raw<const D: usize, const N: usize> {
    pub v: Vec<[f64; D]>,
    pub c: Vec<[usize; N]>,
}

pub type RawTri = Raw<2, 3>;
pub type RawQuad = Raw<2, 4>;
pub type RawTet = Raw<3, 4>;
pub type RawHex = Raw<3, 8>;

#[derive(Clone, Debug)]
pub struct Opts {
    /// upper bound of the number of grid cells
    pub max_cells: usize,
    pub holes: bool,
    pub perturb: f64,
    pub graded: bool,
    pub renumber: bool,
    pub reorder: bool,
    pub rotate_local: bool,
    pub affine: bool,
    pub components: bool,
    /// largest translation
    pub shift: f64,
    /// decades of scaling
    pub decades: f64,
    /// lattice: keep integer coordinates (no grading/affine/perturbation)
    pub lattice: bool,
    /// chance of a crack (coinciding vertices)
    pub slit: f64,
}

impl Opts {
    pub fn any(max_cells: usize) -> Self {
        Opts {
            max_cells,
            holes: true,
            perturb: 0.2,
            graded: true,
            renumber: true,
            reorder: true,
            rotate_local: true,
            affine: true,
            components: true,
            shift: 10.0,
            decades: 1.0,
            lattice: false,
            slit: 0.0,
        }
    }
    pub fn cracked(self) -> Self {
        Opts { slit: 0.12, ..self }
    }
    /// Usually up to `max_cells` cells, sometimes far more
    pub fn some(rng: &mut Rng, max_cells: usize) -> Self {
        if rng.chance(0.015) {
            let k = *rng.pick(&[8usize, 20, 60]);
            Self::any(max_cells * k)
        } else {
            Self::any(max_cells)
        }
    }
    pub fn straight(self) -> Self {
        Opts { perturb: 0.0, ..self }
    }
}

fn coords(rng: &mut Rng, n: usize, graded: bool) -> Vec<f64> {
    let mut x = vec![0.0];
    for i in 0..n {
        let h = if graded { rng.logf(0.4, 2.5) } else { 1.0 };
        x.push(x[i] + h);
    }
    x
}

fn dims(rng: &mut Rng, d: usize, max: usize) -> [usize; 3] {
    let mut n = [1usize; 3];
    loop {
        for i in 0..d {
            n[i] = rng.range(1, 1 + rng_cap(d, max));
        }
        if n[0] * n[1] * n[2] <= max.max(1) {
            return n;
        }
    }
}
fn rng_cap(d: usize, max: usize) -> usize {
    let s = (max as f64).powf(1.0 / d as f64).ceil() as usize;
    (2 * s).max(1)
}

pub const QUAD_CORNERS: [[i32; 2]; 4] = [[-1, -1], [1, -1], [1, 1], [-1, 1]];
pub const HEX_CORNERS: [[i32; 3]; 8] =
    [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]];

/// The 24 rotations of a hexahedron as permutations of its local corner numbers.
pub fn hex_rotations() -> Vec<[usize; 8]> {
    let mut out = vec![];
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for p in perms {
        for s in 0..8 {
            let sg = [if s & 1 > 0 { -1 } else { 1 }, if s & 2 > 0 { -1 } else { 1 }, if s & 4 > 0 { -1 } else { 1 }];
            let mut inv = 0;
            for i in 0..3 {
                for j in i + 1..3 {
                    if p[i] > p[j] {
                        inv += 1;
                    }
                }
            }
            let det = sg[0] * sg[1] * sg[2] * if inv % 2 == 0 { 1 } else { -1 };
            if det != 1 {
                continue;
            }
            let mut q = [0usize; 8];
            for (k, c) in HEX_CORNERS.iter().enumerate() {
                let t = [sg[0] * c[p[0]], sg[1] * c[p[1]], sg[2] * c[p[2]]];
                q[k] = HEX_CORNERS.iter().position(|x| *x == t).unwrap();
            }
            out.push(q);
        }
    }
    assert_eq!(out.len(), 24);
    out
}

pub fn tet_rotations() -> Vec<[usize; 4]> {
    let mut out = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    let p = [a, b, c, d];
                    let mut s = [a, b, c, d];
                    s.sort();
                    if s != [0, 1, 2, 3] {
                        continue;
                    }
                    let mut inv = 0;
                    for i in 0..4 {
                        for j in i + 1..4 {
                            if p[i] > p[j] {
                                inv += 1;
                            }
                        }
                    }
                    if inv % 2 == 0 {
                        out.push(p);
                    }
                }
            }
        }
    }
    out
}

pub trait Cell<const D: usize, const N: usize> {
    fn rotate(rng: &mut Rng, c: [usize; N]) -> [usize; N];
}
impl Cell<2, 3> for RawTri {
    fn rotate(rng: &mut Rng, c: [usize; 3]) -> [usize; 3] {
        let k = rng.below(3);
        [c[k], c[(k + 1) % 3], c[(k + 2) % 3]]
    }
}
impl Cell<2, 4> for RawQuad {
    fn rotate(rng: &mut Rng, c: [usize; 4]) -> [usize; 4] {
        let k = rng.below(4);
        [c[k], c[(k + 1) % 4], c[(k + 2) % 4], c[(k + 3) % 4]]
    }
}
impl Cell<3, 4> for RawTet {
    fn rotate(rng: &mut Rng, c: [usize; 4]) -> [usize; 4] {
        let r = tet_rotations();
        let p = rng.pick(&r);
        [c[p[0]], c[p[1]], c[p[2]], c[p[3]]]
    }
}
impl Cell<3, 8> for RawHex {
    fn rotate(rng: &mut Rng, c: [usize; 8]) -> [usize; 8] {
        let r = hex_rotations();
        let p = rng.pick(&r);
        let mut o = [0; 8];
        for i in 0..8 {
            o[i] = c[p[i]];
        }
        o
    }
}

pub fn tri_area(a: [f64; 2], b: [f64; 2], c: [f64; 2]) -> f64 {
    0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
}
pub fn tet_vol(a: [f64; 3], b: [f64; 3], c: [f64; 3], d: [f64; 3]) -> f64 {
    dot3(cross(sub3(b, a), sub3(c, a)), sub3(d, a)) / 6.0
}
pub fn sub3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn scale3(a: [f64; 3], s: f64) -> [f64; 3] {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot3(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm3(a: [f64; 3]) -> f64 {
    dot3(a, a).sqrt()
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn sub2(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn dot2(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn cross2(a: [f64; 2], b: [f64; 2]) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn norm2(a: [f64; 2]) -> f64 {
    dot2(a, a).sqrt()
}

/// Trilinear map through 8 corners at (x,y,z) in [-1,1]^3 and its Jacobian columns
pub fn trilinear(h: &[[f64; 3]; 8], x: [f64; 3]) -> [f64; 3] {
    let mut p = [0.0; 3];
    for (k, c) in HEX_CORNERS.iter().enumerate() {
        let w = (1.0 + c[0] as f64 * x[0]) * (1.0 + c[1] as f64 * x[1]) * (1.0 + c[2] as f64 * x[2]) / 8.0;
        for d in 0..3 {
            p[d] += w * h[k][d];
        }
    }
    p
}
pub fn trilinear_jac(h: &[[f64; 3]; 8], x: [f64; 3]) -> [[f64; 3]; 3] {
    let mut j = [[0.0; 3]; 3];
    for (k, c) in HEX_CORNERS.iter().enumerate() {
        let c = [c[0] as f64, c[1] as f64, c[2] as f64];
        let f = [1.0 + c[0] * x[0], 1.0 + c[1] * x[1], 1.0 + c[2] * x[2]];
        let g = [c[0] * f[1] * f[2] / 8.0, f[0] * c[1] * f[2] / 8.0, f[0] * f[1] * c[2] / 8.0];
        for d in 0..3 {
            for e in 0..3 {
                j[d][e] += h[k][d] * g[e];
            }
        }
    }
    j
}
pub fn det3(j: &[[f64; 3]; 3]) -> f64 {
    j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0])
        + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0])
}
/// Volume of a trilinear hexahedron (2-point Gauss is exact: det has degree 2 per variable)
pub fn hex_vol(h: &[[f64; 3]; 8]) -> f64 {
    let g = 1.0 / 3f64.sqrt();
    let mut v = 0.0;
    for a in [-g, g] {
        for b in [-g, g] {
            for c in [-g, g] {
                v += det3(&trilinear_jac(h, [a, b, c]));
            }
        }
    }
    v
}
pub fn quad_area(q: &[[f64; 2]; 4]) -> f64 {
    tri_area(q[0], q[1], q[2]) + tri_area(q[0], q[2], q[3])
}

impl<const D: usize, const N: usize> Raw<D, N> {
    pub fn corner(&self, cell: usize) -> [[f64; D]; N] {
        let mut o = [[0.0; D]; N];
        for i in 0..N {
            o[i] = self.v[self.c[cell][i]];
        }
        o
    }
    pub fn drop_unused(&mut self) {
        let mut used = vec![false; self.v.len()];
        for c in &self.c {
            for &i in c {
                used[i] = true;
            }
        }
        let mut map = vec![usize::MAX; self.v.len()];
        let mut v = vec![];
        for i in 0..self.v.len() {
            if used[i] {
                map[i] = v.len();
                v.push(self.v[i]);
            }
        }
        for c in &mut self.c {
            for i in c {
                *i = map[*i];
            }
        }
        self.v = v;
    }
    /// Separates the cells on one side of a plane from the others along some of their shared vertices, which are
    /// doubled in place: a crack. Returns the number of doubled vertices.
    pub fn slit(&mut self, rng: &mut Rng) -> usize {
        if self.c.is_empty() {
            return 0;
        }
        let mid = |c: &[usize; N]| -> [f64; D] {
            let mut m = [0.0; D];
            for i in c {
                for d in 0..D {
                    m[d] += self.v[*i][d] / N as f64;
                }
            }
            m
        };
        let o = mid(&self.c[rng.below(self.c.len())]);
        let mut n = [0.0; D];
        for x in n.iter_mut() {
            *x = rng.f(-1.0, 1.0);
        }
        let side: Vec<bool> = self.c.iter().map(|c| { let m = mid(c); (0..D).map(|d| n[d] * (m[d] - o[d])).sum::<f64>() > 0.0 }).collect();
        let mut seen = vec![0u8; self.v.len()];
        for (c, s) in self.c.iter().zip(&side) {
            for i in c {
                seen[*i] |= 1 << *s as u8;
            }
        }
        let p = *rng.pick(&[0.4, 0.8, 1.0]);
        let mut copy = vec![usize::MAX; seen.len()];
        let mut count = 0;
        for i in 0..seen.len() {
            if seen[i] == 3 && rng.chance(p) {
                copy[i] = self.v.len();
                self.v.push(self.v[i]);
                count += 1;
            }
        }
        for (c, s) in self.c.iter_mut().zip(&side) {
            for i in c.iter_mut() {
                if *s && copy[*i] != usize::MAX {
                    *i = copy[*i];
                }
            }
        }
        let perm = if rng.bool() { rng.perm(self.v.len()) } else { (0..self.v.len()).collect() };
        self.renumber(&perm);
        count
    }
    pub fn renumber(&mut self, perm: &[usize]) {
        // new index of old vertex i is perm[i]
        let mut v = self.v.clone();
        for i in 0..self.v.len() {
            v[perm[i]] = self.v[i];
        }
        self.v = v;
        for c in &mut self.c {
            for i in c {
                *i = perm[*i];
            }
        }
    }
    pub fn size(&self) -> f64 {
        let mut s = 0.0f64;
        for d in 0..D {
            let lo = self.v.iter().map(|x| x[d]).fold(f64::INFINITY, f64::min);
            let hi = self.v.iter().map(|x| x[d]).fold(f64::NEG_INFINITY, f64::max);
            if hi > lo {
                s = s.max(hi - lo);
            }
        }
        s
    }
    pub fn max_abs(&self) -> f64 {
        self.v.iter().flatten().fold(0.0, |a, b| a.max(b.abs()))
    }
    pub fn append(&mut self, other: &Self, shift: [f64; D]) {
        let n = self.v.len();
        for p in &other.v {
            let mut q = *p;
            for d in 0..D {
                q[d] += shift[d];
            }
            self.v.push(q);
        }
        for c in &other.c {
            let mut d = *c;
            for i in &mut d {
                *i += n;
            }
            self.c.push(d);
        }
    }
    pub fn flat(&self) -> Vec<f64> {
        self.v.iter().flatten().cloned().collect()
    }
    /// cells adjacent to each vertex count etc: faces as sorted vertex lists -> cells
    pub fn face_map(&self, faces: &[Vec<usize>]) -> BTreeMap<Vec<usize>, Vec<(usize, usize)>> {
        let mut m: BTreeMap<Vec<usize>, Vec<(usize, usize)>> = BTreeMap::new();
        for (ci, c) in self.c.iter().enumerate() {
            for (fi, f) in faces.iter().enumerate() {
                let mut k: Vec<usize> = f.iter().map(|&i| c[i]).collect();
                k.sort();
                m.entry(k).or_default().push((ci, fi));
            }
        }
        m
    }
}

/// Random matrix with positive determinant and bounded condition number
pub fn random_linear<const D: usize>(rng: &mut Rng, decades: f64) -> [[f64; D]; D] {
    loop {
        let s = 10f64.powf(rng.f(-decades, decades));
        let mut m = [[0.0; D]; D];
        for i in 0..D {
            for j in 0..D {
                m[i][j] = rng.f(-1.0, 1.0) * s;
            }
        }
        let det = match D {
            1 => m[0][0],
            2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
            3 => {
                let j = [[m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]];
                det3(&j)
            }
            _ => unreachable!(),
        };
        if det > 0.2 * s.powi(D as i32) {
            return m;
        }
    }
}
pub fn random_rotation3(rng: &mut Rng) -> [[f64; 3]; 3] {
    let mut q = [rng.normal(), rng.normal(), rng.normal(), rng.normal()];
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
    for x in &mut q {
        *x /= n;
    }
    let [w, x, y, z] = q;
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
pub fn apply<const D: usize>(m: &[[f64; D]; D], t: &[f64; D], p: &[f64; D]) -> [f64; D] {
    let mut o = *t;
    for i in 0..D {
        for j in 0..D {
            o[i] += m[i][j] * p[j];
        }
    }
    o
}

/// Builds grid vertices + list of box cells given as corner index tuples
struct Grid<const D: usize> {
    v: Vec<[f64; D]>,
    n: [usize; 3],
    h: Vec<Vec<f64>>,
}
fn grid<const D: usize>(rng: &mut Rng, o: &Opts) -> Grid<D> {
    let n = dims(rng, D, o.max_cells);
    let graded = o.graded && !o.lattice && rng.chance(0.6);
    let xs: Vec<Vec<f64>> = (0..D).map(|d| coords(rng, n[d], graded)).collect();
    let mut v = vec![];
    let nz = if D == 3 { n[2] + 1 } else { 1 };
    for k in 0..nz {
        for j in 0..=n[1] {
            for i in 0..=n[0] {
                let mut p = [0.0; D];
                p[0] = xs[0][i];
                p[1] = xs[1][j];
                if D == 3 {
                    p[2] = xs[2][k];
                }
                v.push(p);
            }
        }
    }
    let h = (0..D).map(|d| (0..n[d]).map(|i| xs[d][i + 1] - xs[d][i]).collect()).collect();
    Grid { v, n, h }
}
impl<const D: usize> Grid<D> {
    fn id(&self, i: usize, j: usize, k: usize) -> usize {
        (k * (self.n[1] + 1) + j) * (self.n[0] + 1) + i
    }
    fn perturb(&mut self, rng: &mut Rng, amp: f64) {
        // every vertex may move at most amp times the smallest spacing in each direction
        let hm: Vec<f64> = self.h.iter().map(|x| x.iter().cloned().fold(f64::INFINITY, f64::min)).collect();
        for p in &mut self.v {
            for d in 0..D {
                p[d] += rng.f(-amp, amp) * hm[d];
            }
        }
    }
}

fn finish<const D: usize, const N: usize>(rng: &mut Rng, mut m: Raw<D, N>, o: &Opts) -> Raw<D, N>
where
    Raw<D, N>: Cell<D, N>,
{
    if o.holes && rng.chance(0.5) && m.c.len() > 1 {
        let p = rng.f(0.05, 0.6);
        let keep: Vec<[usize; N]> = m.c.iter().filter(|_| !rng.chance(p)).cloned().collect();
        if !keep.is_empty() {
            m.c = keep;
        }
    }
    if o.components && rng.chance(0.15) {
        let other = m.clone();
        let s = m.size() * 1.5 + 1.0;
        let mut t = [0.0; D];
        t[rng.below(D)] = if o.lattice { s.ceil() } else { s };
        m.append(&other, t);
    }
    m.drop_unused();
    if o.affine && !o.lattice && rng.chance(0.7) {
        let a = random_linear::<D>(rng, o.decades);
        let mut t = [0.0; D];
        for d in 0..D {
            t[d] = rng.f(-o.shift, o.shift);
        }
        for p in &mut m.v {
            *p = apply(&a, &t, p);
        }
    }
    if o.rotate_local && rng.chance(0.8) {
        for c in &mut m.c {
            *c = Raw::<D, N>::rotate(rng, *c);
        }
    }
    if o.renumber && rng.chance(0.7) {
        let p = rng.perm(m.v.len());
        m.renumber(&p);
    }
    if o.reorder && rng.chance(0.7) {
        rng.shuffle(&mut m.c);
    }
    if o.slit > 0.0 && rng.chance(o.slit) {
        m.slit(rng);
    }
    m
}

pub fn quads(rng: &mut Rng, o: &Opts) -> RawQuad {
    let mut g = grid::<2>(rng, o);
    if o.perturb > 0.0 && !o.lattice && rng.chance(0.7) {
        g.perturb(rng, o.perturb);
    }
    let mut c = vec![];
    for j in 0..g.n[1] {
        for i in 0..g.n[0] {
            c.push([g.id(i, j, 0), g.id(i + 1, j, 0), g.id(i + 1, j + 1, 0), g.id(i, j + 1, 0)]);
        }
    }
    finish(rng, Raw { v: g.v, c }, o)
}
pub fn tris(rng: &mut Rng, o: &Opts) -> RawTri {
    let mut g = grid::<2>(rng, &Opts { max_cells: (o.max_cells / 2).max(1), ..o.clone() });
    if o.perturb > 0.0 && !o.lattice && rng.chance(0.7) {
        g.perturb(rng, o.perturb);
    }
    let mut c = vec![];
    for j in 0..g.n[1] {
        for i in 0..g.n[0] {
            let q = [g.id(i, j, 0), g.id(i + 1, j, 0), g.id(i + 1, j + 1, 0), g.id(i, j + 1, 0)];
            if rng.bool() {
                c.push([q[0], q[1], q[2]]);
                c.push([q[0], q[2], q[3]]);
            } else {
                c.push([q[0], q[1], q[3]]);
                c.push([q[1], q[2], q[3]]);
            }
        }
    }
    if o.max_cells == 1 {
        c.truncate(1);
    }
    finish(rng, Raw { v: g.v, c }, o)
}
fn hex_cells(g: &Grid<3>) -> Vec<[usize; 8]> {
    let mut c = vec![];
    for k in 0..g.n[2] {
        for j in 0..g.n[1] {
            for i in 0..g.n[0] {
                c.push([
                    g.id(i, j, k),
                    g.id(i + 1, j, k),
                    g.id(i + 1, j + 1, k),
                    g.id(i, j + 1, k),
                    g.id(i, j, k + 1),
                    g.id(i + 1, j, k + 1),
                    g.id(i + 1, j + 1, k + 1),
                    g.id(i, j + 1, k + 1),
                ]);
            }
        }
    }
    c
}
pub fn hexes(rng: &mut Rng, o: &Opts) -> RawHex {
    let mut g = grid::<3>(rng, o);
    if o.perturb > 0.0 && !o.lattice && rng.chance(0.7) {
        g.perturb(rng, o.perturb * 0.7);
    }
    let c = hex_cells(&g);
    finish(rng, Raw { v: g.v, c }, o)
}
pub fn tets(rng: &mut Rng, o: &Opts) -> RawTet {
    let mut g = grid::<3>(rng, &Opts { max_cells: (o.max_cells / 6).max(1), ..o.clone() });
    if o.perturb > 0.0 && !o.lattice && rng.chance(0.7) {
        g.perturb(rng, o.perturb * 0.5);
    }
    let mut c = vec![];
    // Kuhn subdivision along the diagonal 0-6: conforming
    let paths = [[1, 2], [1, 5], [3, 2], [3, 7], [4, 5], [4, 7]];
    for h in hex_cells(&g) {
        for p in paths {
            let mut t = [h[0], h[p[0]], h[p[1]], h[6]];
            if tet_vol(g.v[t[0]], g.v[t[1]], g.v[t[2]], g.v[t[3]]) < 0.0 {
                t.swap(1, 2);
            }
            c.push(t);
        }
    }
    if o.max_cells < 6 {
        let k = rng.range(1, o.max_cells.max(1));
        rng.shuffle(&mut c);
        c.truncate(k);
    }
    finish(rng, Raw { v: g.v, c }, o)
}

pub fn p2(p: &[f64; 2]) -> Point2<f64> {
    Point2::new(p[0], p[1])
}
pub fn p3(p: &[f64; 3]) -> Point3<f64> {
    Point3::new(p[0], p[1], p[2])
}

impl RawTri {
    pub fn mesh(&self) -> Mesh<f64, U2, Tri3d2Connectivity> {
        Mesh::from_vertices_and_connectivity(self.v.iter().map(p2).collect(), self.c.iter().map(|c| Tri3d2Connectivity(*c)).collect())
    }
    pub fn measure(&self) -> f64 {
        (0..self.c.len()).map(|i| self.cell_measure(i)).sum()
    }
    pub fn cell_measure(&self, i: usize) -> f64 {
        let t = self.corner(i);
        tri_area(t[0], t[1], t[2])
    }
}
impl RawQuad {
    pub fn mesh(&self) -> Mesh<f64, U2, Quad4d2Connectivity> {
        Mesh::from_vertices_and_connectivity(self.v.iter().map(p2).collect(), self.c.iter().map(|c| Quad4d2Connectivity(*c)).collect())
    }
    pub fn measure(&self) -> f64 {
        (0..self.c.len()).map(|i| self.cell_measure(i)).sum()
    }
    pub fn cell_measure(&self, i: usize) -> f64 {
        quad_area(&self.corner(i))
    }
}
impl RawTet {
    pub fn mesh(&self) -> Mesh<f64, U3, Tet4Connectivity> {
        Mesh::from_vertices_and_connectivity(self.v.iter().map(p3).collect(), self.c.iter().map(|c| Tet4Connectivity(*c)).collect())
    }
    pub fn measure(&self) -> f64 {
        (0..self.c.len()).map(|i| self.cell_measure(i)).sum()
    }
    pub fn cell_measure(&self, i: usize) -> f64 {
        let t = self.corner(i);
        tet_vol(t[0], t[1], t[2], t[3])
    }
}
impl RawHex {
    pub fn mesh(&self) -> Mesh<f64, U3, Hex8Connectivity> {
        Mesh::from_vertices_and_connectivity(self.v.iter().map(p3).collect(), self.c.iter().map(|c| Hex8Connectivity(*c)).collect())
    }
    pub fn measure(&self) -> f64 {
        (0..self.c.len()).map(|i| self.cell_measure(i)).sum()
    }
    pub fn cell_measure(&self, i: usize) -> f64 {
        hex_vol(&self.corner(i))
    }
}

/// Runs `$body` with `$m` bound to a random mesh of one of the volumetric element kinds
/// (kind index `$k` in 0..10), higher-order ones built by the library's conversion.
#[macro_export]
macro_rules! with_mesh_kind {
    ($k:expr, $rng:expr, $opts:expr, |$m:ident, $name:ident| $body:expr) => {{
        let __o = $opts;
        match $k {
            0 => { let $m = $crate::tris($rng, &__o).mesh(); let $name = "tri3"; $body }
            1 => { let $m = $crate::quads($rng, &__o).mesh(); let $name = "quad4"; $body }
            2 => { let $m = $crate::tets($rng, &__o).mesh(); let $name = "tet4"; $body }
            3 => { let $m = $crate::hexes($rng, &__o).mesh(); let $name = "hex8"; $body }
            4 => { let $m = fenris::mesh::Tri6Mesh2d::from($crate::tris($rng, &__o).mesh()); let $name = "tri6"; $body }
            5 => { let $m = fenris::mesh::Quad9Mesh2d::from($crate::quads($rng, &__o).mesh()); let $name = "quad9"; $body }
            6 => { let $m = fenris::mesh::Tet10Mesh::from(&$crate::tets($rng, &__o).mesh()); let $name = "tet10"; $body }
            7 => { let $m = fenris::mesh::Hex20Mesh::from(&$crate::hexes($rng, &__o).mesh()); let $name = "hex20"; $body }
            8 => { let $m = fenris::mesh::Hex27Mesh::from(&$crate::hexes($rng, &__o).mesh()); let $name = "hex27"; $body }
            _ => { let $m = fenris::mesh::Tet20Mesh::from(&$crate::tets($rng, &__o).mesh()); let $name = "tet20"; $body }
        }
    }};
}

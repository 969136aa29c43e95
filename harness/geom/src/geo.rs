//! Reference geometry, written independently of the library, and generators.
use fenris::nalgebra::{DMatrix, Point2, Point3, Vector2, Vector3};
use vlib::Rng;

pub type P2 = Point2<f64>;
pub type P3 = Point3<f64>;
pub type V2 = Vector2<f64>;
pub type V3 = Vector3<f64>;

pub fn cross2(a: V2, b: V2) -> f64 {
    a.x * b.y - a.y * b.x
}
/// Signed area, relative to the first vertex.
pub fn area2(p: &[P2]) -> f64 {
    (1..p.len().saturating_sub(1)).map(|i| 0.5 * cross2(p[i] - p[0], p[i + 1] - p[0])).sum()
}
pub fn seg_dist<const D: usize>(p: &[f64; D], a: &[f64; D], b: &[f64; D]) -> f64 {
    // golden-free: closed form on the squared distance, clamped
    let d: [f64; D] = std::array::from_fn(|i| b[i] - a[i]);
    let l2: f64 = d.iter().map(|x| x * x).sum();
    let t = if l2 == 0.0 { 0.0 } else { ((0..D).map(|i| (p[i] - a[i]) * d[i]).sum::<f64>() / l2).clamp(0.0, 1.0) };
    (0..D).map(|i| (p[i] - a[i] - t * d[i]).powi(2)).sum::<f64>().sqrt()
}
pub fn sd2(p: P2, a: P2, b: P2) -> f64 {
    seg_dist(&[p.x, p.y], &[a.x, a.y], &[b.x, b.y])
}
pub fn sd3(p: P3, a: P3, b: P3) -> f64 {
    seg_dist(&[p.x, p.y, p.z], &[a.x, a.y, a.z], &[b.x, b.y, b.z])
}
/// Distance to the boundary of a closed polygon.
pub fn boundary_dist(p: P2, v: &[P2]) -> f64 {
    (0..v.len()).map(|i| sd2(p, v[i], v[(i + 1) % v.len()])).fold(f64::INFINITY, f64::min)
}
/// Winding number by summed angles (meaningful away from the boundary).
pub fn winding(p: P2, v: &[P2]) -> f64 {
    let mut s = 0.0;
    for i in 0..v.len() {
        let (a, b) = (v[i] - p, v[(i + 1) % v.len()] - p);
        s += cross2(a, b).atan2(a.dot(&b));
    }
    s / std::f64::consts::TAU
}
pub fn inside2(p: P2, v: &[P2]) -> bool {
    winding(p, v).abs() > 0.5
}
/// Whether segments cross, and the smallest margin of the decision.
pub fn segs(a: P2, b: P2, c: P2, d: P2) -> (bool, f64) {
    let o = |p: P2, q: P2, r: P2| cross2(q - p, r - p);
    let (l1, l2) = ((b - a).norm(), (d - c).norm());
    let (o1, o2, o3, o4) = (o(a, b, c) / l1, o(a, b, d) / l1, o(c, d, a) / l2, o(c, d, b) / l2);
    let cross = o1 * o2 < 0.0 && o3 * o4 < 0.0;
    if cross {
        (true, o1.abs().min(o2.abs()).min(o3.abs()).min(o4.abs()))
    } else {
        let m = sd2(a, c, d).min(sd2(b, c, d)).min(sd2(c, a, b)).min(sd2(d, a, b));
        (false, m)
    }
}
pub fn hull(mut p: Vec<P2>) -> Vec<P2> {
    p.sort_by(|a, b| a.x.total_cmp(&b.x).then(a.y.total_cmp(&b.y)));
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<P2> = Vec::new();
    for pass in 0..2 {
        let start = h.len();
        let it: Box<dyn Iterator<Item = &P2>> = if pass == 0 { Box::new(p.iter()) } else { Box::new(p.iter().rev()) };
        for q in it {
            while h.len() >= start + 2 && cross2(h[h.len() - 1] - h[h.len() - 2], q - h[h.len() - 2]) <= 0.0 {
                h.pop();
            }
            h.push(*q);
        }
        h.pop();
    }
    h
}
/// Intersection of two convex polygons: mutual containment of vertices and edge crossings, then the hull.
pub fn convex_intersection(a: &[P2], b: &[P2]) -> Vec<P2> {
    let within = |p: P2, v: &[P2]| (0..v.len()).all(|i| cross2(v[(i + 1) % v.len()] - v[i], p - v[i]) >= 0.0);
    let mut pts: Vec<P2> = a.iter().copied().filter(|p| within(*p, b)).collect();
    pts.extend(b.iter().copied().filter(|p| within(*p, a)));
    for i in 0..a.len() {
        for j in 0..b.len() {
            let (p, q, r, s) = (a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()]);
            let den = cross2(q - p, s - r);
            if den != 0.0 {
                let t = cross2(r - p, s - r) / den;
                let u = cross2(r - p, q - p) / den;
                if (0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&u) {
                    pts.push(p + (q - p) * t);
                }
            }
        }
    }
    hull(pts)
}

#[derive(Clone, Copy, Debug)]
pub struct Frame2 {
    pub s: f64,
    pub o: V2,
    cs: (f64, f64),
}
impl Frame2 {
    pub fn new(r: &mut Rng) -> Self {
        let s = if r.chance(0.4) { 1.0 } else if r.chance(0.25) { r.logf(1e-10, 1e10) } else { r.logf(1e-4, 1e4) };
        let o = match r.below(4) {
            0 => V2::zeros(),
            1 => V2::new(r.f(-1.0, 1.0), r.f(-1.0, 1.0)) * s * 1e4,
            _ => V2::new(r.f(-3.0, 3.0), r.f(-3.0, 3.0)) * s,
        };
        let a: f64 = if r.chance(0.3) { *r.pick(&[0.0, 1.0, 2.0, 3.0]) * std::f64::consts::FRAC_PI_2 } else { r.f(0.0, 6.3) };
        let cs = if r.chance(0.2) { (1.0, 0.0) } else { (a.cos(), a.sin()) };
        Frame2 { s, o, cs }
    }
    pub fn p(&self, x: f64, y: f64) -> P2 {
        P2::new(self.cs.0 * x - self.cs.1 * y, self.cs.1 * x + self.cs.0 * y) * self.s + self.o
    }
    /// Coordinates carry rounding of about this size.
    pub fn eps(&self) -> f64 {
        2e-16 * (self.o.norm() + 4.0 * self.s)
    }
}
pub fn convex(r: &mut Rng, n: usize) -> Vec<(f64, f64)> {
    // points on an ellipse with separated angles
    let n = n.max(3);
    let (ax, by) = (r.f(0.3, 1.5), r.f(0.3, 1.5));
    let t0 = r.f(0.0, 6.3);
    (0..n)
        .map(|i| {
            let a = t0 + std::f64::consts::TAU * (i as f64 + r.f(-0.3, 0.3)) / n as f64;
            (ax * a.cos(), by * a.sin())
        })
        .collect()
}
/// Simple polygons, counter-clockwise.
pub fn simple(r: &mut Rng) -> (Vec<(f64, f64)>, &'static str) {
    match r.below(6) {
        0 => {
            let n = r.sized(3, 9, 40);
            (convex(r, n), "convex")
        }
        1 | 2 => {
            let n = r.sized(3, 14, 60);
            let v = (0..n)
                .map(|i| {
                    let a = std::f64::consts::TAU * (i as f64 + r.f(-0.2, 0.2)) / n as f64;
                    let q = r.f(0.2, 1.5);
                    (q * a.cos(), q * a.sin())
                })
                .collect();
            (v, "star")
        }
        3 => {
            // x-monotone
            let (lo, hi) = (r.sized(1, 6, 40), r.sized(1, 6, 40));
            let mut v = vec![(-1.2, 0.0)];
            for i in 0..lo {
                v.push((-1.0 + 2.0 * (i as f64 + r.f(0.1, 0.9)) / lo as f64, r.f(-1.2, -0.1)));
            }
            v.push((1.2, 0.0));
            for i in (0..hi).rev() {
                v.push((-1.0 + 2.0 * (i as f64 + r.f(0.1, 0.9)) / hi as f64, r.f(0.1, 1.2)));
            }
            (v, "monotone")
        }
        4 => {
            // comb with axis-aligned teeth, on a lattice
            let k = r.sized(1, 4, 20);
            let mut v = vec![(0.0, 0.0), (2.0 * k as f64 + 1.0, 0.0)];
            for i in (0..=k).rev() {
                let h = r.range(2, 5) as f64;
                v.push((2.0 * i as f64 + 1.0, h));
                v.push((2.0 * i as f64, h));
                if i > 0 {
                    v.push((2.0 * i as f64, 1.0));
                    v.push((2.0 * i as f64 - 1.0, 1.0));
                }
            }
            v[1].1 = 0.0;
            // the last pushed point is (0, h)
            (v.into_iter().map(|(x, y)| (x / 4.0 - 1.0, y / 4.0 - 0.5)).collect(), "comb")
        }
        _ => {
            // staircase / L shapes on a lattice
            let k = r.range(1, 5);
            let mut v = vec![(0.0, 0.0), (k as f64, 0.0)];
            for i in (0..k).rev() {
                v.push((i as f64 + 1.0, (k - i) as f64));
                v.push((i as f64, (k - i) as f64));
            }
            // drop the redundant corner on the first step
            v.dedup();
            (v.into_iter().map(|(x, y)| (x / 2.0 - 1.0, y / 2.0 - 1.0)).collect(), "stairs")
        }
    }
}

#[derive(Clone, Debug)]
pub struct Frame3 {
    pub s: f64,
    pub o: V3,
    pub q: [[f64; 3]; 3],
}
impl Frame3 {
    pub fn new(r: &mut Rng) -> Self {
        let s = if r.chance(0.4) { 1.0 } else if r.chance(0.25) { r.logf(1e-10, 1e10) } else { r.logf(1e-4, 1e4) };
        let o = match r.below(4) {
            0 => V3::zeros(),
            1 => V3::new(r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)) * s * 1e3,
            _ => V3::new(r.f(-3.0, 3.0), r.f(-3.0, 3.0), r.f(-3.0, 3.0)) * s,
        };
        let mut q = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
        if r.chance(0.7) {
            let mut m = DMatrix::from_fn(3, 3, |_, _| r.normal()).qr().q();
            if m.determinant() < 0.0 {
                m.column_mut(0).neg_mut();
            }
            for i in 0..3 {
                for j in 0..3 {
                    q[i][j] = m[(i, j)];
                }
            }
        }
        Frame3 { s, o, q }
    }
    pub fn p(&self, x: [f64; 3]) -> P3 {
        P3::from(self.v(x) * self.s + self.o)
    }
    pub fn v(&self, x: [f64; 3]) -> V3 {
        V3::from_fn(|i, _| (0..3).map(|j| self.q[i][j] * x[j]).sum())
    }
    pub fn eps(&self) -> f64 {
        4e-16 * (self.o.norm() + 4.0 * self.s)
    }
}
/// Non-degenerate tetrahedron, positively oriented.
pub fn tet(r: &mut Rng) -> [[f64; 3]; 4] {
    loop {
        let v: [[f64; 3]; 4] = if r.chance(0.2) {
            [[0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
        } else {
            std::array::from_fn(|_| std::array::from_fn(|_| r.f(-1.0, 1.0)))
        };
        let p: Vec<V3> = v.iter().map(|x| V3::new(x[0], x[1], x[2])).collect();
        let vol = (p[1] - p[0]).cross(&(p[2] - p[0])).dot(&(p[3] - p[0]));
        if vol > 0.05 {
            return v;
        }
        if vol < -0.05 {
            return [v[0], v[2], v[1], v[3]];
        }
    }
}
pub fn tet_vol(p: &[P3; 4]) -> f64 {
    (p[1] - p[0]).cross(&(p[2] - p[0])).dot(&(p[3] - p[0])) / 6.0
}
/// Closest distance from a point to a triangle (Ericson's region test).
pub fn tri_dist(p: P3, a: P3, b: P3, c: P3) -> f64 {
    let n = (b - a).cross(&(c - a));
    let n2 = n.norm_squared();
    if n2 > 0.0 {
        // barycentric coordinates of the projection
        let w = p - a;
        let g = (b - a).cross(&w).dot(&n) / n2;
        let be = w.cross(&(c - a)).dot(&n) / n2;
        if g >= 0.0 && be >= 0.0 && g + be <= 1.0 {
            return (n.dot(&w) / n2.sqrt()).abs();
        }
    }
    sd3(p, a, b).min(sd3(p, b, c)).min(sd3(p, c, a))
}
/// Volume of the part of a tetrahedron where the (linear) vertex values are non-positive.
pub fn tet_part(p: &[P3; 4], d: &[f64; 4]) -> f64 {
    let vol = tet_vol(p).abs();
    let mut idx = [0, 1, 2, 3];
    idx.sort_by(|a, b| d[*a].total_cmp(&d[*b]));
    let v: [f64; 4] = std::array::from_fn(|i| d[idx[i]]);
    let k = v.iter().filter(|x| **x <= 0.0).count();
    match k {
        0 => 0.0,
        4 => vol,
        1 => vol * (1..4).map(|i| v[0] / (v[0] - v[i])).product::<f64>(),
        3 => vol * (1.0 - (0..3).map(|i| v[3] / (v[3] - v[i])).product::<f64>()),
        _ => {
            // prism between v0,v1 (inside) and v2,v3 (outside): three tetrahedra
            let q: [P3; 4] = std::array::from_fn(|i| p[idx[i]]);
            let cut = |i: usize, j: usize| q[i] + (q[j] - q[i]) * (v[i] / (v[i] - v[j]));
            let (a, b, c, e) = (cut(0, 2), cut(0, 3), cut(1, 2), cut(1, 3));
            let t = |w: [P3; 4]| tet_vol(&w).abs();
            t([q[0], a, b, q[1]]) + t([a, b, q[1], e]) + t([a, q[1], c, e])
        }
    }
}

//! Distances to segments, triangles and tetrahedra, by exhaustive comparison of their parts.
use vfem::*;

pub fn on_segment(a: [f64; 3], b: [f64; 3], p: [f64; 3]) -> [f64; 3] {
    let d = sub3(b, a);
    let l2 = dot3(d, d);
    if l2 == 0.0 {
        return a;
    }
    // from the nearer end, for accuracy
    let t = dot3(sub3(p, a), d) / l2;
    if t <= 0.5 {
        add3(a, scale3(d, t.max(0.0)))
    } else {
        let s = dot3(sub3(p, b), d) / l2;
        add3(b, scale3(d, s.min(0.0)))
    }
}
/// a closest point of the triangle (always a point of it)
pub fn on_triangle(t: [[f64; 3]; 3], p: [f64; 3]) -> [f64; 3] {
    let mut best = t[0];
    let mut bd = f64::INFINITY;
    let mut consider = |q: [f64; 3]| {
        let d = norm3(sub3(q, p));
        if d < bd {
            bd = d;
            best = q;
        }
    };
    for i in 0..3 {
        consider(on_segment(t[i], t[(i + 1) % 3], p));
    }
    let (u, v) = (sub3(t[1], t[0]), sub3(t[2], t[0]));
    let n = cross(u, v);
    let n2 = dot3(n, n);
    if n2 > 0.0 {
        let w = sub3(p, t[0]);
        let b2 = dot3(cross(u, w), n) / n2;
        let b1 = dot3(cross(w, v), n) / n2;
        if b1 >= 0.0 && b2 >= 0.0 && b1 + b2 <= 1.0 {
            consider(add3(t[0], add3(scale3(u, b1), scale3(v, b2))));
        }
    }
    best
}
/// barycentric coordinates in a tetrahedron
pub fn bary_tet(t: [[f64; 3]; 4], p: [f64; 3]) -> [f64; 4] {
    let v = tet_vol(t[0], t[1], t[2], t[3]);
    std::array::from_fn(|i| {
        let mut s = t;
        s[i] = p;
        tet_vol(s[0], s[1], s[2], s[3]) / v
    })
}
pub fn on_tet(t: [[f64; 3]; 4], p: [f64; 3]) -> [f64; 3] {
    // in (almost) flat cells barycentric coordinates mean nothing; the faces then miss the best by at most the height
    let (h, small) = shape(&t);
    let near = norm3(sub3(p, t[0])) <= 1.5 * h && small > 1e-9 * h;
    if near && bary_tet(t, p).iter().all(|&b| b >= 0.0) {
        return p;
    }
    let mut best = t[0];
    for f in [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]] {
        let q = on_triangle([t[f[0]], t[f[1]], t[f[2]]], p);
        if norm3(sub3(q, p)) < norm3(sub3(best, p)) {
            best = q;
        }
    }
    best
}
/// (largest edge, smallest height) of a triangle / tetrahedron
pub fn shape(t: &[[f64; 3]]) -> (f64, f64) {
    let mut h: f64 = 0.0;
    for a in t {
        for b in t {
            h = h.max(norm3(sub3(*a, *b)));
        }
    }
    let tri = |a: [f64; 3], b: [f64; 3], c: [f64; 3]| {
        let l = norm3(sub3(a, b)).max(norm3(sub3(b, c))).max(norm3(sub3(a, c)));
        if l == 0.0 {
            0.0
        } else {
            norm3(cross(sub3(b, a), sub3(c, a))) / l
        }
    };
    if t.len() == 3 {
        return (h, tri(t[0], t[1], t[2]));
    }
    let mut small = f64::INFINITY;
    let mut amax: f64 = 0.0;
    for f in [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]] {
        small = small.min(tri(t[f[0]], t[f[1]], t[f[2]]));
        amax = amax.max(norm3(cross(sub3(t[f[1]], t[f[0]]), sub3(t[f[2]], t[f[0]]))));
    }
    let vol = tet_vol(t[0], t[1], t[2], t[3]).abs() * 6.0;
    let height = if amax > 0.0 { vol / amax } else { 0.0 };
    (h, small.min(height))
}
/// allowed excess distance: rounding, amplified by the shape of the cell (normal equations square its condition),
/// but never more than the smallest height, since boundary parts are always considered
pub fn tolerance(t: &[[f64; 3]], p: [f64; 3]) -> f64 {
    let (h, small) = shape(t);
    let m = t.iter().flatten().chain(p.iter()).fold(0.0, |a: f64, b| a.max(b.abs()));
    let cond = if small > 0.0 { h / small } else { f64::INFINITY };
    let l = norm3(sub3(p, t[0])) + h;
    1e-13 * (m + l) + (1e-13 * cond * cond * (m + l)).min(2.0 * small)
}

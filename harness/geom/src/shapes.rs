//! G05: convex polytopes, half spaces, signed distance shapes.
use crate::geo::*;
use fenris::geometry::sdf::*;
use fenris::geometry::util::{compute_orthonormal_vectors_3d, slices_are_equal_shift_invariant};
use fenris::geometry::*;
use fenris::nalgebra::{Point2, Unit, Vector2};
use vlib::{Case, Run};

/// Reference shapes: nested unions of discs and boxes.
#[derive(Clone, Debug)]
enum Shape {
    Disc(P2, f64),
    Rect(P2, P2),
    Union(Box<Shape>, Box<Shape>),
}
impl Shape {
    /// Value and the gap to the next candidate for the closest feature.
    fn eval(&self, x: P2) -> (f64, f64) {
        match self {
            Shape::Disc(c, r) => {
                let d = (x - c).norm();
                (d - r, d)
            }
            Shape::Rect(a, b) => {
                let (l, r, d, u) = (a.x - x.x, x.x - b.x, a.y - x.y, x.y - b.y);
                let (h, v) = (l.max(r), d.max(u));
                if h <= 0.0 && v <= 0.0 {
                    let mut s = [l, r, d, u];
                    s.sort_by(|p, q| q.total_cmp(p));
                    (s[0], s[0] - s[1])
                } else {
                    let e = h.max(0.0).hypot(v.max(0.0));
                    // beside a side the gradient changes smoothly at the corner, so no gap is needed
                    (e, e)
                }
            }
            Shape::Union(p, q) => {
                let ((a, ga), (b, gb)) = (p.eval(x), q.eval(x));
                if a < b {
                    (a, ga.min(b - a))
                } else {
                    (b, gb.min(a - b))
                }
            }
        }
    }
    fn bounds(&self) -> (P2, P2, f64) {
        match self {
            Shape::Disc(c, r) => (c - Vector2::repeat(*r), c + Vector2::repeat(*r), *r),
            Shape::Rect(a, b) => (*a, *b, 0.0),
            Shape::Union(p, q) => {
                let ((a, b, m), (x, y, n)) = (p.bounds(), q.bounds());
                (Point2::new(a.x.min(x.x), a.y.min(x.y)), Point2::new(b.x.max(y.x), b.y.max(y.y)), m.max(n))
            }
        }
    }
}
/// The library's counterpart behind one type.
trait Sdf: Send + Sync {
    fn ev(&self, x: &P2) -> f64;
    fn gr(&self, x: &P2) -> Option<V2>;
    fn bb(&self) -> AxisAlignedBoundingBox2d<f64>;
}
impl<S: BoundedSdf<f64> + Send + Sync> Sdf for S {
    fn ev(&self, x: &P2) -> f64 {
        self.eval(x)
    }
    fn gr(&self, x: &P2) -> Option<V2> {
        self.gradient(x)
    }
    fn bb(&self) -> AxisAlignedBoundingBox2d<f64> {
        self.bounding_box()
    }
}
fn leaf(c: &mut Case, s: f64, o: V2) -> Shape {
    let lat = c.rng.bool();
    let mut k = |lo: f64, hi: f64| if lat { (c.rng.f(lo, hi) * 2.0).round() / 2.0 } else { c.rng.f(lo, hi) };
    let p = Point2::new(k(-2.0, 2.0), k(-2.0, 2.0));
    let (w, h) = (k(0.0, 2.0).max(0.0), k(0.0, 2.0).max(0.0));
    let sc = |p: P2| Point2::from(p.coords * s + o);
    if c.rng.bool() {
        Shape::Disc(sc(p), s * w.max(0.05))
    } else {
        Shape::Rect(sc(p), sc(p + V2::new(w, h)))
    }
}
fn circle(p: &P2, r: f64) -> SdfCircle<f64> {
    SdfCircle { radius: r, center: p.coords }
}
fn rect(a: &P2, b: &P2) -> SdfAxisAlignedBox<f64> {
    SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::new(*a, *b) }
}
fn build(s: &Shape) -> Box<dyn Sdf> {
    use Shape::*;
    match s {
        Disc(p, r) => Box::new(circle(p, *r)),
        Rect(a, b) => Box::new(rect(a, b)),
        Union(p, q) => match (&**p, &**q) {
            (Disc(p, r), Disc(q, t)) => Box::new(circle(p, *r).union(circle(q, *t))),
            (Disc(p, r), Rect(a, b)) => Box::new(circle(p, *r).union(rect(a, b))),
            (Rect(a, b), Disc(p, r)) => Box::new(rect(a, b).union(circle(p, *r))),
            (Rect(a, b), Rect(x, y)) => Box::new(rect(a, b).union(rect(x, y))),
            (Union(u, v), Disc(p, r)) => match (&**u, &**v) {
                (Disc(q, t), Rect(a, b)) => Box::new(circle(q, *t).union(rect(a, b)).union(circle(p, *r))),
                (Rect(a, b), Rect(x, y)) => Box::new(rect(a, b).union(rect(x, y)).union(circle(p, *r))),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        },
    }
}
fn sdf(c: &mut Case) {
    let s = if c.rng.chance(0.4) { 1.0 } else { c.rng.logf(1e-8, 1e8) };
    let o = if c.rng.bool() { V2::zeros() } else { V2::new(c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0)) * s };
    let shape = match c.rng.below(4) {
        0 | 1 => leaf(c, s, o),
        2 => Shape::Union(Box::new(leaf(c, s, o)), Box::new(leaf(c, s, o))),
        _ => {
            let (a, b) = loop {
                let (a, b) = (leaf(c, s, o), leaf(c, s, o));
                if matches!((&a, &b), (Shape::Disc(..), Shape::Rect(..)) | (Shape::Rect(..), Shape::Rect(..))) {
                    break (a, b);
                }
            };
            let d = loop {
                let d = leaf(c, s, o);
                if matches!(d, Shape::Disc(..)) {
                    break d;
                }
            };
            Shape::Union(Box::new(Shape::Union(Box::new(a), Box::new(b))), Box::new(d))
        }
    };
    c.key(format!("{shape:?}"));
    let f = build(&shape);
    let eps = 4e-16 * (o.norm() + 8.0 * s);
    let (lo, hi, rmax) = shape.bounds();
    // the bounding box holds the shape, with at most the documented margin of a hundredth of a radius
    let bb = f.bb();
    let m = 0.0101 * rmax + 4.0 * eps;
    c.check((0..2).all(|i| bb.min()[i] <= lo[i] + eps && bb.max()[i] >= hi[i] - eps && bb.min()[i] >= lo[i] - m && bb.max()[i] <= hi[i] + m), "bounding_box", || format!("{shape:?} {bb:?}"));
    for _ in 0..6 {
        let x = match c.rng.below(6) {
            0 => lo,
            1 => fenris::nalgebra::center(&lo, &hi),
            2 => Point2::new(c.rng.f(-3.0, 5.0), c.rng.f(-3.0, 5.0)) * s + o,
            3 => Point2::new(c.rng.f(-30.0, 30.0), c.rng.f(-30.0, 30.0)) * s + o,
            _ => Point2::new(c.rng.f(-0.1, 1.1) * (hi.x - lo.x) + lo.x, c.rng.f(-0.1, 1.1) * (hi.y - lo.y) + lo.y),
        };
        c.desc(format!("{shape:?} at {x:?}"));
        let (want, gap) = shape.eval(x);
        let e = f.ev(&x);
        let tol = 8.0 * (eps + 4e-16 * (x.coords.norm()));
        c.close(e, want, tol, "value", || String::new());
        c.count(if want < 0.0 { "inside" } else { "outside" }, 1);
        // 1-Lipschitz; no sign change within the reported distance
        for far in [false, true] {
            let d = V2::new(c.rng.normal(), c.rng.normal());
            if d.norm() < 1e-3 {
                continue;
            }
            let len = if far { s * c.rng.f(0.0, 5.0) } else { e.abs() * c.rng.f01() };
            let y = x + d.normalize() * len;
            let ey = f.ev(&y);
            c.check((ey - e).abs() <= len + 2.0 * tol, "lipschitz", || format!("{y:?} {e} {ey}"));
            if !far && e.abs() > 16.0 * tol {
                c.check(e * ey >= 0.0 || ey.abs() <= 4.0 * tol, "claims_too_much", || format!("{y:?} {e} {ey}"));
            }
            // inside implies inside the box
            if ey <= -4.0 * tol {
                c.check(bb.contains_point(&y), "outside_own_box", || format!("{y:?} {bb:?}"));
            }
        }
        // gradient: unit length and the derivative of the value
        if gap > 1e-4 * s && e.abs() > 1e-4 * s {
            let h = 1e-5 * gap.min(e.abs());
            let Some(g) = c.no_panic("gradient_panics", || f.gr(&x)) else { continue };
            let Some(g) = g else {
                c.fail("gradient_missing", format!("{shape:?} {x:?} gap {gap}"));
                continue;
            };
            c.close(g.norm(), 1.0, 1e-12, "gradient_length", || format!("{g:?}"));
            // reference derivative by central differences; the error is of order h / |e| and rounding / h
            let ft = 1e-4 + 64.0 * tol / h;
            if ft < 1e-2 {
                for i in 0..2 {
                    let mut d = V2::zeros();
                    d[i] = h;
                    let fd = (shape.eval(x + d).0 - shape.eval(x - d).0) / (2.0 * h);
                    c.check((fd - g[i]).abs() <= ft, "gradient", || format!("{g:?} component {i} {fd} h {h}"));
                }
                c.count("gradients", 1);
            }
            // stepping to the surface
            if e > 0.0 {
                let y = x - g * e;
                c.check(f.ev(&y).abs() <= 64.0 * tol, "projection", || format!("{y:?} {}", f.ev(&y)));
            }
        }
    }
    if let Shape::Disc(p, _) = &shape {
        c.check(f.gr(p).is_none(), "gradient_at_center", || String::new());
    }
}

/// General convex bodies as polyhedra with inward faces, as the trait expects.
#[derive(Debug)]
struct Body {
    v: Vec<P3>,
    faces: Vec<Vec<usize>>,
}
#[derive(Debug)]
struct Face<'a>(&'a [P3], &'a [usize]);
impl<'a> ConvexPolygon3d<'a, f64> for Face<'a> {
    fn num_vertices(&self) -> usize {
        self.1.len()
    }
    fn get_vertex(&self, i: usize) -> Option<P3> {
        self.1.get(i).map(|k| self.0[*k])
    }
}
struct Poly<'a>(&'a Body);
impl std::fmt::Debug for Poly<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a> ConvexPolyhedron<'a, f64> for Poly<'a> {
    type Face = Face<'a>;
    fn num_faces(&self) -> usize {
        self.0.faces.len()
    }
    fn get_face(&self, i: usize) -> Option<Face<'a>> {
        self.0.faces.get(i).map(|f| Face(&self.0.v, f))
    }
}
fn body(c: &mut Case, f: &Frame3) -> Body {
    let n = c.rng.sized(3, 7, 40);
    let ring: Vec<(f64, f64)> = convex(&mut c.rng, n);
    let (mut v, mut faces) = (vec![], vec![]);
    if c.rng.bool() {
        // prism or frustum
        let k = if c.rng.bool() { 1.0 } else { c.rng.f(0.4, 1.5) };
        let h = c.rng.f(0.3, 2.0);
        v.extend(ring.iter().map(|p| f.p([p.0, p.1, 0.0])));
        v.extend(ring.iter().map(|p| f.p([p.0 * k, p.1 * k, h])));
        faces.push((0..n).collect::<Vec<_>>());
        faces.push((n..2 * n).rev().collect());
        for i in 0..n {
            let j = (i + 1) % n;
            faces.push(vec![i, n + i, n + j, j]);
        }
    } else {
        // bipyramid
        v.extend(ring.iter().map(|p| f.p([p.0, p.1, 0.0])));
        v.push(f.p([0.0, 0.0, c.rng.f(0.3, 2.0)]));
        v.push(f.p([0.0, 0.0, c.rng.f(-2.0, -0.3)]));
        for i in 0..n {
            let j = (i + 1) % n;
            faces.push(vec![j, i, n]);
            faces.push(vec![i, j, n + 1]);
        }
    }
    for f in faces.iter_mut() {
        let k = c.rng.below(f.len());
        f.rotate_left(k);
    }
    c.rng.shuffle(&mut faces);
    Body { v, faces }
}
fn polytopes(c: &mut Case) {
    let f = Frame3::new(&mut c.rng);
    let b = body(c, &f);
    c.keyf(&b.v.iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>());
    let p = Poly(&b);
    let eps = f.eps();
    // volume: cones from the mean
    let cen = P3::from(b.v.iter().map(|x| x.coords).sum::<V3>() / b.v.len() as f64);
    let tris: Vec<[P3; 3]> = b.faces.iter().flat_map(|q| (1..q.len() - 1).map(|k| [b.v[q[0]], b.v[q[k]], b.v[q[k + 1]]]).collect::<Vec<_>>()).collect();
    let vol: f64 = tris.iter().map(|t| tet_vol(&[t[0], t[1], t[2], cen]).abs()).sum();
    c.close(p.compute_volume(), vol, 256.0 * eps * f.s * (f.s + f.o.norm()), "volume", || format!("{b:?}"));
    for _ in 0..6 {
        let x = match c.rng.below(4) {
            0 => b.v[c.rng.below(b.v.len())] + V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (f.s * c.rng.f(0.0, 0.3)),
            1 => cen + V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (f.s * c.rng.f(0.0, 0.5)),
            _ => cen + V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (f.s * c.rng.f(0.0, 3.0)),
        };
        let d = tris.iter().map(|t| tri_dist(x, t[0], t[1], t[2])).fold(f64::INFINITY, f64::min);
        // inside: on the inner side of every face
        let inside = tris.iter().all(|t| tet_vol(&[t[0], t[1], t[2], x]) * tet_vol(&[t[0], t[1], t[2], cen]) > 0.0);
        c.desc(format!("{b:?} at {x:?}, distance {d}, inside {inside}"));
        let tol = 4096.0 * eps + 1e-14 * d;
        let sd = p.compute_signed_distance(&x);
        c.close(sd.signed_distance.abs(), d, tol, "signed_distance_size", || format!("{sd:?}"));
        c.close((sd.point - x).norm(), d, tol, "closest_point", || format!("{sd:?}"));
        if d > 1e5 * eps {
            c.check(p.contains_point(&x) == inside, "contains", || String::new());
            c.check((sd.signed_distance < 0.0) == inside, "sign", || format!("{sd:?}"));
            // the same from the half spaces of the faces
            let hs = (0..p.num_faces()).all(|i| p.get_face(i).unwrap().compute_half_space().unwrap().contains_point(&x));
            c.check(hs == inside, "half_spaces", || String::new());
            c.count(if inside { "inside_body" } else { "outside_body" }, 1);
        }
        if let Some(q) = b.faces.get(sd.feature_id) {
            let fd = (1..q.len() - 1).map(|k| tri_dist(x, b.v[q[0]], b.v[q[k]], b.v[q[k + 1]])).fold(f64::INFINITY, f64::min);
            c.close(fd, d, tol, "feature", || format!("{sd:?}"));
        } else {
            c.fail("feature_range", format!("{sd:?}"));
        }
    }
}

fn half_spaces(c: &mut Case) {
    let f = Frame3::new(&mut c.rng);
    let n3 = V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal());
    let p = f.p([c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)]);
    let n = if c.rng.chance(0.3) {
        let mut e = V3::zeros();
        e[c.rng.below(3)] = if c.rng.bool() { 1.0 } else { -1.0 };
        e
    } else if n3.norm() > 0.01 {
        n3.normalize()
    } else {
        return c.trivial();
    };
    c.keyf(&[p.x, p.y, p.z, n.x, n.y, n.z]);
    let u = Unit::new_unchecked(n);
    let hs = HalfSpace::from_point_and_normal(p, u);
    let eps = f.eps();
    c.check(hs.point() == &p && hs.normal() == &n, "half_space_parts", || format!("{hs:?}"));
    let co = hs.complement();
    let pl = hs.plane();
    c.check(pl.point() == &p && pl.normal().into_inner() == n && pl.flipped().normal().into_inner() == -n && pl.flipped().point() == &p, "plane_parts", || format!("{pl:?}"));
    let back = HalfSpace::from_plane(&pl);
    c.check(back.point() == &p && back.normal() == &n, "from_plane", || format!("{back:?}"));
    for t in [pl.compute_tangent_vectors(), compute_orthonormal_vectors_3d(&u)] {
        let [a, b] = t.map(|x| x.into_inner());
        c.check((a.norm() - 1.0).abs() < 1e-14 && (b.norm() - 1.0).abs() < 1e-14 && a.dot(&b).abs() < 1e-14 && a.dot(&n).abs() < 1e-14 && b.dot(&n).abs() < 1e-14, "tangents", || format!("{n:?} {a:?} {b:?}"));
        c.check(a.cross(&b).dot(&n) > 0.0, "tangent_orientation", || format!("{n:?} {a:?} {b:?}"));
    }
    for _ in 0..4 {
        let x = p + V3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (f.s * c.rng.f(0.0, 2.0));
        let d = n.x * (x.x - p.x) + n.y * (x.y - p.y) + n.z * (x.z - p.z);
        c.close(hs.signed_distance_to_point(&x), d, 16.0 * eps, "half_space_distance", || format!("{x:?}"));
        c.close(co.signed_distance_to_point(&x), -d, 16.0 * eps, "complement_distance", || format!("{x:?}"));
        if d.abs() > 1e2 * eps {
            c.check(hs.contains_point(&x) == (d < 0.0) && co.contains_point(&x) == (d > 0.0), "half_space_contains", || format!("{x:?} {d}"));
        }
    }
    c.check(hs.contains_point(&p) && co.contains_point(&p), "half_space_boundary", || String::new());
    // half planes
    let (p2, a) = (P2::new(p.x, p.y), c.rng.f(0.0, 6.3));
    let n2 = V2::new(a.cos(), a.sin());
    let hp = HalfPlane::from_point_and_normal(p2, Unit::new_unchecked(n2));
    let x = p2 + V2::new(c.rng.normal(), c.rng.normal()) * f.s;
    let d = n2.dot(&(x - p2));
    c.close(hp.signed_distance_to_point(&x), d, 16.0 * eps, "half_plane_distance", || format!("{x:?}"));
    let l = hp.surface();
    let t = c.rng.f(-3.0, 3.0) * f.s;
    let y = l.point_from_parameter(t);
    c.check(n2.dot(&(y - p2)).abs() <= 16.0 * eps && ((y - p2).norm() - t.abs()).abs() <= 16.0 * eps, "half_plane_surface", || format!("{y:?}"));
}

fn convex_polygons(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    let n = c.rng.sized(3, 9, 40);
    let v: Vec<P2> = convex(&mut c.rng, n).into_iter().map(|p| f.p(p.0, p.1)).collect();
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let eps = f.eps();
    let poly = ConvexPolygon::from_vertices(v.clone());
    c.check(poly.vertices() == v && poly.num_edges() == n && !poly.is_empty() && !poly.is_point() && !poly.is_line_segment(), "polygon_parts", || format!("{poly:?}"));
    let e: Vec<(P2, P2)> = poly.edges().map(|(a, b)| (*a, *b)).collect();
    c.check(e == (0..n).map(|i| (v[i], v[(i + 1) % n])).collect::<Vec<_>>(), "edges", || format!("{e:?}"));
    let hp: Vec<_> = poly.half_planes().collect();
    c.check(hp.len() == n, "half_planes", || format!("{hp:?}"));
    let tri = (n == 3).then(|| ConvexPolygon::from(Triangle([v[0], v[1], v[2]])));
    if let Some(t) = &tri {
        c.check(t.vertices() == v, "from_triangle", || format!("{t:?}"));
    }
    if n == 4 {
        let q = ConvexPolygon::try_from(Quad2d([v[0], v[1], v[2], v[3]]));
        c.check(q.as_ref().map_or(false, |q| q.vertices() == v), "from_quad", || format!("{q:?}"));
        // push one corner inside the opposite triangle: concave
        let k = c.rng.below(4);
        let mut w = v.clone();
        let (a, b, o) = (v[(k + 1) % 4], v[(k + 3) % 4], v[(k + 2) % 4]);
        let (s, t) = (c.rng.f(0.2, 0.8), c.rng.f(0.2, 0.8));
        let m = a + (b - a) * s;
        w[k] = m + (o - m) * t;
        let q = ConvexPolygon::try_from(Quad2d([w[0], w[1], w[2], w[3]]));
        c.check(q.is_err(), "concave_quad_accepted", || format!("{w:?}"));
        c.count("quads", 1);
    }
    for _ in 0..4 {
        let x = f.p(c.rng.f(-1.6, 1.6), c.rng.f(-1.6, 1.6));
        let inside = inside2(x, &v);
        if boundary_dist(x, &v) > 1e3 * eps {
            c.desc(format!("{v:?} {x:?}"));
            c.check(poly.contains_point(&x) == inside, "polygon_contains", || String::new());
            c.check(hp.iter().all(|h| h.contains_point(&x)) == inside, "polygon_half_planes", || String::new());
            c.count("polygon_queries", 1);
        }
    }
    // cyclic comparison of lists
    let k = c.rng.sized(0, 6, 200);
    let a: Vec<usize> = (0..k).map(|_| c.rng.below(3)).collect();
    let mut b = a.clone();
    if k > 0 {
        b.rotate_left(c.rng.below(k));
        if c.rng.chance(0.4) {
            let i = c.rng.below(k);
            b[i] = c.rng.below(3);
        }
        if c.rng.chance(0.1) {
            b.pop();
        }
    }
    let want = a.len() == b.len() && (a.is_empty() || (0..k).any(|s| (0..k).all(|i| a[(i + s) % k] == b[i])));
    c.check(slices_are_equal_shift_invariant(&a, &b, |x, y| x == y) == want, "shift_invariant", || format!("{a:?} {b:?}"));
    c.count(if want { "cyclic_equal" } else { "cyclic_different" }, 1);
    // orientation predicate
    let (p, q, r) = (v[0], v[1], v[2]);
    let o = predicates::orient2d_inexact(&p, &q, &r);
    c.close(o, cross2(q - p, r - p), 64.0 * eps * (f.s + f.o.norm()), "orient2d", || format!("{v:?}"));
}

pub fn g05(run: &mut Run) {
    run.assumption("verdicts are judged away from the boundary by 10^3..10^5 times the coordinate rounding; gradients away from the ridges where they jump");
    run.section("sdf", "discs, boxes and their unions over sixteen orders of magnitude: values, Lipschitz bound, sign, gradient, projection, bounding box", 60000, 2000000, sdf);
    run.section("polytopes", "prisms, frusta and bipyramids: containment, signed distance, volume, half spaces", 20000, 500000, polytopes);
    run.section("half_spaces", "half spaces, planes and half planes", 40000, 1000000, half_spaces);
    run.section("convex_polygons", "convex polygons from points, triangles and quadrilaterals; cyclic comparison; orientation", 40000, 1000000, convex_polygons);
    for k in ["inside", "outside", "gradients", "inside_body", "outside_body", "quads", "polygon_queries", "cyclic_equal", "cyclic_different"] {
        run.require(k, 1000);
    }
}

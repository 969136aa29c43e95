//! G01: planar polygons.
use crate::geo::*;
use fenris::geometry::*;
use fenris::nalgebra::{Isometry3, Point3, Translation3, Unit, UnitQuaternion, Vector3};
use std::convert::TryFrom;
use vlib::{Case, Run};

fn polygon(c: &mut Case) -> (Vec<P2>, Frame2, &'static str) {
    let f = Frame2::new(&mut c.rng);
    let (v, kind) = simple(&mut c.rng);
    let mut v: Vec<P2> = v.into_iter().map(|(x, y)| f.p(x, y)).collect();
    let k = c.rng.below(v.len());
    v.rotate_left(k);
    (v, f, kind)
}
fn query(c: &mut Case, v: &[P2], f: &Frame2) -> P2 {
    let n = v.len();
    let i = c.rng.below(n);
    let (a, b) = (v[i], v[(i + 1) % n]);
    match c.rng.below(6) {
        0 => f.p(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0)),
        1 => f.p(c.rng.f(-20.0, 20.0), c.rng.f(-20.0, 20.0)),
        2 => a + V2::new(c.rng.normal(), c.rng.normal()) * f.s * c.rng.logf(1e-6, 0.3),
        3 => {
            // off an edge, either side
            let t = c.rng.f01();
            let n = V2::new((b - a).y, -(b - a).x).normalize();
            a + (b - a) * t + n * f.s * c.rng.f(-0.3, 0.3)
        }
        4 => {
            // straight out of a vertex, along an edge or its normal
            let d = if c.rng.bool() { (b - a).normalize() } else { V2::new((b - a).y, -(b - a).x).normalize() };
            a + d * f.s * c.rng.f(-0.4, 0.4)
        }
        _ => {
            let j = c.rng.below(n);
            P2::from((a.coords + v[j].coords) * 0.5)
        }
    }
}

fn measures(c: &mut Case) {
    let (v, f, kind) = polygon(c);
    c.desc(format!("polygon {kind} {v:?}"));
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let n = v.len();
    let tol = 16.0 * n as f64 * f.eps() * f.s * 4.0;
    let want = area2(&v);
    if !c.check(want > 0.0, "generator_orientation", || format!("{want}")) {
        return;
    }
    let poly = SimplePolygon2d::from_vertices(v.clone());
    c.close(poly.signed_area(), want, tol, "signed_area", || kind.into());
    c.close(poly.area(), want, tol, "area", || kind.into());
    c.check(poly.orientation() == Orientation::Counterclockwise, "orientation", || format!("{:?}", poly.orientation()));
    let mut w = v.clone();
    let k = c.rng.below(n);
    w.rotate_left(k);
    let shifted = SimplePolygon2d::from_vertices(w.clone());
    c.close(shifted.signed_area(), want, tol, "shifted_area", || format!("shift {k}"));
    w.reverse();
    let rev = SimplePolygon2d::from_vertices(w.clone());
    c.close(rev.signed_area(), -want, tol, "reversed_area", || String::new());
    c.close(rev.area(), want, tol, "reversed_abs_area", || String::new());
    c.check(rev.orientation() == Orientation::Clockwise, "reversed_orientation", || format!("{:?}", rev.orientation()));
    c.check(poly.num_vertices() == n && poly.num_edges() == n && Polygon2d::num_edges(&poly) == n && Polygon2d::num_vertices(&poly) == n, "counts", || {
        format!("{} {}", poly.num_vertices(), poly.num_edges())
    });
    c.check(poly.vertices() == &v[..], "vertices", || String::new());
    // edges: by index, by iteration, by callback
    let want_edges: Vec<(P2, P2)> = (0..n).map(|i| (v[i], v[(i + 1) % n])).collect();
    let by_iter: Vec<(P2, P2)> = poly.edge_iter().map(|e| (*e.start(), *e.end())).collect();
    let mut by_call = vec![];
    poly.for_each_edge(|i, e| by_call.push((i, *e.start(), *e.end())));
    let by_index: Vec<_> = (0..n + 2).map(|i| poly.get_edge(i).map(|e| (*e.start(), *e.end()))).collect();
    c.check(by_iter == want_edges, "edge_iter", || format!("{by_iter:?}"));
    c.check(by_call.iter().enumerate().all(|(i, x)| x.0 == i && (x.1, x.2) == want_edges[i]) && by_call.len() == n, "for_each_edge", || format!("{by_call:?}"));
    c.check((0..n + 2).all(|i| by_index[i] == want_edges.get(i).copied()), "get_edge", || format!("{by_index:?}"));
    // bounding box
    let bb = poly.bounding_box();
    let (lo, hi) = v.iter().fold(([f64::INFINITY; 2], [f64::NEG_INFINITY; 2]), |(l, h), p| {
        ([l[0].min(p.x), l[1].min(p.y)], [h[0].max(p.x), h[1].max(p.y)])
    });
    c.check(bb.min() == &P2::new(lo[0], lo[1]) && bb.max() == &P2::new(hi[0], hi[1]), "bounding_box", || format!("{bb:?}"));
    // pseudonormals
    for i in 0..n {
        let (a, b) = want_edges[i];
        let nrm = |a: P2, b: P2| V2::new((b - a).y, -(b - a).x).normalize();
        let own = nrm(a, b);
        let prev = nrm(v[(i + n - 1) % n], a);
        let next = nrm(b, v[(i + 2) % n]);
        for (t, w) in [(0.0, (own + prev).normalize()), (1.0, (own + next).normalize()), (0.37, own)] {
            let g = poly.pseudonormal_on_edge(i, t);
            // sharp spikes amplify rounding
            let amp = 2.0 / (own + if t == 0.0 { prev } else if t == 1.0 { next } else { own }).norm();
            let rel = f.eps() / (b - a).norm().min((a - v[(i + n - 1) % n]).norm()).min((v[(i + 2) % n] - b).norm());
            c.check(g.map_or(false, |g| (g - w).norm() < 1e-12 * amp + 16.0 * rel * amp), "pseudonormal", || format!("edge {i} t {t}: {g:?} wanted {w:?}"));
        }
    }
    c.check(poly.pseudonormal_on_edge(n, 0.5).is_none(), "pseudonormal_range", || String::new());
    // transformation of vertices and serialization
    let mut moved = poly.clone();
    moved.transform_vertices(|vs| vs.iter_mut().for_each(|p| p.x = -p.x));
    c.close(moved.signed_area(), -want, tol, "mirrored_area", || String::new());
    let back: Result<SimplePolygon2d<f64>, _> = vlib::serde_json::from_value(vlib::serde_json::to_value(&poly).unwrap());
    c.check(back.as_ref().ok() == Some(&poly), "serde", || format!("{back:?}"));
    c.count("polygons", 1);
    if kind != "convex" {
        c.count("nonconvex_polygons", 1);
    }
}

fn distances(c: &mut Case) {
    let (v, f, kind) = polygon(c);
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let poly = SimplePolygon2d::from_vertices(v.clone());
    for _ in 0..8 {
        let q = query(c, &v, &f);
        c.desc(format!("distance {kind} {v:?} query {q:?}"));
        let d = boundary_dist(q, &v);
        let eps = 64.0 * f.eps() + 1e-15 * d;
        let Some(Some(e)) = c.no_panic("closest_edge_panic", || poly.closest_edge(&q)) else {
            c.fail("closest_edge_missing", "None");
            return;
        };
        c.close(e.signed_distance.abs(), d, eps, "closest_distance", || format!("{e:?}"));
        let robust = d > 1e4 * f.eps();
        let inside = inside2(q, &v);
        if robust {
            c.check((e.signed_distance < 0.0) == inside, "distance_sign", || format!("{e:?} inside {inside}"));
            let dd = poly.distance(&q);
            c.close(dd, if inside { 0.0 } else { d }, eps, "polygon_distance", || format!("inside {inside}"));
            let [lo, hi] = poly.distance_bound(&q);
            c.check(lo <= dd && dd <= hi, "distance_bound", || format!("{lo} {dd} {hi}"));
            c.count(if inside { "inside_queries" } else { "outside_queries" }, 1);
        }
        // the reported point lies on the reported edge at the reported parameter, and realizes the distance
        c.check(e.edge_index < v.len() && (0.0..=1.0).contains(&e.edge_parameter), "edge_reported", || format!("{e:?}"));
        if e.edge_index < v.len() {
            let (a, b) = (v[e.edge_index], v[(e.edge_index + 1) % v.len()]);
            c.check((a + (b - a) * e.edge_parameter - e.edge_point).norm() <= eps, "edge_point", || format!("{e:?}"));
            c.close((q - e.edge_point).norm(), d, eps, "edge_point_distance", || format!("{e:?}"));
        }
        if e.edge_parameter == 0.0 || e.edge_parameter == 1.0 {
            c.count("vertex_closest_queries", 1);
        }
    }
}

fn segments(c: &mut Case) {
    let (v, f, kind) = polygon(c);
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let poly = SimplePolygon2d::from_vertices(v.clone());
    let n = v.len();
    for _ in 0..6 {
        let a = query(c, &v, &f);
        let b = match c.rng.below(4) {
            0 => a + V2::new(c.rng.normal(), c.rng.normal()) * f.s * c.rng.logf(1e-3, 0.3),
            // right across the polygon
            1 => P2::from(2.0 * (v[0].coords + v[n / 2].coords) * 0.5 - a.coords) + (v[0] - v[n / 2]) * 0.01,
            _ => query(c, &v, &f),
        };
        c.desc(format!("segment {kind} {v:?} from {a:?} to {b:?}"));
        let far = (a.coords.norm().max(b.coords.norm()) - f.o.norm()).abs() + f.s;
        let margin = 1e4 * (f.eps() + 2e-16 * far);
        if (b - a).norm() < 10.0 * margin {
            continue;
        }
        let (ia, ib) = (inside2(a, &v), inside2(b, &v));
        let (da, db) = (boundary_dist(a, &v), boundary_dist(b, &v));
        let mut crossed = false;
        let mut gap = f64::INFINITY;
        let mut aligned = false;
        for i in 0..n {
            // collinear up to rounding: the crossing parameter is meaningless
            let e = v[(i + 1) % n] - v[i];
            aligned |= cross2(e, b - a).abs() < 1e-9 * e.norm() * (b - a).norm() && cross2(e, a - v[i]).abs() < 1e3 * margin * e.norm();
            let (x, m) = segs(a, b, v[i], v[(i + 1) % n]);
            if x && m > margin {
                crossed = true;
            }
            gap = gap.min(if x { 0.0 } else { m });
        }
        let got = c.no_panic("intersects_segment_panic", || poly.intersects_segment(&LineSegment2d::from_end_points(a, b)));
        let Some(got) = got else { return };
        if crossed || (ia && da > margin) || (ib && db > margin) {
            c.check(got, "segment_missed", || format!("crossed {crossed} inside {ia} {ib} from {a:?} to {b:?}"));
            c.count(if crossed && !ia && !ib { "segments_through" } else { "segments_touching_inside" }, 1);
        } else if gap > margin && !ia && !ib && !aligned {
            c.check(!got, "segment_phantom", || format!("gap {gap} from {a:?} to {b:?}"));
            c.count("segments_outside", 1);
        }
    }
}

fn half_plane(c: &mut Case, v: &[P2], f: &Frame2) -> (P2, V2, HalfPlane<f64>) {
    let n = v.len();
    let i = c.rng.below(n);
    let (p, nrm) = match c.rng.below(5) {
        0 => (f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)), V2::new(c.rng.normal(), c.rng.normal())),
        1 => (v[i], V2::new(c.rng.normal(), c.rng.normal())),
        2 => {
            // along an edge, keeping or dropping the polygon
            let e = v[(i + 1) % n] - v[i];
            (v[i], V2::new(e.y, -e.x) * if c.rng.bool() { 1.0 } else { -1.0 })
        }
        3 => (f.p(c.rng.f(-4.0, 4.0), c.rng.f(-4.0, 4.0)), V2::new(c.rng.normal(), c.rng.normal())),
        _ => {
            let j = c.rng.below(n);
            (P2::from((v[i].coords + v[j].coords) * 0.5), if c.rng.bool() { V2::x() } else { -V2::y() })
        }
    };
    let u = Unit::new_normalize(nrm);
    (p, u.into_inner(), HalfPlane::from_point_and_normal(p, u))
}
/// Signed area of the part of a polygon inside a half plane, by fan triangles and linear vertex values.
fn clipped_area(v: &[P2], p: P2, n: V2) -> f64 {
    let tri = |t: [P2; 3]| {
        let full = 0.5 * cross2(t[1] - t[0], t[2] - t[0]);
        let mut d: Vec<f64> = t.iter().map(|x| n.dot(&(x - p))).collect();
        d.sort_by(f64::total_cmp);
        match d.iter().filter(|x| **x <= 0.0).count() {
            0 => 0.0,
            3 => full,
            1 => full * (d[0] / (d[0] - d[1])) * (d[0] / (d[0] - d[2])),
            _ => full * (1.0 - (d[2] / (d[2] - d[0])) * (d[2] / (d[2] - d[1]))),
        }
    };
    (1..v.len().saturating_sub(1)).map(|i| tri([v[0], v[i], v[i + 1]])).sum()
}

fn convex_polys(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    let n = c.rng.sized(3, 10, 40);
    let v: Vec<P2> = match c.rng.below(4) {
        0 => [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)].iter().map(|(x, y)| f.p(*x, *y)).collect(),
        _ => convex(&mut c.rng, n).into_iter().map(|(x, y)| f.p(x, y)).collect(),
    };
    let n = v.len();
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    c.desc(format!("convex {v:?}"));
    let tol = 64.0 * f.eps() * f.s * 4.0;
    let dist_tol = 256.0 * f.eps();
    let poly = ConvexPolygon::from_vertices(v.clone());
    c.check(poly.num_edges() == n && poly.vertices() == &v[..] && !poly.is_empty() && !poly.is_point() && !poly.is_line_segment(), "counts", || format!("{poly:?}"));
    c.check(poly.edges().map(|(a, b)| (*a, *b)).eq((0..n).map(|i| (v[i], v[(i + 1) % n]))), "edges", || format!("{:?}", poly.edges().collect::<Vec<_>>()));
    let tris = poly.triangulate_into_vec();
    let area = area2(&v);
    c.check(tris.len() == n - 2 && poly.triangulate().count() == n - 2, "triangle_count", || format!("{}", tris.len()));
    let ta: Vec<f64> = tris.iter().map(|t| 0.5 * cross2(t.0[1] - t.0[0], t.0[2] - t.0[0])).collect();
    c.check(ta.iter().all(|a| *a >= -tol), "triangle_orientation", || format!("{ta:?}"));
    c.close(ta.iter().sum(), area, tol, "triangles_tile", || format!("{tris:?}"));
    let sp = SimplePolygon2d::from(poly.clone());
    c.check(sp.vertices() == &v[..], "into_simple", || String::new());
    let cv = sp.assume_convex().triangulate();
    c.check(cv.len() == n - 2, "convex_triangulate", || format!("{}", cv.len()));
    c.close(cv.iter().map(|t| t.signed_area()).sum(), area, tol, "convex_triangulate_area", || String::new());
    c.check(cv.iter().all(|t| t.0.iter().all(|p| v.contains(p))), "convex_triangulate_vertices", || String::new());
    let centre = P2::from(v.iter().fold(V2::zeros(), |s, p| s + p.coords) / n as f64);
    let cp = sp.assume_convex().triangulate_at_point(&centre);
    c.check(cp.len() == n && cp.iter().all(|t| t.0.contains(&centre)), "triangulate_at_point", || format!("{}", cp.len()));
    c.close(cp.iter().map(|t| t.area()).sum(), area, tol, "triangulate_at_point_area", || String::new());
    // containment
    for _ in 0..6 {
        let q = query(c, &v, &f);
        if boundary_dist(q, &v) > 1e3 * f.eps() + 1e-13 * (q - v[0]).norm() {
            let want = inside2(q, &v);
            let got = poly.contains_point(&q);
            c.check(got == want, "contains_point", || format!("{q:?} got {got}"));
            let hp = poly.half_planes().all(|h| h.contains_point(&q));
            c.check(hp == want, "half_planes", || format!("{q:?} got {hp}"));
            c.count(if want { "contained_points" } else { "excluded_points" }, 1);
        }
    }
    // half plane clipping, twice, and both sides
    let (p, nrm, h) = half_plane(c, &v, &f);
    c.desc(format!("convex {v:?} half plane {p:?} {nrm:?}"));
    let Some(r) = c.no_panic("clip_panic", || poly.intersect_halfplane(&h)) else { return };
    let other = poly.intersect_halfplane(&h.complement());
    let want = clipped_area(&v, p, nrm);
    let gap = (p - v[0]).norm() * 1e-15;
    let ct = tol + gap * f.s * 4.0;
    c.close(area2(r.vertices()), want, ct, "clip_area", || format!("{r:?}"));
    c.close(area2(r.vertices()) + area2(other.vertices()), area, 2.0 * ct, "clip_partition", || format!("{r:?} {other:?}"));
    for x in r.vertices() {
        c.check(nrm.dot(&(x - p)) <= dist_tol + gap, "clip_outside_half_plane", || format!("{x:?}"));
        c.check(boundary_dist(*x, &v) <= dist_tol + gap || inside2(*x, &v), "clip_outside_polygon", || format!("{x:?}"));
    }
    for x in &v {
        if nrm.dot(&(x - p)) < -dist_tol - gap {
            c.check(r.vertices().contains(x), "clip_lost_vertex", || format!("{x:?}"));
        }
    }
    c.count("half_plane_clips", 1);
    if want > 0.0 && want < area {
        c.count("proper_clips", 1);
    }
    // a point and a segment as polygons
    let q = query(c, &v, &f);
    let pt = ConvexPolygon::from_vertices(vec![q]).intersect_halfplane(&h);
    let (dq, slack) = (nrm.dot(&(q - p)), dist_tol + 1e-13 * (q - p).norm());
    if dq.abs() > slack {
        c.check(pt.vertices() == if dq < 0.0 { vec![q] } else { vec![] }.as_slice(), "point_clip", || format!("{pt:?}"));
    }
    let seg = LineSegment2d::from_end_points(v[0], q);
    let sc = ConvexPolygon::from(seg).intersect_halfplane(&h);
    let d0 = nrm.dot(&(v[0] - p));
    if (q - v[0]).norm() > 1e4 * f.eps() && dq.abs() > slack && d0.abs() > slack {
        let (a, b) = (v[0], q);
        let x = a + (b - a) * (d0 / (d0 - dq));
        let ends: Vec<P2> = match (d0 < 0.0, dq < 0.0) {
            (true, true) => vec![a, b],
            (false, false) => vec![],
            (true, false) => vec![a, x],
            _ => vec![x, b],
        };
        // cuts of a segment are ill-conditioned when it is nearly parallel to the boundary
        let st = slack * (1.0 + (b - a).norm() / (d0 - dq).abs().max(1e-300)) * 4.0;
        let covers = |s: &[P2], w: &[P2]| w.iter().all(|p| s.iter().any(|z| (z - p).norm() <= st));
        c.check(covers(sc.vertices(), &ends) && covers(&ends, sc.vertices()), "segment_clip", || format!("{sc:?} wanted {ends:?}"));
    }
    let none = ConvexPolygon::<f64>::from_vertices(vec![]);
    c.check(none.intersect_halfplane(&h).is_empty() && none.triangulate_into_vec().is_empty(), "empty_clip", || String::new());
    c.check(!none.contains_point(&q), "empty_contains", || format!("the empty polygon contains {q:?}"));
}

/// Boxes with integer corners, for which every step is exact: overlapping, touching along parts of a side or in a corner,
/// or apart. Every vertex of the intersection is a point of both boxes, and every common corner is a vertex.
fn touching(c: &mut Case) {
    let t = 2f64.powi(c.rng.range(0, 60) as i32 - 30);
    let b: Vec<[f64; 4]> = (0..2)
        .map(|_| {
            let (x, y) = (c.rng.range(0, 6) as f64, c.rng.range(0, 6) as f64);
            [x, y, x + c.rng.range(1, 5) as f64, y + c.rng.range(1, 5) as f64]
        })
        .collect();
    let poly = |c: &mut Case, b: &[f64; 4]| {
        let mut v = vec![P2::new(b[0], b[1]), P2::new(b[2], b[1]), P2::new(b[2], b[3]), P2::new(b[0], b[3])];
        v.rotate_left(c.rng.below(4));
        ConvexPolygon::from_vertices(v.into_iter().map(|p| p * t).collect())
    };
    let (p, q) = (poly(c, &b[0]), poly(c, &b[1]));
    let lo = [b[0][0].max(b[1][0]), b[0][1].max(b[1][1])];
    let hi = [b[0][2].min(b[1][2]), b[0][3].min(b[1][3])];
    c.desc(format!("boxes {b:?} times {t}"));
    c.keyf(&b.concat());
    c.keyf(&[t]);
    let meet = lo[0] <= hi[0] && lo[1] <= hi[1];
    for r in [p.intersect_polygon(&q), q.intersect_polygon(&p)] {
        let inside = |x: &P2| (0..2).all(|k| lo[k] * t <= x[k] && x[k] <= hi[k] * t);
        c.check(r.vertices().iter().all(|x| inside(x)), "box_vertex_outside", || format!("{r:?}"));
        let corners = [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]];
        let missing = corners.iter().any(|k| !r.vertices().iter().any(|x| x.x == k[0] * t && x.y == k[1] * t));
        c.check(!meet || !missing, "box_corner_missing", || format!("{r:?}"));
        c.check(meet || r.is_empty(), "boxes_apart", || format!("{r:?}"));
    }
    c.count(if !meet { "boxes_apart" } else if lo[0] == hi[0] || lo[1] == hi[1] { "boxes_touching" } else { "boxes_overlapping" }, 1);
}

fn intersections(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    if c.rng.chance(0.15) {
        return touching(c);
    }
    let (na, nb) = (c.rng.sized(3, 9, 40), c.rng.sized(3, 9, 40));
    let a: Vec<P2> = convex(&mut c.rng, na).into_iter().map(|(x, y)| f.p(x, y)).collect();
    let (dx, dy, k) = match c.rng.below(5) {
        0 => (0.0, 0.0, 0.3),
        1 => (4.0, 0.0, 1.0),
        2 => (0.0, 0.0, 3.0),
        _ => (c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0), c.rng.f(0.3, 1.5)),
    };
    let b: Vec<P2> = if c.rng.chance(0.1) {
        a.clone()
    } else if c.rng.chance(0.1) {
        // shares an edge with `a`, on the other side or on the same side
        let (p, q) = (a[0], a[1]);
        let n = V2::new((q - p).y, -(q - p).x) * if c.rng.bool() { 1.0 } else { -1.0 };
        let w = vec![p, q, q + n, p + n];
        if area2(&w) > 0.0 { w } else { w.into_iter().rev().collect() }
    } else {
        convex(&mut c.rng, nb).into_iter().map(|(x, y)| f.p(k * x + dx, k * y + dy)).collect()
    };
    c.keyf(&a.iter().chain(&b).flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    c.desc(format!("convex intersection {a:?} and {b:?}"));
    let (pa, pb) = (ConvexPolygon::from_vertices(a.clone()), ConvexPolygon::from_vertices(b.clone()));
    let want = area2(&convex_intersection(&a, &b)).abs();
    let tol = 1e4 * f.eps() * f.s;
    for (r, who) in [(pa.intersect_polygon(&pb), "ab"), (pb.intersect_polygon(&pa), "ba")] {
        let got = area2(r.vertices());
        c.close(got, want, tol, "intersection_area", || format!("{who} {r:?}"));
        for x in r.vertices() {
            for w in [&a, &b] {
                c.check(boundary_dist(*x, w) <= 1e5 * f.eps() || inside2(*x, w), "intersection_vertex", || format!("{who} {x:?}"));
            }
        }
        for _ in 0..4 {
            let first = c.rng.bool();
            let q = query(c, if first { &a } else { &b }, &f);
            let m = 1e6 * f.eps();
            if boundary_dist(q, &a) > m && boundary_dist(q, &b) > m {
                let w = inside2(q, &a) && inside2(q, &b);
                // a sliver result, or one with vertices that coincide up to rounding, has no well-defined half planes
                let k = r.vertices().len();
                let spread = (0..k).map(|i| r.vertices()[i] - r.vertices()[(i + 1) % k]).filter(|e| *e != V2::zeros());
                if (want > 1e-6 * f.s * f.s && spread.clone().all(|e| e.norm() > 1e7 * f.eps())) || k == 0 {
                    c.check(r.contains_point(&q) == w, "intersection_contains", || format!("{who} {q:?} wanted {w}; {r:?}"));
                    c.count("intersection_points", 1);
                }
            }
        }
    }
    c.count("polygon_intersections", 1);
    if want > 0.0 {
        c.count("overlapping_intersections", 1);
    }
    if let [x, y, ..] = b[..] {
        // segment against polygon
        let (s, t) = (x, y + (y - x) * c.rng.f(0.0, 2.0));
        let seg = LineSegment2d::from_end_points(s, t);
        let viap = ConvexPolygon::from(seg.clone()).intersect_polygon(&pa);
        let vias = pa.intersect_polygon(&ConvexPolygon::from(seg.clone()));
        let direct = seg.intersect_polygon(&pa);
        let ends = |p: &ConvexPolygon<f64>| p.vertices().to_vec();
        let d = direct.map(|d| vec![*d.start(), *d.end()]).unwrap_or_default();
        c.check(ends(&viap) == d && ends(&vias) == d, "segment_dispatch", || format!("{viap:?} {vias:?} {d:?}"));
    }
    // conversions
    let tri = Triangle([a[0], a[1], a[2]]);
    c.check(ConvexPolygon::from(tri).vertices() == &a[..3], "from_triangle", || String::new());
    if a.len() >= 4 {
        let quad = Quad2d([a[0], a[1], a[2], a[3]]);
        let strict = (0..4).all(|i| cross2(quad.0[(i + 1) % 4] - quad.0[i], quad.0[(i + 2) % 4] - quad.0[(i + 1) % 4]) > 1e4 * f.eps() * f.s);
        let got = ConvexPolygon::try_from(quad);
        if strict {
            c.check(got.as_ref().map_or(false, |p| p.vertices() == &a[..4]), "from_convex_quad", || format!("{got:?}"));
        }
        let m = P2::from((a[0].coords + a[1].coords + a[2].coords) / 3.0);
        let dart = Quad2d([a[0], a[1], a[2], m + (a[1] - m) * 0.1]);
        let s = area2(&[a[0], a[1], a[2]]);
        if s > 1e6 * f.eps() * f.s {
            c.check(ConvexPolygon::try_from(dart).is_err(), "from_concave_quad", || format!("{dart:?}"));
        }
    }
}

fn space(c: &mut Case) {
    let (v, kind) = simple(&mut c.rng);
    let s = c.rng.logf(1e-3, 1e3);
    let v: Vec<P2> = v.into_iter().map(|(x, y)| P2::new(x, y) * s).collect();
    let rot = UnitQuaternion::from_axis_angle(&Unit::new_normalize(Vector3::from_fn(|_, _| c.rng.normal())), c.rng.f(0.0, 6.0));
    let off = Vector3::from_fn(|_, _| c.rng.f(-2.0, 2.0)) * s * if c.rng.chance(0.2) { 100.0 } else { 1.0 };
    let iso = Isometry3::from_parts(Translation3::from(off), rot);
    let n = v.len();
    let flat = SimplePolygon2d::from_vertices(v.clone());
    let poly = flat.apply_isometry(&iso);
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).chain(off.iter().copied()).collect::<Vec<_>>());
    c.desc(format!("space polygon {kind} {v:?} moved by {iso:?}"));
    let tol = 64.0 * n as f64 * 1e-15 * s * (s + off.norm());
    let area = area2(&v);
    let rm = rot.to_rotation_matrix();
    let normal = rm * Vector3::z();
    for (p, w) in poly.vertices().iter().zip(&v) {
        let e = rm * Vector3::new(w.x, w.y, 0.0) + off - p.coords;
        c.check(e.norm() <= 1e-14 * (s * 3.0 + off.norm()), "isometry", || format!("{p:?} {w:?}"));
    }
    c.check((poly.area_vector() - normal * area).norm() <= tol, "area_vector", || format!("{:?} wanted {:?}", poly.area_vector(), normal * area));
    c.close(poly.area(), area, tol, "space_area", || String::new());
    // half space cutting: the signed area of the part inside
    for _ in 0..2 {
        let i = c.rng.below(n);
        let (p, nn) = match c.rng.below(4) {
            0 => (poly.vertices()[i], Vector3::from_fn(|_, _| c.rng.normal())),
            1 => {
                let e = poly.vertices()[(i + 1) % n] - poly.vertices()[i];
                (poly.vertices()[i], e.cross(&normal) * if c.rng.bool() { 1.0 } else { -1.0 })
            }
            _ => (iso * Point3::new(c.rng.f(-1.0, 1.0) * s, c.rng.f(-1.0, 1.0) * s, c.rng.f(-0.3, 0.3) * s), Vector3::from_fn(|_, _| c.rng.normal())),
        };
        let u = Unit::new_normalize(nn);
        let h = HalfSpace::from_point_and_normal(p, u);
        // the trace of the plane on the polygon plane
        let loc = rm.inverse() * u.into_inner();
        let t = V2::new(loc.x, loc.y);
        let off2 = u.dot(&(p.coords - off));
        if t.norm() < 1e-3 {
            continue;
        }
        let q = P2::from(t * (off2 / t.norm_squared()));
        let want = clipped_area(&v, q, t.normalize());
        let Some(r) = c.no_panic("cut_panic", || poly.intersect_half_space(&h)) else { return };
        let av = r.area_vector();
        c.check((av - normal * want).norm() <= 16.0 * tol / t.norm(), "cut_area", || format!("half space {p:?} {u:?}: {av:?} wanted {:?}", normal * want));
        for x in r.vertices() {
            c.check(u.dot(&(x - p)) <= 1e-13 * (s * 4.0 + off.norm()), "cut_outside", || format!("{x:?} {}", u.dot(&(x - p))));
        }
        for x in poly.vertices() {
            if u.dot(&(x - p)) < -1e-13 * (s * 4.0 + off.norm()) {
                c.check(r.vertices().contains(x), "cut_lost_vertex", || format!("{x:?}"));
            }
        }
        c.count("space_cuts", 1);
        if want > 1e-9 * area && want < area * (1.0 - 1e-9) {
            c.count("proper_space_cuts", 1);
        }
    }
}

pub fn g01(run: &mut Run) {
    run.assumption("containment, sign and crossing verdicts are judged at a distance from the decision boundary of at least 10^3..10^6 times the coordinate rounding");
    run.section("measures", "area, orientation, edges, pseudonormals and boxes of convex, star, monotone, comb and stair polygons at any scale and place", 20000, 600000, measures);
    run.section("distances", "closest edge and signed distance for queries inside, outside, near vertices and edges", 20000, 600000, distances);
    run.section("segments", "segments through, inside, outside and beside polygons", 20000, 600000, segments);
    run.section("convex", "containment, triangulation and half plane clipping of convex polygons, points and segments", 20000, 600000, convex_polys);
    run.section("intersections", "convex polygon pairs: disjoint, overlapping, nested, equal, sharing an edge", 20000, 600000, intersections);
    run.section("space", "planar polygons in space and their cuts by half spaces", 20000, 600000, space);
    run.require("polygons", 1000);
    run.require("inside_queries", 1000);
    run.require("outside_queries", 1000);
    run.require("vertex_closest_queries", 1000);
    run.require("boxes_touching", 500);
    run.require("segments_through", 500);
    run.require("segments_outside", 500);
    run.require("proper_clips", 500);
    run.require("overlapping_intersections", 500);
    run.require("proper_space_cuts", 500);
}

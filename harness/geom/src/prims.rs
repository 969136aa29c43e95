//! G02: lines, segments, triangles, quads, tetrahedra, hexahedra.
use crate::geo::*;
use fenris::geometry::*;
use fenris::nalgebra::{Point3, Unit, Vector3};
use vlib::{Case, Run};

fn pts<const N: usize>(v: &[f64; N]) -> fenris::nalgebra::OPoint<f64, fenris::nalgebra::Const<N>> {
    fenris::nalgebra::OPoint::from(fenris::nalgebra::SVector::<f64, N>::from_fn(|i, _| v[i]))
}
fn coord(c: &mut Case, s: f64, o: f64) -> f64 {
    let x = match c.rng.below(4) {
        0 => c.rng.range(0, 8) as f64 / 4.0 - 1.0,
        _ => c.rng.f(-1.0, 1.0),
    };
    s * (x + o)
}
fn scale(c: &mut Case) -> (f64, f64) {
    let s = if c.rng.chance(0.4) { 1.0 } else { c.rng.logf(1e-5, 1e5) };
    let o = match c.rng.below(4) {
        0 => 1e3,
        1 => 1.0,
        _ => 0.0,
    };
    (s, o)
}

fn lines<const N: usize>(c: &mut Case) {
    let (s, o) = scale(c);
    let mut p = || -> [f64; N] { std::array::from_fn(|_| coord(c, s, o)) };
    let (a, b) = (p(), p());
    let mut q = p();
    let degenerate = c.rng.chance(0.03);
    let b = if degenerate { a } else { b };
    match c.rng.below(5) {
        0 => q = a,
        1 => {
            let t = c.rng.f(-1.0, 2.0);
            q = std::array::from_fn(|i| a[i] + t * (b[i] - a[i]));
        }
        2 => {
            let t = *c.rng.pick(&[0.0, 1.0]);
            let j = c.rng.below(N);
            q = std::array::from_fn(|i| a[i] + t * (b[i] - a[i]) + if i == j { s * 0.3 } else { 0.0 });
        }
        _ => {}
    }
    c.desc(format!("segment {a:?} {b:?} point {q:?}"));
    c.keyf(&[&a[..], &b, &q].concat());
    let (pa, pb, pq) = (pts(&a), pts(&b), pts(&q));
    let len = (pb - pa).norm();
    if !degenerate && len < 1e-3 * s {
        return;
    }
    let eps = 1e-15 * s * (4.0 + 2.0 * o);
    let seg = LineSegment::from_end_points(pa, pb);
    c.check(seg.start() == &pa && seg.end() == &pb && seg.reverse() == LineSegment::from_end_points(pb, pa), "ends", || String::new());
    c.check((seg.tangent_dir() - (pb - pa)).norm() == 0.0, "tangent", || String::new());
    c.close(seg.length(), len, eps, "length", || String::new());
    c.check((seg.midpoint().coords * 2.0 - pa.coords - pb.coords).norm() <= 4.0 * eps, "midpoint", || format!("{:?}", seg.midpoint()));
    for t in [0.0, 1.0, 0.25, -0.5, 3.0] {
        let w = pa + (pb - pa) * t;
        c.check((seg.point_from_parameter(t) - w).norm() <= 8.0 * eps, "point_from_parameter", || format!("{t}"));
        c.check((seg.to_line().point_from_parameter(t) - w).norm() <= 8.0 * eps, "line_point_from_parameter", || format!("{t}"));
    }
    let t = seg.closest_point_parametric(&pq);
    c.check((0.0..=1.0).contains(&t), "parameter_range", || format!("{t}"));
    let x = seg.closest_point(&pq);
    c.check((x - (pa + (pb - pa) * t)).norm() <= 8.0 * eps, "closest_point_parameter", || format!("{t} {x:?}"));
    let d = seg_dist(&q, &a, &b);
    c.close((x - pq).norm(), d, 16.0 * eps, "closest_distance", || format!("{t} {x:?}"));
    // no sampled point is closer
    let best = (0..=16).map(|i| (pa + (pb - pa) * (i as f64 / 16.0) - pq).norm()).fold(f64::INFINITY, f64::min);
    c.check((x - pq).norm() <= best + 16.0 * eps, "closest_beaten", || format!("{best} {x:?}"));
    let r = seg.reverse().closest_point(&pq);
    c.check((r - x).norm() <= 64.0 * eps, "reverse_closest", || format!("{r:?} {x:?}"));
    // the whole line
    let line = Line::from_point_through_point(pa, &pb);
    c.check(line.point() == &pa && (line.dir() - (pb - pa)).norm() == 0.0, "line_through", || String::new());
    let tl = line.project_point_parametric(&pq);
    let xl = line.project_point(&pq);
    if degenerate {
        c.check(tl == 0.0 && xl == pa, "degenerate_line", || format!("{tl} {xl:?}"));
        c.check(x == pa, "degenerate_segment", || format!("{x:?}"));
        c.count("degenerate_segments", 1);
    } else {
        let e = (pq - xl).dot(&(pb - pa)) / len;
        c.check(e.abs() <= 64.0 * eps + 1e-15 * (pq - pa).norm(), "projection_orthogonal", || format!("{e}"));
        c.check((xl - (pa + (pb - pa) * tl)).norm() <= 16.0 * eps * (1.0 + tl.abs()), "projection_parameter", || format!("{tl}"));
        c.check((line.tangent() * len - (pb - pa)).norm() <= 8.0 * eps, "unit_tangent", || format!("{:?}", line.tangent()));
        if (0.0..=1.0).contains(&tl) {
            c.check(t == tl, "segment_line_parameter", || format!("{t} {tl}"));
        }
        c.count(if t > 0.0 && t < 1.0 { "interior_closest" } else { "endpoint_closest" }, 1);
    }
}

/// Segments whose lines meet at parameters that floating point arithmetic gives exactly: small integer directions
/// whose determinant is a power of two, parameters in eighths, so that touching at end points can be judged.
fn meet_exactly(c: &mut Case) {
    let mut i = |n: i64| c.rng.below(2 * n as usize + 1) as i64 - n;
    let (u, w) = loop {
        let (u, w) = ((i(6), i(6)), (i(6), i(6)));
        let det = (u.0 * w.1 - u.1 * w.0).unsigned_abs();
        if det.is_power_of_two() {
            break (u, w);
        }
    };
    let (ax, ay) = (i(50), i(50));
    let s = 2f64.powi(c.rng.below(21) as i32 - 10);
    let mut par = || match c.rng.below(6) {
        0 => 0i64,
        1 => 8,
        2 => c.rng.below(9) as i64,
        3 => *c.rng.pick(&[-1, 9]),
        4 => 4,
        _ => c.rng.below(33) as i64 - 12,
    };
    let (t, r) = (par(), par());
    let f = |x: i64| s * x as f64 / 8.0;
    let p = |x: i64, y: i64| P2::new(f(x), f(y));
    let (a, b) = (p(8 * ax, 8 * ay), p(8 * (ax + u.0), 8 * (ay + u.1)));
    // other segment starts at a + t u - r w
    let (ox, oy) = (8 * ax + t * u.0 - r * w.0, 8 * ay + t * u.1 - r * w.1);
    let (d, e) = (p(ox, oy), p(ox + 8 * w.0, oy + 8 * w.1));
    c.desc(format!("segments {a:?} {b:?} and {d:?} {e:?} meet at {t}/8 and {r}/8"));
    c.keyf(&[a.x, a.y, b.x, b.y, d.x, d.y, e.x, e.y]);
    let (s1, s2) = (LineSegment2d::from_end_points(a, b), LineSegment2d::from_end_points(d, e));
    let (tf, rf) = (t as f64 / 8.0, r as f64 / 8.0);
    let inside = |x: i64| (0..=8).contains(&x);
    let touching = [t, r].iter().any(|x| *x == 0 || *x == 8);
    let near = |g: f64, w: f64| (g - w).abs() <= 1e-13 * (1.0 + w.abs());
    let sp = s1.intersect_segment_parametric(&s2);
    let sq = s2.intersect_segment_parametric(&s1);
    if inside(t) && inside(r) {
        c.check(sp.map_or(false, |g| near(g, tf)), "touching_missed", || format!("{sp:?} wanted {tf}"));
        c.check(sq.map_or(false, |g| near(g, rf)), "touching_missed", || format!("{sq:?} wanted {rf}"));
        c.count(if touching { "touching_segments" } else { "crossing_segments" }, 1);
    } else {
        c.check(sp.is_none() && sq.is_none(), "touching_phantom", || format!("{sp:?} {sq:?}"));
    }
    // half plane whose surface is the second line
    let got = s1.to_line().intersect_line_parametric(&s2.to_line());
    c.check(got.map_or(false, |g| near(g.0, tf) && near(g.1, rf)), "lines_parametric_exact", || format!("{got:?} wanted {tf} {rf}"));
}

fn meet(c: &mut Case) {
    if c.rng.chance(0.3) {
        return meet_exactly(c);
    }
    let f = Frame2::new(&mut c.rng);
    let mut p = || f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0));
    let (a, b, d, e) = (p(), p(), p(), p());
    c.desc(format!("segments {a:?} {b:?} and {d:?} {e:?}"));
    c.keyf(&[a.x, a.y, b.x, b.y, d.x, d.y, e.x, e.y]);
    let (u, w) = (b - a, e - d);
    let cr = cross2(u, w);
    let sin = cr.abs() / (u.norm() * w.norm());
    if u.norm() < 1e-2 * f.s || w.norm() < 1e-2 * f.s || sin < 1e-3 {
        return;
    }
    let (t, r) = (cross2(d - a, w) / cr, cross2(d - a, u) / cr);
    let tol = 64.0 * f.eps() / (sin * u.norm().min(w.norm()));
    let (s1, s2) = (LineSegment2d::from_end_points(a, b), LineSegment2d::from_end_points(d, e));
    let got = s1.to_line().intersect_line_parametric(&s2.to_line());
    c.check(got.map_or(false, |g| (g.0 - t).abs() <= tol * (1.0 + t.abs()) && (g.1 - r).abs() <= tol * (1.0 + r.abs())), "lines_parametric", || format!("{got:?} wanted {t} {r} tol {tol}"));
    let x = s1.to_line().intersect(&s2.to_line());
    c.check(x.map_or(false, |x| (x - (a + u * t)).norm() <= 4.0 * tol * u.norm() * (1.0 + t.abs()) + 8.0 * f.eps()), "lines_point", || format!("{x:?}"));
    let lp = s1.intersect_line_parametric(&s2.to_line());
    c.check(lp == got.map(|g| g.0), "segment_line", || format!("{lp:?}"));
    let sp = s1.intersect_segment_parametric(&s2);
    let m = tol * 4.0;
    let inside = |v: f64| v > m && v < 1.0 - m;
    let outside = |v: f64| v < -m || v > 1.0 + m;
    if inside(t) && inside(r) {
        c.check(sp.map_or(false, |g| (g - t).abs() <= 2.0 * tol), "crossing_missed", || format!("{sp:?} wanted {t}"));
        c.count("crossing_segments", 1);
    } else if outside(t) || outside(r) {
        c.check(sp.is_none(), "crossing_phantom", || format!("{sp:?}: {t} {r}"));
        c.count("separate_segments", 1);
    }
    // normal direction points right of the segment
    let n = s1.normal_dir();
    c.check(n.dot(&u).abs() <= 1e-14 * u.norm_squared() && cross2(u, n) < 0.0 && (n.norm() - u.norm()).abs() <= 1e-14 * u.norm(), "normal_dir", || format!("{n:?}"));
    // exactly parallel lines never meet
    let par = Line2d::from_point_and_dir(P2::new(1.0, 2.0), V2::new(2.0, -4.0));
    let par2 = Line2d::from_point_and_dir(P2::new(1.0, 3.0), V2::new(-1.0, 2.0));
    c.check(par.intersect(&par2).is_none(), "parallel_lines", || String::new());
}

fn disks(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    let a = f.p(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
    let b = f.p(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
    let o = f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0));
    let rad = f.s * c.rng.logf(0.05, 3.0);
    let u = b - a;
    c.desc(format!("segment {a:?} {b:?} disk {o:?} radius {rad}"));
    c.keyf(&[a.x, a.y, b.x, b.y, o.x, o.y, rad]);
    if u.norm() < 1e-2 * f.s {
        return;
    }
    let disk = Disk::from_center_and_radius(o, rad);
    c.check(disk.center() == &o && disk.radius() == rad, "disk", || String::new());
    // exact interval of the line inside the disk
    let h = cross2(u, o - a) / u.norm();
    let m = u.dot(&(o - a)) / u.norm_squared();
    let seg = LineSegment2d::from_end_points(a, b);
    let line = seg.to_line().intersect_disk_parametric(&disk);
    let margin = 1e-9 * f.s + 1e4 * f.eps();
    if h.abs() > rad + margin {
        c.check(line.is_none(), "line_misses_disk", || format!("{line:?}"));
        let si = seg.intersect_disk_parametric(&disk);
        c.check(si.is_none(), "segment_misses_disk_line", || format!("{si:?}"));
        c.count("disk_misses", 1);
    } else if h.abs() < rad - margin {
        let w = (rad * rad - h * h).sqrt() / u.norm();
        let (t1, t2) = (m - w, m + w);
        let tol = (1e-12 * (f.s / u.norm() + m.abs() + w) + 1e3 * f.eps() / u.norm()) * (1.0 + (rad + f.s * 4.0) / (w * u.norm()));
        let ok = line.map_or(false, |l| (l[0] - t1).abs() <= tol && (l[1] - t2).abs() <= tol);
        c.check(ok, "line_disk", || format!("{line:?} wanted {t1} {t2} tol {tol}"));
        let lp = seg.to_line().intersect_disk(&disk);
        let lok = lp.as_ref().map_or(false, |l| (l.start() - (a + u * t1)).norm() <= 2.0 * tol * u.norm() + 1e2 * f.eps() && (l.end() - (a + u * t2)).norm() <= 2.0 * tol * u.norm() + 1e2 * f.eps());
        c.check(lok, "line_disk_points", || format!("{lp:?}"));
        let si = seg.intersect_disk_parametric(&disk);
        let sp = seg.intersect_disk(&disk);
        if t2 < -2.0 * tol || t1 > 1.0 + 2.0 * tol {
            c.check(si.is_none() && sp.is_none(), "segment_misses_disk", || format!("{si:?} for [{t1}, {t2}]"));
            c.count("disk_beside_segment", 1);
        } else if t2 > 2.0 * tol && t1 < 1.0 - 2.0 * tol {
            let (w1, w2) = (t1.clamp(0.0, 1.0), t2.clamp(0.0, 1.0));
            c.check(si.map_or(false, |l| (l[0] - w1).abs() <= tol && (l[1] - w2).abs() <= tol), "segment_disk", || format!("{si:?} wanted {w1} {w2}"));
            let ok = sp.as_ref().map_or(false, |l| (l.start() - (a + u * w1)).norm() <= 2.0 * tol * u.norm() + 1e2 * f.eps() && (l.end() - (a + u * w2)).norm() <= 2.0 * tol * u.norm() + 1e2 * f.eps());
            c.check(ok, "segment_disk_points", || format!("{sp:?}"));
            c.count("disk_hits", 1);
        }
    }
}

fn clips(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    let a = f.p(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
    let b = f.p(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
    let n = c.rng.sized(3, 9, 40);
    let v: Vec<P2> = convex(&mut c.rng, n).into_iter().map(|(x, y)| f.p(x, y)).collect();
    let u = b - a;
    c.desc(format!("segment {a:?} {b:?} polygon {v:?}"));
    c.keyf(&[a.x, a.y, b.x, b.y, v[0].x, v[0].y]);
    if u.norm() < 1e-2 * f.s {
        return;
    }
    let seg = LineSegment2d::from_end_points(a, b);
    // one half plane
    let p = f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0));
    let nn = Unit::new_normalize(V2::new(c.rng.normal(), c.rng.normal()));
    let h = HalfPlane::from_point_and_normal(p, nn);
    let margin = 1e4 * f.eps();
    let (da, db) = (nn.dot(&(a - p)), nn.dot(&(b - p)));
    c.close(h.signed_distance_to_point(&a), da, 8.0 * f.eps(), "half_plane_distance", || String::new());
    c.close(h.complement().signed_distance_to_point(&a), -da, 8.0 * f.eps(), "complement_distance", || String::new());
    c.check(h.point() == &p && h.normal() == &nn.into_inner(), "half_plane_parts", || String::new());
    let sf = h.surface();
    c.check(nn.dot(sf.dir()).abs() < 1e-14 && (sf.dir().norm() - 1.0).abs() < 1e-14 && sf.point() == &p, "surface", || format!("{sf:?}"));
    if da.abs() > margin && db.abs() > margin {
        c.check(h.contains_point(&a) == (da < 0.0), "half_plane_contains", || format!("{da}"));
        let t = da / (da - db);
        let want = match (da < 0.0, db < 0.0) {
            (true, true) => Some((0.0, 1.0)),
            (false, false) => None,
            (true, false) => Some((0.0, t)),
            _ => Some((t, 1.0)),
        };
        let tol = 256.0 * f.eps() * (1.0 / (da - db).abs() + 1.0 / u.norm());
        let got = seg.intersect_half_plane_parametric(&h);
        let ok = match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => (g[0] - w.0).abs() <= tol && (g[1] - w.1).abs() <= tol,
            _ => false,
        };
        c.check(ok, "segment_half_plane", || format!("{got:?} wanted {want:?}"));
        let gp = seg.intersect_half_plane(&h);
        let ok = match (gp.as_ref(), want) {
            (None, None) => true,
            (Some(g), Some(w)) => (g.start() - (a + u * w.0)).norm() <= 2.0 * tol * u.norm() + 64.0 * f.eps() && (g.end() - (a + u * w.1)).norm() <= 2.0 * tol * u.norm() + 64.0 * f.eps(),
            _ => false,
        };
        c.check(ok, "segment_half_plane_points", || format!("{gp:?} wanted {want:?}"));
        c.count("half_plane_clips", 1);
    }
    // the polygon: interval of parameters inside all edges
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    let mut parallel = false;
    for i in 0..n {
        let e = v[(i + 1) % n] - v[i];
        let (x, y) = (-cross2(e, a - v[i]) / e.norm(), -cross2(e, b - v[i]) / e.norm());
        parallel |= (x - y).abs() < 1e-3 * f.s;
        // inside where the value is non-positive
        let t = x / (x - y);
        if x > 0.0 && y > 0.0 {
            hi = -1.0;
        } else if x > 0.0 {
            lo = lo.max(t);
        } else if y > 0.0 {
            hi = hi.min(t);
        }
    }
    if !parallel {
        let poly = ConvexPolygon::from_vertices(v.clone());
        let got = seg.intersect_polygon(&poly);
        let tol = 1e-6 + 1e7 * f.eps() / f.s;
        if hi - lo > tol {
            let ok = got.as_ref().map_or(false, |g| (g.start() - (a + u * lo)).norm() <= 0.1 * tol * f.s && (g.end() - (a + u * hi)).norm() <= 0.1 * tol * f.s);
            c.check(ok, "segment_polygon", || format!("{got:?} wanted [{lo}, {hi}]"));
            c.count("polygon_hits", 1);
        } else if hi - lo < -tol {
            let ok = got.as_ref().map_or(true, |g| g.length() <= 1e4 * f.eps());
            c.check(ok && got.is_none(), "segment_misses_polygon", || format!("{got:?} for [{lo}, {hi}]"));
            c.count("polygon_misses", 1);
        }
    }
}

fn planes(c: &mut Case) {
    let f = Frame3::new(&mut c.rng);
    let mut p = |k: f64| f.p([c.rng.f(-k, k), c.rng.f(-k, k), c.rng.f(-k, k)]);
    let (a, mut b, x) = (p(1.0), p(1.0), p(0.6));
    let lattice = c.rng.chance(0.2);
    let n = if lattice { [Vector3::x(), Vector3::y(), -Vector3::z()][c.rng.below(3)] } else { Vector3::from_fn(|_, _| c.rng.normal()) };
    let n = Unit::new_normalize(n);
    if c.rng.chance(0.1) {
        // parallel to the plane
        b -= n.into_inner() * n.dot(&(b - a));
    }
    if c.rng.chance(0.05) {
        b = a;
    }
    let plane = Plane::from_point_and_normal(x, n);
    c.desc(format!("segment {a:?} {b:?} plane {x:?} {n:?}"));
    c.keyf(&[a.x, a.y, a.z, b.x, b.y, b.z, x.x, x.y, n.x]);
    let (da, db) = (n.dot(&(a - x)), n.dot(&(b - x)));
    let seg = LineSegment3d::from_end_points(a, b);
    let eps = f.eps();
    let t = seg.closest_point_to_plane_parametric(&plane);
    c.check((0.0..=1.0).contains(&t), "plane_parameter_range", || format!("{t}"));
    let best = if da * db <= 0.0 { 0.0 } else { da.abs().min(db.abs()) };
    let got = (da + t * (db - da)).abs();
    c.check(got <= best + 64.0 * eps, "plane_closest", || format!("t {t}: {got} but {best} is attained"));
    let y = seg.closest_point_to_plane(&plane);
    c.check((y - (a + (b - a) * t)).norm() <= 16.0 * eps, "plane_closest_point", || format!("{y:?}"));
    let sp = seg.intersect_plane_parametric(&plane);
    let lp = seg.to_line().intersect_plane_parametric(&plane);
    let m = 1e4 * eps;
    if da.abs() > m && db.abs() > m {
        if da * db < 0.0 {
            let w = da / (da - db);
            let tol = 256.0 * eps / (da - db).abs();
            c.check(sp.map_or(false, |g| (g - w).abs() <= tol) && sp == lp, "plane_crossing", || format!("{sp:?} {lp:?} wanted {w}"));
            c.count("plane_crossings", 1);
        } else {
            c.check(sp.is_none(), "plane_phantom", || format!("{sp:?} {da} {db}"));
            if (da - db).abs() > m {
                let w = da / (da - db);
                c.check(lp.map_or(false, |g| (g - w).abs() <= 256.0 * eps / (da - db).abs() * (1.0 + w.abs())), "plane_line", || format!("{lp:?} wanted {w}"));
            }
            c.count("plane_misses", 1);
        }
    }
    let fl = plane.flipped();
    c.check(fl.point() == &x && fl.normal().into_inner() == -n.into_inner() && plane.normal() == &n, "plane_flipped", || format!("{fl:?}"));
    let [t1, t2] = plane.compute_tangent_vectors();
    let ortho = t1.dot(&n).abs().max(t2.dot(&n).abs()).max(t1.dot(&t2).abs()).max((t1.norm() - 1.0).abs()).max((t2.norm() - 1.0).abs());
    c.check(ortho < 1e-14, "plane_tangents", || format!("{t1:?} {t2:?} {ortho:e}"));
    let hs = HalfSpace::from_plane(&plane);
    c.check(hs.plane() == plane && hs.point() == &x, "half_space_plane", || format!("{hs:?}"));
    c.close(hs.signed_distance_to_point(&a), da, 16.0 * eps, "half_space_distance", || String::new());
}

fn tri_query(c: &mut Case, v: &[P2; 3], f: &Frame2) -> P2 {
    let i = c.rng.below(3);
    let (a, b, d) = (v[i], v[(i + 1) % 3], v[(i + 2) % 3]);
    match c.rng.below(6) {
        0 => {
            let (x, y) = (c.rng.f01(), c.rng.f01());
            let (x, y) = if x + y > 1.0 { (1.0 - x, 1.0 - y) } else { (x, y) };
            a + (b - a) * x + (d - a) * y
        }
        1 => a + V2::new(c.rng.normal(), c.rng.normal()) * f.s * 0.2,
        2 => a + (b - a) * c.rng.f(-1.0, 2.0),
        3 => P2::from((a.coords + b.coords) * 0.5) + V2::new((b - a).y, -(b - a).x) * c.rng.f(-1.0, 1.0),
        _ => f.p(c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0)),
    }
}

fn triangles2(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    let mut v = [f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)), f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)), f.p(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0))];
    if c.rng.chance(0.2) {
        v = [f.p(0.0, 0.0), f.p(1.0, 0.0), f.p(0.0, 1.0)];
    }
    let area = area2(&v);
    if area.abs() < 1e-3 * f.s * f.s {
        return;
    }
    c.desc(format!("triangle {v:?}"));
    c.keyf(&[v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y]);
    let eps = f.eps();
    let t = Triangle(v);
    c.close(t.signed_area(), area, 16.0 * eps * f.s, "signed_area", || String::new());
    c.close(t.area(), area.abs(), 16.0 * eps * f.s, "area", || String::new());
    let ccw = |b: bool| if b { Orientation::Counterclockwise } else { Orientation::Clockwise };
    c.check(t.orientation() == ccw(area > 0.0), "orientation", || format!("{area}"));
    let mut sw = t;
    let (i, j) = *c.rng.pick(&[(0, 1), (1, 2), (0, 2)]);
    sw.swap_vertices(i, j);
    c.check(sw.0[i] == v[j] && sw.0[j] == v[i], "swap", || String::new());
    c.check(sw.orientation() == ccw(area < 0.0), "swapped_orientation", || String::new());
    c.close(sw.signed_area(), -area, 16.0 * eps * f.s, "swapped_area", || String::new());
    let cen = t.centroid();
    c.check((cen.coords * 3.0 - v[0].coords - v[1].coords - v[2].coords).norm() <= 16.0 * eps, "centroid", || format!("{cen:?}"));
    let sides = t.sides();
    for i in 0..3 {
        c.check(sides[i] == v[(i + 1) % 3] - v[i], "sides", || format!("{sides:?}"));
        let e = t.edge(i);
        c.check(e.start() == &v[i] && e.end() == &v[(i + 1) % 3], "edge", || format!("{e:?}"));
    }
    let or = predicates::orient2d_inexact(&v[0], &v[1], &v[2]);
    c.close(or, 2.0 * area, 64.0 * eps * (f.s + f.o.norm()), "orient2d", || String::new());
    let bb = t.bounding_box();
    c.check((0..2).all(|i| bb.min()[i] == v.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && bb.max()[i] == v.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max)), "bounding_box", || format!("{bb:?}"));
    // distances, counter-clockwise
    let w = if area > 0.0 { v } else { [v[0], v[2], v[1]] };
    let t = Triangle(w);
    for _ in 0..5 {
        let q = tri_query(c, &w, &f);
        let d = boundary_dist(q, &w);
        let tol = 64.0 * eps + 1e-15 * d;
        let r = t.query_signed_distance(&q).unwrap();
        c.close(r.signed_distance.abs(), d, tol, "signed_distance_size", || format!("{q:?} {r:?}"));
        c.close((r.point - q).norm(), d, tol, "signed_distance_point", || format!("{q:?} {r:?}"));
        let (a, b) = (w[r.feature_id % 3], w[(r.feature_id + 1) % 3]);
        c.check(r.feature_id < 3 && sd2(r.point, a, b) <= tol, "signed_distance_feature", || format!("{q:?} {r:?}"));
        if d > 1e3 * eps {
            let ins = inside2(q, &w);
            c.check((r.signed_distance < 0.0) == ins, "signed_distance_sign", || format!("{q:?} {r:?} inside {ins}"));
            c.close(t.distance(&q), if ins { 0.0 } else { d }, tol, "triangle_distance", || format!("{q:?}"));
            c.count(if ins { "inside_triangle" } else { "outside_triangle" }, 1);
        }
    }
}

fn quads2(c: &mut Case) {
    let f = Frame2::new(&mut c.rng);
    // around a centre: simple, possibly concave at one corner
    let mut v: Vec<P2> = (0..4)
        .map(|i| {
            let a = std::f64::consts::FRAC_PI_2 * (i as f64 + c.rng.f(-0.3, 0.3));
            let r = if c.rng.chance(0.3) { c.rng.f(0.05, 0.4) } else { c.rng.f(0.6, 1.0) };
            f.p(r * a.cos(), r * a.sin())
        })
        .collect();
    let k = c.rng.below(4);
    v.rotate_left(k);
    let cw = c.rng.chance(0.2);
    if cw {
        v.reverse();
    }
    c.desc(format!("quad {v:?}"));
    c.keyf(&v.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let area = area2(&v);
    let sgn = area.signum();
    let corner = |i: usize| sgn * cross2(v[i] - v[(i + 3) % 4], v[(i + 1) % 4] - v[i]);
    let m = 1e4 * f.eps() * f.s;
    if (0..4).any(|i| corner(i).abs() < m) {
        return;
    }
    let concave: Vec<usize> = (0..4).filter(|i| corner(*i) < 0.0).collect();
    if concave.len() > 1 {
        return; // not simple
    }
    let q = Quad2d([v[0], v[1], v[2], v[3]]);
    c.check(q.concave_corner() == concave.first().copied(), "concave_corner", || format!("{:?} wanted {concave:?}", q.concave_corner()));
    let (t1, t2) = q.split_into_triangles();
    let (c1, c2) = q.split_into_triangle_connectivities();
    c.check((0..3).all(|i| t1.0[i] == v[c1[i]] && t2.0[i] == v[c2[i]]), "split_vertices", || format!("{c1:?} {c2:?}"));
    let (a1, a2) = (area2(&t1.0), area2(&t2.0));
    c.check(a1 * sgn > 0.0 && a2 * sgn > 0.0, "split_orientation", || format!("{a1} {a2}"));
    c.close(a1 + a2, area, 64.0 * f.eps() * f.s, "split_area", || format!("{c1:?} {c2:?}"));
    c.close(q.area(), area.abs(), 64.0 * f.eps() * f.s, "quad_area", || String::new());
    let bb = q.bounding_box();
    c.check((0..2).all(|i| bb.min()[i] == v.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && bb.max()[i] == v.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max)), "quad_box", || format!("{bb:?}"));
    if !cw {
        for _ in 0..4 {
            let x = f.p(c.rng.f(-1.5, 1.5), c.rng.f(-1.5, 1.5));
            let d = boundary_dist(x, &v);
            if d > 1e4 * f.eps() {
                let ins = inside2(x, &v);
                c.close(q.distance(&x), if ins { 0.0 } else { d }, 64.0 * f.eps(), "quad_distance", || format!("{x:?} inside {ins}"));
            }
        }
    }
    c.count(if concave.is_empty() { "convex_quads" } else { "concave_quads" }, 1);
}

fn near(c: &mut Case, p: &[P3], s: f64) -> P3 {
    let i = c.rng.below(p.len());
    let mut w: Vec<f64> = p.iter().map(|_| c.rng.f(0.0, 1.0)).collect();
    let t: f64 = w.iter().sum();
    w.iter_mut().for_each(|x| *x /= t);
    let mix = P3::from(p.iter().zip(&w).fold(Vector3::zeros(), |a, (x, k)| a + x.coords * *k));
    let r = Vector3::from_fn(|_, _| c.rng.normal());
    match c.rng.below(5) {
        0 => mix,
        1 => p[i] + r * s * c.rng.logf(1e-4, 0.3),
        2 => mix + r * s * c.rng.logf(1e-5, 1.0),
        3 => {
            let j = c.rng.below(p.len());
            p[i] + (p[j] - p[i]) * c.rng.f(-0.5, 1.5) + r * s * c.rng.logf(1e-5, 0.3)
        }
        _ => p[i] + r * s * 3.0,
    }
}

fn flat_faces(c: &mut Case) {
    let f = Frame3::new(&mut c.rng);
    let quad = c.rng.bool();
    let n = if quad { 4 } else { 3 };
    let loc: Vec<(f64, f64)> = loop {
        let w = convex(&mut c.rng, n);
        let a = area2(&w.iter().map(|(x, y)| P2::new(*x, *y)).collect::<Vec<_>>());
        if a > 0.05 {
            break w;
        }
    };
    let p: Vec<P3> = loc.iter().map(|(x, y)| f.p([*x, *y, 0.0])).collect();
    let nrm = f.v([0.0, 0.0, 1.0]);
    let area = area2(&loc.iter().map(|(x, y)| P2::new(*x, *y)).collect::<Vec<_>>()) * f.s * f.s;
    c.desc(format!("face {p:?}"));
    c.keyf(&p.iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>());
    let eps = f.eps();
    let tri = Triangle([p[0], p[1], p[2]]);
    let q4 = if quad { Some(Quad3d::from_vertices([p[0], p[1], p[2], p[3]])) } else { None };
    macro_rules! face {
        ($m:ident ( $($a:expr),* )) => {
            match &q4 { Some(q) => q.$m($($a),*), None => ConvexPolygon3d::$m(&tri $(, $a)*) }
        };
    }
    let nv = match &q4 {
        Some(q) => q.num_vertices(),
        None => tri.num_vertices(),
    };
    c.check(nv == n, "face_vertices", || format!("{nv}"));
    for i in 0..n + 1 {
        let g = match &q4 {
            Some(q) => q.get_vertex(i),
            None => tri.get_vertex(i),
        };
        c.check(g == p.get(i).copied(), "face_vertex", || format!("{i} {g:?}"));
    }
    let av = face!(compute_area_vector());
    c.check((av - nrm * area).norm() <= 64.0 * eps * f.s, "area_vector", || format!("{av:?} wanted {:?}", nrm * area));
    let gn = face!(compute_normal());
    c.check((gn - nrm).norm() <= 1e3 * eps / f.s, "normal", || format!("{gn:?} wanted {nrm:?}"));
    if let Some(pl) = face!(compute_plane()) {
        c.check((pl.normal().into_inner() - nrm).norm() <= 1e3 * eps / f.s && p.contains(pl.point()), "plane", || format!("{pl:?}"));
    } else {
        c.fail("plane_missing", "None");
    }
    let hs: Option<HalfSpace<f64>> = face!(compute_half_space());
    let hok = hs.as_ref().map_or(false, |h| (h.normal() + nrm).norm() <= 1e3 * eps / f.s && p.contains(h.point()));
    c.check(hok, "half_space", || format!("{hs:?}"));
    for _ in 0..4 {
        let q = near(c, &p, f.s);
        let mut d = tri_dist(q, p[0], p[1], p[2]);
        if quad {
            d = d.min(tri_dist(q, p[0], p[2], p[3]));
        }
        let r: PolygonClosestPoint<f64, _> = face!(closest_point(&q));
        let tol = 256.0 * eps + 1e-14 * d;
        c.close(r.distance, d, tol, "face_distance", || format!("{q:?} {r:?}"));
        c.close((r.closest_point - q).norm(), d, tol, "face_closest_point", || format!("{q:?} {r:?}"));
        let on = (r.closest_point - p[0]).dot(&nrm).abs();
        c.check(on <= tol + 1e3 * eps, "face_point_off_plane", || format!("{q:?} {r:?} {on:e}"));
        let h = nrm.dot(&(q - p[0]));
        if !quad {
            c.close(tri.distance(&q), d, tol, "triangle3_distance", || format!("{q:?}"));
            if h.abs() > 1e3 * eps + 1e-13 * (q - p[0]).norm() {
                let o = tri.point_orientation(&q);
                c.check(o == if h > 0.0 { OrientationTestResult::Positive } else { OrientationTestResult::Negative }, "point_orientation", || format!("{o:?} {h}"));
            }
            if d > 1e-4 * f.s {
                // solid angle: against recursive subdivision of the triangle
                let sa = tri.compute_solid_angle(&q);
                let want = solid(q, [p[0], p[1], p[2]], 0);
                c.close(sa.abs(), want, 1e-6 + 1e3 * eps / d, "solid_angle", || format!("{q:?}"));
                c.check(want < 1e-6 || (sa < 0.0) == (h > 0.0), "solid_angle_sign", || format!("{sa} {h}"));
                c.count("solid_angles", 1);
                if want > std::f64::consts::PI {
                    c.count("large_solid_angles", 1);
                }
            }
        }
        c.count(if h.abs() < d - 1e3 * eps { "outside_prism" } else { "inside_prism" }, 1);
    }
    if !quad {
        c.close(tri.area(), area, 64.0 * eps * f.s, "triangle3_area", || String::new());
        c.close(tri.signed_area(), area, 64.0 * eps * f.s, "triangle3_signed_area", || String::new());
        c.check((tri.normal_dir() * 0.5 - nrm * area).norm() <= 64.0 * eps * f.s && (tri.normal() - nrm).norm() <= 1e3 * eps / f.s, "triangle3_normal", || format!("{:?}", tri.normal()));
    }
}
/// Unsigned solid angle by the angular excess of the spherical triangle (independent of the arctangent formula).
fn solid(q: P3, t: [P3; 3], depth: u32) -> f64 {
    let [a, b, d] = t.map(|x| (x - q).normalize());
    let big = a.dot(&b) < 0.5 || b.dot(&d) < 0.5 || d.dot(&a) < 0.5;
    if big && depth < 40 {
        // split the edge seen under the largest angle
        let e = [a.dot(&b), b.dot(&d), d.dot(&a)];
        let i = (0..3).min_by(|x, y| e[*x].total_cmp(&e[*y])).unwrap();
        let (x, y, z) = (t[i], t[(i + 1) % 3], t[(i + 2) % 3]);
        // midpoint in angle
        let (dx, dy) = ((x - q).norm(), (y - q).norm());
        let m = x + (y - x) * (dx / (dx + dy));
        return solid(q, [x, m, z], depth + 1) + solid(q, [m, y, z], depth + 1);
    }
    // l'Huilier
    let ang = |u: &Vector3<f64>, v: &Vector3<f64>| u.cross(v).norm().atan2(u.dot(v));
    let (x, y, z) = (ang(&b, &d), ang(&d, &a), ang(&a, &b));
    let s = 0.5 * (x + y + z);
    let g = (s / 2.0).tan() * ((s - x) / 2.0).tan() * ((s - y) / 2.0).tan() * ((s - z) / 2.0).tan();
    4.0 * g.max(0.0).sqrt().atan()
}

fn solids(c: &mut Case) {
    let f = Frame3::new(&mut c.rng);
    let hex = c.rng.bool();
    let (p, tets): (Vec<P3>, Vec<[usize; 4]>) = if hex {
        // affine image of the cube or a frustum, so that all faces are planar
        let k = c.rng.f(0.3, 1.0);
        let m = loop {
            let t = tet(&mut c.rng);
            let m: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| t[j + 1][i] - t[0][i]));
            let det = fenris::nalgebra::Matrix3::from_fn(|i, j| m[i][j]).determinant();
            if det > 0.1 {
                break m;
            }
        };
        let r = [[-1., -1., -1.], [1., -1., -1.], [1., 1., -1.], [-1., 1., -1.], [-1., -1., 1.], [1., -1., 1.], [1., 1., 1.], [-1., 1., 1.]];
        let p = r
            .iter()
            .map(|x: &[f64; 3]| {
                let g = if x[2] > 0.0 { k } else { 1.0 };
                let y = [x[0] * g, x[1] * g, x[2]];
                f.p(std::array::from_fn(|i| (0..3).map(|j| 0.5 * m[i][j] * y[j]).sum()))
            })
            .collect();
        (p, vec![[0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6]])
    } else {
        (tet(&mut c.rng).iter().map(|x| f.p(*x)).collect(), vec![[0, 1, 2, 3]])
    };
    let quads: Vec<Vec<usize>> = if hex {
        vec![vec![0, 3, 2, 1], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7], vec![4, 5, 6, 7]]
    } else {
        vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![2, 0, 3]]
    };
    c.desc(format!("solid {p:?}"));
    c.keyf(&p.iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>());
    let eps = f.eps();
    let vol: f64 = tets.iter().map(|t| tet_vol(&[p[t[0]], p[t[1]], p[t[2]], p[t[3]]])).sum();
    let t4 = Tetrahedron::from_vertices([p[0], p[1], p[2], p[3]]);
    let h8 = hex.then(|| Hexahedron::from_vertices(std::array::from_fn(|i| p[i])));
    let gv = h8.map_or_else(|| t4.compute_volume(), |h| h.compute_volume());
    c.close(gv, vol, 64.0 * eps * f.s * (f.s + f.o.norm()), "volume", || String::new());
    let bb = h8.map_or_else(|| t4.bounding_box(), |h| h.bounding_box());
    c.check((0..3).all(|i| bb.min()[i] == p.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && bb.max()[i] == p.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max)), "solid_box", || format!("{bb:?}"));
    // faces cover the surface, all pointing the same way
    let nf = h8.map_or(t4.num_faces(), |h| h.num_faces());
    c.check(nf == quads.len(), "num_faces", || format!("{nf}"));
    let fv = |i: usize| -> Option<Vec<P3>> {
        match &h8 {
            Some(h) => h.get_face(i).map(|q| (0..q.num_vertices()).map(|k| q.get_vertex(k).unwrap()).collect()),
            None => t4.get_face(i).map(|q| q.0.to_vec()),
        }
    };
    let cen = P3::from(p.iter().fold(Vector3::zeros(), |a, x| a + x.coords) / p.len() as f64);
    let mut seen = vec![];
    for i in 0..nf {
        let Some(v) = fv(i) else {
            c.fail("face_missing", format!("{i}"));
            continue;
        };
        let mut ids: Vec<usize> = v.iter().filter_map(|x| p.iter().position(|y| y == x)).collect();
        let a: Vector3<f64> = (1..v.len() - 1).map(|k| (v[k] - v[0]).cross(&(v[k + 1] - v[0]))).sum();
        c.check(a.dot(&(cen - v[0])) > 0.0, "face_orientation", || format!("face {i} {ids:?} does not point inwards"));
        ids.sort();
        seen.push(ids);
    }
    let mut w: Vec<Vec<usize>> = quads.iter().map(|q| { let mut q = q.clone(); q.sort(); q }).collect();
    w.sort();
    seen.sort();
    c.check(seen == w, "faces", || format!("{seen:?}"));
    c.check(fv(nf).is_none(), "face_range", || String::new());
    // surface triangles, outward
    let surf: Vec<[P3; 3]> = quads.iter().flat_map(|q| (1..q.len() - 1).map(|k| [p[q[0]], p[q[k]], p[q[k + 1]]]).collect::<Vec<_>>()).collect();
    for _ in 0..4 {
        let q = near(c, &p, f.s);
        let d = surf.iter().map(|t| tri_dist(q, t[0], t[1], t[2])).fold(f64::INFINITY, f64::min);
        let inside = surf.iter().all(|t| (t[1] - t[0]).cross(&(t[2] - t[0])).dot(&(q - t[0])) < 0.0);
        let tol = 512.0 * eps + 1e-14 * d;
        c.desc(format!("solid {p:?} query {q:?} inside {inside} distance {d}"));
        let sd = h8.map_or_else(|| t4.compute_signed_distance(&q), |h| h.compute_signed_distance(&q));
        c.close(sd.signed_distance.abs(), d, tol, "solid_distance_size", || format!("{sd:?}"));
        c.close((sd.point - q).norm(), d, tol, "solid_closest_point", || format!("{sd:?}"));
        if d > 1e4 * eps {
            c.check((sd.signed_distance < 0.0) == inside, "solid_distance_sign", || format!("{sd:?}"));
            let cp = h8.map_or_else(|| t4.contains_point(&q), |h| h.contains_point(&q));
            c.check(cp == inside, "solid_contains", || format!("{cp}"));
            let dd = h8.map_or_else(|| t4.distance(&q), |h| h.distance(&q));
            c.close(dd, if inside { 0.0 } else { d }, tol, "solid_distance", || format!("{dd}"));
            if let Some(h) = &h8 {
                c.check(h.query_signed_distance(&q) == Some(sd.clone()), "query_signed_distance", || String::new());
            }
            let face = fv(sd.feature_id).unwrap_or_default();
            if face.len() >= 3 {
                let fd = (1..face.len() - 1).map(|k| tri_dist(q, face[0], face[k], face[k + 1])).fold(f64::INFINITY, f64::min);
                c.close(fd, d, tol, "solid_feature", || format!("{sd:?}"));
            } else {
                c.fail("solid_feature_missing", format!("{sd:?}"));
            }
            // winding number of the surface
            let wn = compute_winding_number_for_triangles_3d(surf.iter().map(|t| Triangle(*t)), &q);
            // seen from inside, outward faces turn clockwise: the library's sign convention is probed below
            if d > 1e-5 * f.s {
                c.close(wn, if inside { 1.0 } else { 0.0 }, 1e-6 + 1e2 * eps / d, "winding_number", || format!("{wn}"));
                c.count("winding_numbers", 1);
            }
            c.count(if inside { "inside_solid" } else { "outside_solid" }, 1);
        }
    }
    if c.index == 0 {
        let r = Tetrahedron::<f64>::reference();
        c.close(r.compute_volume(), 8.0 / 6.0, 1e-14, "reference_tet", || String::new());
        let h = Hexahedron::<f64>::reference();
        c.close(h.compute_volume(), 8.0, 1e-14, "reference_hex", || String::new());
        c.check(h.contains_point(&Point3::new(0.9, -0.9, 0.9)), "reference_hex_contains", || String::new());
        c.close(compute_winding_number_for_triangles_3d(Vec::<Triangle3d<f64>>::new(), &Point3::origin()), 0.0, 0.0, "empty_winding", || String::new());
    }
}

pub fn g02(run: &mut Run) {
    run.assumption("boolean verdicts are judged away from the decision boundary by 10^3..10^7 times the coordinate rounding; intersections of nearly parallel lines are not judged");
    run.section("lines", "closest points and projections for segments and lines in 1 to 3 dimensions, also zero-length", 60000, 2000000, |c| match c.rng.below(3) {
        0 => lines::<1>(c),
        1 => lines::<2>(c),
        _ => lines::<3>(c),
    });
    run.section("meet", "intersections of lines and segments, generic ones and exactly touching ones", 60000, 2000000, meet);
    run.section("disks", "lines and segments against disks: hit, contained, beside, beyond", 60000, 2000000, disks);
    run.section("clips", "segments against half planes and convex polygons", 60000, 2000000, clips);
    run.section("planes", "segments and lines against planes in space, also parallel and zero-length", 60000, 2000000, planes);
    run.section("triangles", "plane triangles: measures and signed distances", 30000, 1000000, triangles2);
    run.section("quads", "convex and concave quadrilaterals: corner, split, area, distance", 30000, 1000000, quads2);
    run.section("faces", "triangles and planar quadrilaterals in space: normals, closest points, solid angles", 20000, 600000, flat_faces);
    run.section("solids", "tetrahedra and hexahedra with planar faces: faces, volume, containment, signed distance, winding number", 20000, 400000, solids);
    for k in ["interior_closest", "endpoint_closest", "crossing_segments", "touching_segments", "separate_segments", "disk_hits", "disk_beside_segment", "disk_misses", "polygon_hits", "polygon_misses", "plane_crossings", "inside_triangle", "outside_triangle", "convex_quads", "concave_quads", "large_solid_angles", "inside_solid", "outside_solid", "winding_numbers"] {
        run.require(k, 500);
    }
}

//! T01: what the property testing strategies generate (and shrink to) has the promised shape.
use fenris::connectivity::Connectivity;
use fenris::element::{Tet4Element, Tri3d2Element, Tri3d3Element};
use fenris::nalgebra::{Point2, Point3, Vector2, Vector3};
use fenris_geometry::proptest as geo;
use fenris_geometry::{Orientation, Quad2d, Triangle2d, Triangle3d};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use vlib::{Case, Run};

const R: f64 = 10.0;

fn runner(seed: &[u8; 32]) -> TestRunner {
    TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, seed))
}

/// Draws values and follows random shrinking paths; `judge` sees every value on the way
fn drive<S: Strategy>(c: &mut Case, name: &str, make: impl Fn() -> S, judge: impl Fn(&mut Case, &S::Value, &str))
where
    S::Value: std::fmt::Debug,
{
    let mut seed = [0u8; 32];
    seed.iter_mut().for_each(|b| *b = c.rng.below(256) as u8);
    let Ok(mut tree) = make().new_tree(&mut runner(&seed)) else {
        c.count("rejected", 1);
        return;
    };
    let first = tree.current();
    c.desc(format!("{name} {first:?}"));
    c.key(format!("{first:?}"));
    judge(c, &first, &format!("{name} generated {first:?}"));
    let again = make().new_tree(&mut runner(&seed)).map(|t| format!("{:?}", t.current()));
    c.check(again.as_ref().ok() == Some(&format!("{first:?}")), "not_reproducible", || format!("{name}: {first:?}, then {again:?} with the same random numbers"));
    let greedy = c.rng.chance(0.4);
    let p = c.rng.f01();
    let mut steps = 0;
    for _ in 0..c.rng.sized(0, 12, 400) {
        let moved = if greedy || c.rng.chance(p) { tree.simplify() } else { tree.complicate() };
        if moved {
            let v = tree.current();
            judge(c, &v, &format!("{name} shrunk to {v:?} from {first:?}"));
            steps += 1;
        } else if greedy {
            break;
        }
    }
    c.count("generated", 1);
    c.count("shrink_steps", steps);
}

fn inside(c: &mut Case, x: &[f64], who: &str) {
    c.check(x.iter().all(|a| (-R..=R).contains(a)), "out_of_range", || who.to_string());
}
fn cross(a: &Vector2<f64>, b: &Vector2<f64>) -> f64 {
    a.x * b.y - a.y * b.x
}
fn area(t: &[Point2<f64>]) -> f64 {
    0.5 * cross(&(t[1] - t[0]), &(t[2] - t[0]))
}
/// rounding error of an area computed from these points
fn slack(t: &[Point2<f64>]) -> f64 {
    let m = t.iter().fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    let d = t.iter().flat_map(|p| t.iter().map(move |q| (p - q).norm())).fold(0.0f64, f64::max);
    1e-14 * (m * d + d * d)
}
/// all corners turn the way of `sign`, up to rounding
fn convex(c: &mut Case, q: &Quad2d<f64>, sign: f64, who: &str) {
    let s = 16.0 * slack(&q.0);
    for i in 0..4 {
        let t = [q.0[i], q.0[(i + 1) % 4], q.0[(i + 2) % 4]];
        c.check(sign * area(&t) >= -s, "not_convex", || format!("corner {}: {who}", (i + 1) % 4));
    }
}

fn plain(c: &mut Case) {
    match c.rng.below(9) {
        0 => drive(c, "point2", || geo::point2(), |c, p, w| inside(c, p.coords.as_slice(), w)),
        1 => drive(c, "point3", || geo::point3(), |c, p, w| inside(c, p.coords.as_slice(), w)),
        2 => drive(c, "vector2", || geo::vector2(), |c, p, w| inside(c, p.as_slice(), w)),
        3 => drive(c, "vector3", || geo::vector3(), |c, p, w| inside(c, p.as_slice(), w)),
        4 => drive(c, "fenris point2", || fenris::proptest::point2(), |c, p, w| inside(c, p.coords.as_slice(), w)),
        5 => drive(c, "fenris point3", || fenris::proptest::point3(), |c, p, w| inside(c, p.coords.as_slice(), w)),
        6 => drive(c, "aabb2", || geo::aabb2(), |c, b, w| {
            inside(c, b.min().coords.as_slice(), w);
            inside(c, b.max().coords.as_slice(), w);
            c.check((0..2).all(|i| b.min()[i] <= b.max()[i]), "inverted_box", || w.to_string());
        }),
        7 => drive(c, "aabb3", || geo::aabb3(), |c, b, w| {
            inside(c, b.min().coords.as_slice(), w);
            inside(c, b.max().coords.as_slice(), w);
            c.check((0..3).all(|i| b.min()[i] <= b.max()[i]), "inverted_box", || w.to_string());
        }),
        _ => drive(c, "half_plane", || geo::half_plane(), |c, h, w| {
            let n = h.normal();
            c.check((n[0] * n[0] + n[1] * n[1] - 1.0).abs() <= 1e-14, "normal_length", || w.to_string());
            inside(c, h.point().coords.as_slice(), w);
        }),
    }
}

fn triangles(c: &mut Case) {
    match c.rng.below(8) {
        k @ (0 | 1) => {
            let o = if k == 0 { Orientation::Clockwise } else { Orientation::Counterclockwise };
            let sign = if k == 0 { -1.0 } else { 1.0 };
            drive(c, "Triangle2d", || any_with::<Triangle2d<f64>>(geo::Triangle2dParams::default().with_orientation(o)), |c, t, w| {
                c.check(sign * area(&t.0) >= -slack(&t.0), "orientation", || w.to_string());
                t.0.iter().for_each(|p| inside(c, p.coords.as_slice(), w));
            })
        }
        2 => drive(c, "Triangle2d default", || any::<Triangle2d<f64>>(), |c, t, w| {
            c.check(area(&t.0) >= -slack(&t.0), "orientation", || w.to_string());
        }),
        3 => drive(c, "Triangle3d", || any::<Triangle3d<f64>>(), |c, t, w| t.0.iter().for_each(|p| inside(c, p.coords.as_slice(), w))),
        4 => drive(c, "triangle", || geo::triangle2d_strategy_f64(), |c, t, w| t.0.iter().for_each(|p| inside(c, p.coords.as_slice(), w))),
        5 => drive(c, "clockwise triangle", || geo::clockwise_triangle2d_strategy_f64(), |c, t, w| {
            c.check(area(&t.0) <= slack(&t.0), "orientation", || w.to_string());
            t.0.iter().for_each(|p| inside(c, p.coords.as_slice(), w));
        }),
        6 => drive(c, "nondegenerate segment", || geo::nondegenerate_line_segment2d_strategy_f64(), |c, s, w| {
            inside(c, s.start().coords.as_slice(), w);
            let d = s.end() - s.start();
            c.check(d.norm() >= 1e-7, "degenerate", || w.to_string());
        }),
        _ => drive(c, "nondegenerate triangle", || geo::nondegenerate_triangle2d_strategy_f64(), |c, t, w| {
            c.check(area(&t.0) > 0.0, "degenerate", || w.to_string());
        }),
    }
}

fn quads(c: &mut Case) {
    match c.rng.below(3) {
        0 => drive(c, "convex quad", || geo::convex_quad2d_strategy_f64(), |c, q, w| {
            convex(c, q, -1.0, w);
        }),
        1 => drive(c, "nondegenerate convex quad", || geo::nondegenerate_convex_quad2d_strategy_f64(), |c, q, w| {
            convex(c, q, 1.0, w);
            c.check(area(&[q.0[0], q.0[1], q.0[3]]) > 0.0, "degenerate", || w.to_string());
        }),
        _ => drive(c, "parallelogram", || geo::parallelogram_strategy_f64(), |c, q, w| {
            let m = q.0.iter().fold(0.0f64, |m, p| m.max(p.coords.amax()));
            let gap = (q.0[1] - q.0[0]) - (q.0[2] - q.0[3]);
            c.check(gap.norm() <= 1e-14 * m, "not_parallel", || w.to_string());
            c.check(area(&[q.0[0], q.0[1], q.0[3]]) > 0.0, "degenerate", || w.to_string());
        }),
    }
}

fn elements(c: &mut Case) {
    match c.rng.below(3) {
        0 => drive(c, "Tri3d2Element", || any::<Tri3d2Element<f64>>(), |c, e, w| {
            c.check(area(e.vertices()) >= -slack(e.vertices()), "orientation", || w.to_string());
            e.vertices().iter().for_each(|p| inside(c, p.coords.as_slice(), w));
        }),
        1 => drive(c, "Tri3d3Element", || any::<Tri3d3Element<f64>>(), |c, e, w| e.vertices().iter().for_each(|p: &Point3<f64>| inside(c, p.coords.as_slice(), w))),
        _ => drive(c, "Tet4Element", || any::<Tet4Element<f64>>(), |c, e, w| {
            let v = e.vertices();
            let (a, b, d): (Vector3<f64>, Vector3<f64>, Vector3<f64>) = (v[1] - v[0], v[2] - v[0], v[3] - v[0]);
            let s = 1e-13 * a.norm() * b.norm() * (d.norm() + 10.0);
            c.check(a.cross(&b).dot(&d) >= -s, "orientation", || w.to_string());
        }),
    }
}

fn meshes(c: &mut Case) {
    let max = c.rng.sized(0, 12, 300);
    let unit = c.rng.logf(1e-3, 1e3);
    drive(c, &format!("uniform mesh with unit {unit} and at most {max} cells"), || fenris::proptest::rectangular_uniform_mesh_strategy(unit, max), |c, m, _| {
        let n = m.connectivity().len();
        c.check(n <= max, "too_many_cells", || format!("{n} cells, at most {max} allowed"));
        let mut total = 0.0;
        for k in m.connectivity() {
            let q: Vec<Point2<f64>> = k.vertex_indices().iter().map(|&i| m.vertices()[i]).collect();
            let a = area(&q[..3]) + area(&[q[0], q[2], q[3]]);
            c.check(a > 0.0, "inverted_cell", || format!("{q:?}"));
            total += a;
        }
        // whole units of area
        let units = total / (unit * unit);
        c.check((units - units.round()).abs() <= 1e-10 * (1.0 + units), "not_whole_units", || format!("{n} cells cover {units} unit squares"));
        c.count("mesh_cells", n as u64);
    });
}

fn t01(run: &mut Run) {
    run.section("basic", "points, vectors, boxes and half planes: ranges, order, unit normals; on random shrinking paths, too; same random numbers, same value", 30000, 600000, plain);
    run.section("triangles", "segments and triangles: orientation as requested, no degenerate ones where excluded; generated values and everything they shrink to", 30000, 600000, triangles);
    run.section("quads", "convex and nondegenerate quadrilaterals, parallelograms; the same", 30000, 600000, quads);
    run.section("elements", "triangle and tetrahedron elements; the same", 20000, 400000, elements);
    run.section("meshes", "uniform rectangular meshes: cell limit, orientation, whole units", 3000, 60000, meshes);
    run.require("generated", 3000);
    run.require("shrink_steps", 10000);
}

fn main() {
    vlib::main_with(&[("T01", t01)])
}

//! P03: the library is run on the same input in single and in double precision and the two runs are compared.
mod out;
mod w32 {
    pub type T = f32;
    include!("work.rs");
}
mod w64 {
    pub type T = f64;
    include!("work.rs");
}
use out::Out;
use vfem::oracle::*;
use vfem::view::*;
use vlib::{Case, Rng, Run};

const EPS: f64 = f32::EPSILON as f64;

fn compare(c: &mut Case, a: &Out, b: &Out, amplify: f64) -> bool {
    for f in a.flags.iter().chain(&b.flags) {
        c.count(f, 1);
    }
    if !a.flags.is_empty() || !b.flags.is_empty() {
        return true;
    }
    if !c.check(a.ints.len() == b.ints.len(), "shape", || format!("{} against {} combinatorial results", a.ints.len(), b.ints.len())) {
        return false;
    }
    for ((n, x), (m, y)) in a.ints.iter().zip(&b.ints) {
        if !c.check(n == m && x == y, n, || format!("{m}: in single precision {:?}, in double precision {:?}", cut(x), cut(y))) {
            return false;
        }
        c.count("lists_compared", 1);
    }
    if !c.check(a.nums.len() == b.nums.len(), "shape", || format!("{} against {} results", a.nums.len(), b.nums.len())) {
        return false;
    }
    for ((n, mult, s1, x), (m, _, s2, y)) in a.nums.iter().zip(&b.nums) {
        if !c.check(n == m && x.len() == y.len(), n, || format!("{m}: {} numbers in single precision, {} in double precision", x.len(), y.len())) {
            return false;
        }
        let mut scale = s1.max(*s2);
        if scale == 0.0 {
            scale = y.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
        }
        let mult = if *mult < 0.0 { -mult * amplify } else { *mult };
        for (i, (x, y)) in x.iter().zip(y).enumerate() {
            let d = (x - y).abs();
            if scale > 0.0 {
                c.track(n, d / (mult * EPS * scale));
            }
            if !c.check(d <= mult * EPS * scale + 1e-30, n, || format!("entry {i}: {x} in single precision, {y} in double precision, scale {scale}")) {
                return false;
            }
        }
        c.count("numbers_compared", x.len() as u64);
    }
    true
}
fn cut(x: &[usize]) -> &[usize] {
    &x[..x.len().min(60)]
}
fn r(x: f64) -> f64 {
    x as f32 as f64
}
fn rv(x: &[f64]) -> Vec<f64> {
    x.iter().map(|&x| r(x)).collect()
}
fn mesh(c: &mut Case, names: &[&'static str], max: usize, affine: bool) -> (KMesh, Shape) {
    let name = *c.rng.pick(names);
    let max = match describe(name).rnodes.len() {
        0..=4 => max,
        5..=10 => max / 2 + 1,
        _ => max / 6 + 1,
    };
    let mut km = kmesh(&mut c.rng, name, max, affine);
    for x in km.v.iter_mut().flatten() {
        *x = r(*x);
    }
    c.key((name, &km.c));
    c.keyf(&km.flat());
    (km, Shape::new(name))
}
/// worst condition of the cells' Jacobians at a few points: shortest height against the largest coordinate
fn condition(km: &KMesh, e: &El) -> f64 {
    let big = km.v.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()));
    let mut worst: f64 = 1.0;
    for i in 0..km.c.len() {
        let k = km.corners(e, i);
        for at in e.rnodes.iter().chain(&[vec![if e.simplex() { -0.5 } else { 0.0 }; e.rd]]) {
            let j = e.jac(&k, at);
            let det = det(&j).abs();
            let n = j.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
            // singular values at least det / n^(d-1)
            let least = det / n.powi(e.rd as i32 - 1);
            worst = worst.max(n / least).max(big / least / 10.0);
        }
    }
    worst
}
fn places(c: &mut Case, km: &KMesh, sh: &Shape, n: usize) -> Vec<(usize, Vec<f64>)> {
    (0..n).map(|_| (c.rng.below(km.c.len()), rv(&sh.e.ref_point(&mut c.rng)))).collect()
}
const ALL: [&str; 10] = ["tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];
const LOW: [&str; 4] = ["tri3", "quad4", "tet4", "hex8"];

fn elements(c: &mut Case) {
    let affine = c.rng.bool();
    let (km, sh) = mesh(c, &ALL, 30, affine);
    let at = places(c, &km, &sh, 6);
    c.desc(format!("{} x {}", km.c.len(), km.name));
    compare(c, &w32::elements(&km, &at), &w64::elements(&km, &at), 100.0);
    c.count(km.name, 1);
}
fn inverse(c: &mut Case) {
    let (km, sh) = mesh(c, &ALL, 30, true);
    let at = places(c, &km, &sh, 4);
    let k = condition(&km, &sh.e);
    c.desc(format!("{} x {}, condition {k:.1e}", km.c.len(), km.name));
    if k > 20.0 {
        return c.trivial();
    }
    compare(c, &w32::inverse(&km, &at, k), &w64::inverse(&km, &at, k), 1.0);
    c.count("inverses", 1);
}
fn meshes(c: &mut Case) {
    let affine = c.rng.bool();
    let (km, _) = mesh(c, &LOW, 60, affine);
    let times = c.rng.range(0, 2);
    let keep: Vec<usize> = (0..km.c.len()).filter(|_| c.rng.bool()).collect();
    c.desc(format!("{} x {}", km.c.len(), km.name));
    compare(c, &w32::meshes(&km, times, &keep), &w64::meshes(&km, times, &keep), 100.0);
}
fn procedural(c: &mut Case) {
    let rng = &mut c.rng;
    let unit = r(rng.logf(0.01, 100.0));
    let n = [rng.range(1, 4), rng.range(1, 4), rng.range(1, 3), rng.range(1, 3)];
    let corner = [r(rng.f(-3.0, 3.0)), r(rng.f(-3.0, 3.0))];
    let cells = rng.range(1, 12);
    c.desc(format!("unit {unit} x {n:?}, corner {corner:?}, {cells} cells"));
    c.key((n, cells));
    c.keyf(&[unit]);
    macro_rules! build {
        ($m:ident) => {
            $m::Proc { unit, x: n[0], y: n[1], z: n[2], per: n[3], corner, cells }
        };
    }
    compare(c, &w32::procedural(&build!(w32)), &w64::procedural(&build!(w64)), 100.0);
}
fn rules(c: &mut Case) {
    c.desc("every rule of the library");
    c.key(c.index);
    compare(c, &w32::rules(), &w64::rules(), 1.0);
}
fn discrete(c: &mut Case) {
    let affine = c.rng.bool();
    let (km, sh) = mesh(c, &ALL, 24, affine);
    let k = condition(&km, &sh.e);
    let d = sh.e.rd;
    let n = km.v.len();
    c.desc(format!("{} x {}, {n} nodes, condition {k:.1e}", km.c.len(), km.name));
    if k > 300.0 {
        return c.trivial();
    }
    let rule = Dom::of(&sh.e).rule(c.rng.range(2, 3));
    let rule = (rv(&rule.0), rule.1.iter().map(|x| rv(x)).collect::<Vec<_>>());
    let least = km
        .c
        .iter()
        .enumerate()
        .map(|(i, _)| det(&sh.e.jac(&km.corners(&sh.e, i), &rule.1[0])).abs().powf(1.0 / d as f64))
        .fold(f64::INFINITY, f64::min);
    let u: Vec<f64> = (0..n).map(|_| r(c.rng.normal())).collect();
    // displacements small against the cells keep the deformation invertible
    let u3: Vec<f64> = (0..n * d).map(|_| r(0.02 * least / k.min(20.0) * c.rng.f(-1.0, 1.0))).collect();
    let force: Vec<f64> = (0..4).map(|_| r(c.rng.normal())).collect();
    let lame = [r(c.rng.logf(0.1, 10.0)), r(c.rng.logf(0.1, 10.0))];
    let density = r(c.rng.logf(0.1, 10.0));
    let par = c.rng.bool();
    let bd = boundary(&sh.e, n, &km.c);
    let fixed: Vec<usize> = (0..n).filter(|&i| bd[i]).collect();
    let solve = fixed.len() < n && k < 100.0;
    macro_rules! p {
        ($m:ident) => {
            $m::Discrete { rule: rule.clone(), u: u.clone(), u3: u3.clone(), force: force.clone(), density, lame, fixed: fixed.clone(), par }
        };
    }
    if compare(c, &w32::discrete(&km, &p!(w32), solve), &w64::discrete(&km, &p!(w64), solve), 20.0 * k) && solve {
        c.count("systems_solved", 1);
    }
    c.count(if par { "parallel" } else { "serial" }, 1);
    c.count(km.name, 1);
}
/// nodes on faces of one cell only
fn boundary(e: &El, n: usize, cells: &[Vec<usize>]) -> Vec<bool> {
    let faces = e.topo.unwrap().faces();
    let mut m = std::collections::BTreeMap::<Vec<usize>, Vec<(usize, usize)>>::new();
    for (i, cell) in cells.iter().enumerate() {
        for (j, f) in faces.iter().enumerate() {
            let mut key: Vec<usize> = f.iter().map(|&k| cell[k]).collect();
            key.sort();
            m.entry(key).or_default().push((i, j));
        }
    }
    let mut out = vec![true; n];
    cells.iter().flatten().for_each(|&k| out[k] = false);
    for l in m.values() {
        if let [(i, j)] = l[..] {
            for (q, w) in e.weights.iter().enumerate() {
                if w.iter().all(|(k, _)| faces[j].contains(k)) {
                    out[cells[i][q]] = true;
                }
            }
        }
    }
    out
}
fn interpolation(c: &mut Case) {
    let (km, sh) = mesh(c, &["tri3", "tet4"], 40, true);
    let k = condition(&km, &sh.e);
    c.desc(format!("{} x {}, condition {k:.1e}", km.c.len(), km.name));
    if k > 300.0 {
        return c.trivial();
    }
    let u: Vec<f64> = (0..2 * km.v.len()).map(|_| r(c.rng.normal())).collect();
    let d = sh.e.rd;
    let pts: Vec<Vec<f64>> = (0..8)
        .map(|_| {
            let i = c.rng.below(km.c.len());
            let mut w: Vec<f64> = (0..=d).map(|_| 0.1 + c.rng.f01()).collect();
            let s: f64 = w.iter().sum();
            w.iter_mut().for_each(|x| *x /= s);
            let k = km.corners(&sh.e, i);
            (0..d).map(|a| r((0..=d).map(|j| w[j] * k[j][a]).sum())).collect()
        })
        .collect();
    compare(c, &w32::interpolation(&km, &u, &pts), &w64::interpolation(&km, &u, &pts), 50.0 * k);
}
fn geometry(c: &mut Case) {
    let rng = &mut c.rng;
    let s = rng.logf(0.1, 10.0);
    let pts = |rng: &mut Rng, n: usize, d: usize| -> Vec<Vec<f64>> { (0..n).map(|_| (0..d).map(|_| r(s * rng.f(-1.0, 1.0))).collect()).collect() };
    let convex = |rng: &mut Rng, n: usize, s: f64| -> Vec<Vec<f64>> {
        let o = [s * rng.f(-0.3, 0.3), s * rng.f(-0.3, 0.3)];
        let ph = rng.f(0.0, 6.0);
        (0..n)
            .map(|i| {
                let a = ph + (i as f64 + rng.f(-0.2, 0.2)) / n as f64 * std::f64::consts::TAU;
                vec![r(o[0] + s * a.cos()), r(o[1] + s * a.sin())]
            })
            .collect()
    };
    let (tri, tet) = (pts(rng, 3, 2), pts(rng, 4, 3));
    let quad = convex(rng, 4, s);
    let mut hex: Vec<Vec<f64>> = describe("hex8").rcorners.clone();
    for x in hex.iter_mut().flatten() {
        *x = r(s * (*x + rng.f(-0.2, 0.2)));
    }
    let (n1, n2) = (rng.range(3, 9), rng.range(3, 9));
    let (poly, poly2) = (convex(rng, n1, s), convex(rng, n2, s));
    let (p2, p3, q3) = (pts(rng, 1, 2).remove(0), pts(rng, 1, 3).remove(0), pts(rng, 1, 3).remove(0));
    let n3: Vec<f64> = (0..3).map(|_| r(rng.normal())).collect();
    c.desc(format!("tri {tri:?} tet {tet:?} poly {poly:?} p {p2:?}"));
    c.keyf(&tri.concat());
    // decisions that rounding may turn are not compared: degenerate bodies, points next to boundaries
    let e = describe("tet4");
    let det3 = det(&e.jac(&tet, &[0.0; 3])).abs();
    let det2 = det(&describe("tri3").jac(&tri, &[0.0; 2])).abs();
    if det3 < 1e-2 * s.powi(3) || det2 < 1e-2 * s * s {
        return c.trivial();
    }
    let near = (0..poly.len()).any(|i| {
        let (a, b) = (&poly[i], &poly[(i + 1) % poly.len()]);
        let cr = (b[0] - a[0]) * (p2[1] - a[1]) - (b[1] - a[1]) * (p2[0] - a[0]);
        cr.abs() < 1e-3 * s * s
    });
    if near || n3.iter().map(|x| x * x).sum::<f64>() < 0.01 {
        return c.trivial();
    }
    macro_rules! g {
        ($m:ident) => {
            $m::Geo {
                tri: tri.clone(),
                quad: quad.clone(),
                tet: tet.clone(),
                hex: hex.clone(),
                poly: poly.clone(),
                poly2: poly2.clone(),
                p2: p2.clone(),
                p3: p3.clone(),
                q3: q3.clone(),
                n3: n3.clone(),
            }
        };
    }
    compare(c, &w32::geometry(&g!(w32)), &w64::geometry(&g!(w64)), 300.0);
}
fn nonlinear(c: &mut Case) {
    let n = c.rng.range(1, 8);
    // diagonally dominant
    let mut a: Vec<f64> = (0..n * n).map(|_| r(c.rng.f(-1.0, 1.0) / n as f64)).collect();
    for i in 0..n {
        a[i * n + i] = r(c.rng.f(1.5, 3.0));
    }
    let root: Vec<f64> = (0..n).map(|_| r(c.rng.normal())).collect();
    let start: Vec<f64> = (0..n).map(|_| r(c.rng.f(-2.0, 2.0))).collect();
    let (e, line) = (r(c.rng.f(0.0, 0.5)), c.rng.bool());
    c.desc(format!("{n} unknowns, a {a:?} root {root:?} start {start:?} e {e} line {line}"));
    c.keyf(&a);
    macro_rules! p {
        ($m:ident) => {
            $m::Nl { a: a.clone(), root: root.clone(), start: start.clone(), e, line }
        };
    }
    compare(c, &w32::nonlinear(&p!(w32)), &w64::nonlinear(&p!(w64)), 400.0);
}

pub fn p03(r: &mut Run) {
    r.section("rules", "Every quadrature rule (strengths and sizes below 12) in both precisions.", 1, 1, rules);
    r.section("elements", "Basis functions, gradients, maps, Jacobians, diameters, bounds and canonical rules of every kind on random meshes.", 300, 10000, elements);
    r.section("inverse", "Points mapped to physical space and back, and projected.", 200, 6000, inverse);
    r.section("meshes", "Conversion, refinement, selection, boundaries, surfaces, reordering, coloring of random meshes: equal combinatorics.", 300, 10000, meshes);
    r.section("procedural", "Procedural meshes.", 200, 6000, procedural);
    r.section("discrete", "Serial and parallel assembly of Laplace, mass, source and elastic (linear, StVK, neo-Hookean) terms, error norms, constrained systems solved by conjugate gradients.", 300, 10000, discrete);
    r.section("interpolation", "Spatially indexed and fixed interpolation of values and gradients.", 300, 10000, interpolation);
    r.section("geometry", "Boxes, triangles, quads, polyhedra, lines, planes, polygons and their intersections.", 500, 20000, geometry);
    r.section("nonlinear", "Newton with and without line search, difference quotients.", 300, 10000, nonlinear);
    r.require("numbers_compared", 100000);
    r.require("lists_compared", 3000);
    r.require("systems_solved", 30);
    r.require("inverses", 80);
    r.assumption("nalgebra computes equally well in both precisions.");
}
fn main() {
    vlib::main_with(&[("P03", p03)])
}

use fenris::geometry::sdf::*;
use fenris::geometry::*;
use fenris::mesh::procedural::*;
use fenris::nalgebra::{Point2, Vector2, U2};
use vfem::*;
use vlib::{Case, Run};

/// Valid discretization of the box lo..hi: extents, measure, orientation, conformity, boundary on the box
fn check_box(c: &mut Case, p: &Plain, topo: Topo, lo: &[f64], hi: &[f64], cells: usize, vertices: usize, name: &str) {
    if cells == 0 {
        c.check(p.v.is_empty() && p.c.is_empty(), "empty", || format!("{name}: {} vertices, {} cells for zero cells", p.v.len(), p.c.len()));
        c.count("empty_meshes", 1);
        return;
    }
    if !c.check(p.c.len() == cells && p.v.len() == vertices, "counts", || format!("{name}: {} cells, {} vertices; expected {cells}, {vertices}", p.c.len(), p.v.len())) {
        return;
    }
    let d = lo.len();
    let scale = p.scale().max(hi.iter().zip(lo).map(|(a, b)| a - b).fold(0.0, f64::max));
    let tol = 1e-12 * scale;
    for k in 0..d {
        let a = p.v.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min);
        let b = p.v.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max);
        c.close(a, lo[k], tol, "extent", || format!("{name}: lower bound, axis {k}"));
        c.close(b, hi[k], tol, "extent", || format!("{name}: upper bound, axis {k}"));
    }
    let want: f64 = (0..d).map(|k| hi[k] - lo[k]).product();
    let rel = 1e-11 * (1.0 + scale / (0..d).map(|k| hi[k] - lo[k]).fold(f64::INFINITY, f64::min) * 10.0);
    c.close(p.measure(topo), want, rel * want, "measure", || name.to_string());
    let each = want / cells as f64;
    let mut worst = (f64::INFINITY, 0);
    for i in 0..p.c.len() {
        let m = p.cell_measure(topo, i);
        if m < worst.0 {
            worst = (m, i);
        }
    }
    c.check(worst.0 > 0.2 * each, "cell_measure", || format!("{name}: cell {} has measure {:e}, average is {each:e}", worst.1, worst.0));
    c.check(p.used().iter().all(|x| *x), "unused", || name.to_string());
    let dup = p.duplicates(1e-9 * scale.min(want.powf(1.0 / d as f64) / (cells as f64)));
    c.check(dup.is_none(), "duplicate_vertices", || format!("{name}: {dup:?}"));
    let conf = p.conforming(topo);
    c.check(conf.is_ok(), "conforming", || conf.clone().unwrap_err());
    // boundary faces lie on the boundary of the box
    for (f, cs) in p.faces(topo) {
        if cs.len() == 1 {
            let on = (0..d).any(|k| f.iter().all(|&v| (p.v[v][k] - lo[k]).abs() <= tol) || f.iter().all(|&v| (p.v[v][k] - hi[k]).abs() <= tol));
            if !c.check(on, "hole", || format!("{name}: face {f:?} belongs to one cell but is not on the boundary")) {
                return;
            }
        }
    }
    c.count("cells_judged", cells as u64);
}

/// union of discs and boxes with our own level set
struct Shape {
    discs: Vec<([f64; 2], f64)>,
    halfspace: Option<([f64; 2], f64)>,
    lo: [f64; 2],
    hi: [f64; 2],
}
impl Shape {
    fn phi(&self, x: [f64; 2]) -> f64 {
        let mut v = self.discs.iter().map(|(c, r)| norm2(sub2(x, *c)) - r).fold(f64::INFINITY, f64::min);
        if let Some((n, d)) = self.halfspace {
            v = v.max(dot2(n, x) - d);
        }
        v
    }
}
impl BoundedGeometry<f64> for Shape {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        AxisAlignedBoundingBox2d::new(p2(&self.lo), p2(&self.hi))
    }
}
impl SignedDistanceFunction2d<f64> for Shape {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        self.phi([x.x, x.y])
    }
    fn gradient(&self, x: &Point2<f64>) -> Option<Vector2<f64>> {
        let x = [x.x, x.y];
        let mut best = (f64::INFINITY, [0.0; 2]);
        for (c, r) in &self.discs {
            let d = sub2(x, *c);
            let v = norm2(d) - r;
            if v < best.0 {
                best = (v, [d[0] / norm2(d), d[1] / norm2(d)]);
            }
        }
        if let Some((n, d)) = self.halfspace {
            if dot2(n, x) - d > best.0 {
                best.1 = n;
            }
        }
        Some(Vector2::new(best.1[0], best.1[1]))
    }
}

fn grid_check(c: &mut Case, p: &Plain, lo: [f64; 2], hi: [f64; 2], max: f64) -> bool {
    // a grid of equal square cells, not larger than max, that covers the bounds
    if !c.check(!p.c.is_empty(), "voxel_empty", || "no cells".into()) {
        return false;
    }
    let first = &p.c[0];
    let h = p.v[first[1]][0] - p.v[first[0]][0];
    let tol = 1e-10 * p.scale();
    c.check(h > 0.0 && h <= max * (1.0 + 1e-10), "cell_size", || format!("cell size {h:e}, at most {max:e} requested"));
    for q in &p.c {
        let (a, b, d, e) = (&p.v[q[0]], &p.v[q[1]], &p.v[q[2]], &p.v[q[3]]);
        let ok = (b[0] - a[0] - h).abs() <= tol && (b[1] - a[1]).abs() <= tol && (d[0] - b[0]).abs() <= tol && (d[1] - b[1] - h).abs() <= tol && (e[0] - a[0]).abs() <= tol && (e[1] - d[1]).abs() <= tol;
        if !c.check(ok, "square_cells", || format!("cell {:?}, size {h}", [a, b, d, e])) {
            return false;
        }
    }
    let ext = |k: usize| (p.v.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min), p.v.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max));
    for k in 0..2 {
        let (a, b) = ext(k);
        c.check(a <= lo[k] && b >= hi[k], "cover", || format!("axis {k}: grid {a}..{b} does not cover {}..{}", lo[k], hi[k]));
        // no more than the padding and one cell beyond
        let pad = 0.02 * (hi[k] - lo[k]) + h;
        c.check(b - a <= (hi[k] - lo[k]) + 2.0 * pad + tol, "oversized", || format!("axis {k}: grid {a}..{b} for {}..{}", lo[k], hi[k]));
    }
    let (x, y) = (ext(0), ext(1));
    c.close(p.measure(Topo::Quad), (x.1 - x.0) * (y.1 - y.0), 1e-9 * p.scale().powi(2), "voxel_measure", || String::new());
    let conf = p.conforming(Topo::Quad);
    c.check(conf.is_ok(), "voxel_conforming", || conf.unwrap_err());
    c.count("voxel_cells", p.c.len() as u64);
    true
}

fn sorted_cells(p: &Plain, keep: impl Fn(&[Vec<f64>]) -> bool) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = p.c.iter().filter_map(|q| {
        let pts: Vec<Vec<f64>> = q.iter().map(|&i| p.v[i].clone()).collect();
        keep(&pts).then(|| pts.iter().flatten().map(|x| x.to_bits()).collect())
    }).collect();
    out.sort();
    out
}

pub fn m06(run: &mut Run) {
    run.section("rectangles", "rectangular quadrilateral meshes and unit squares of quadrilaterals and triangles: 0..7 units and cells per unit in each direction, lengths over 6 decades, any corner", 7200, 240000, |c| {
        let z = |c: &mut Case, hi| if c.rng.chance(0.06) { 0 } else { c.rng.range(1, hi) };
        if c.rng.chance(0.25) {
            let n = z(c, 14);
            c.key(("unit", n));
            let q = plain(&create_unit_square_uniform_quad_mesh_2d::<f64>(n));
            check_box(c, &q, Topo::Quad, &[0.0; 2], &[1.0; 2], n * n, (n + 1) * (n + 1), "unit square quads");
            let t = plain(&create_unit_square_uniform_tri_mesh_2d::<f64>(n));
            check_box(c, &t, Topo::Tri, &[0.0; 2], &[1.0; 2], 2 * n * n, (n + 1) * (n + 1), "unit square triangles");
            return;
        }
        let (ux, uy, n) = (z(c, 7), z(c, 7), z(c, 5));
        let u = c.rng.logf(1e-3, 1e3);
        let tl = [c.rng.f(-10.0, 10.0) * u, c.rng.f(-10.0, 10.0) * u];
        c.key((ux, uy, n));
        c.keyf(&[u, tl[0], tl[1]]);
        let p = plain(&create_rectangular_uniform_quad_mesh_2d(u, ux, uy, n, &Vector2::new(tl[0], tl[1])));
        let cells = ux * uy * n * n;
        check_box(c, &p, Topo::Quad, &[tl[0], tl[1] - uy as f64 * u], &[tl[0] + ux as f64 * u, tl[1]], cells, (ux * n + 1) * (uy * n + 1), &format!("rectangle {ux}x{uy}x{n} unit {u}"));
        let t = plain(&create_rectangular_uniform_quad_mesh_2d(u, ux, uy, n, &Vector2::new(tl[0], tl[1])).split_into_triangles());
        check_box(c, &t, Topo::Tri, &[tl[0], tl[1] - uy as f64 * u], &[tl[0] + ux as f64 * u, tl[1]], 2 * cells, (ux * n + 1) * (uy * n + 1), "split rectangle");
    });
    run.section("boxes", "hexahedral and tetrahedral (body-centered) meshes of boxes: 0..5 units per direction, all parities, lengths over 6 decades", 4800, 160000, |c| {
        let z = |c: &mut Case, hi| if c.rng.chance(0.06) { 0 } else { c.rng.range(1, hi) };
        let unit = c.rng.chance(0.2);
        let (ux, uy, uz, n) = if unit { (1, 1, 1, z(c, 5)) } else { (z(c, 4), z(c, 4), z(c, 4), z(c, 2)) };
        let u = if unit { 1.0 } else { c.rng.logf(1e-3, 1e3) };
        c.key((ux, uy, uz, n));
        c.keyf(&[u]);
        let hi = [ux as f64 * u, uy as f64 * u, uz as f64 * u];
        let (cx, cy, cz) = (ux * n, uy * n, uz * n);
        let verts = (cx + 1) * (cy + 1) * (cz + 1);
        let name = format!("box {ux}x{uy}x{uz}x{n} unit {u}");
        let h = plain(&if unit { create_unit_box_uniform_hex_mesh_3d::<f64>(n) } else { create_rectangular_uniform_hex_mesh(u, ux, uy, uz, n) });
        check_box(c, &h, Topo::Hex, &[0.0; 3], &hi, cx * cy * cz, verts, &format!("hex {name}"));
        let t = plain(&if unit { create_unit_box_uniform_tet_mesh_3d::<f64>(n) } else { create_rectangular_uniform_tet_mesh(u, ux, uy, uz, n) });
        // 4 tetrahedra per inner face, 2 per boundary face
        let (inner, bound) = if cx * cy * cz == 0 { (0, 0) } else {
            ((cx - 1) * cy * cz + cx * (cy - 1) * cz + cx * cy * (cz - 1), 2 * (cx * cy + cy * cz + cx * cz))
        };
        check_box(c, &t, Topo::Tet, &[0.0; 3], &hi, 4 * inner + 2 * bound, verts + cx * cy * cz, &format!("tet {name}"));
    });
    run.section("fine", "finely resolved meshes: up to 90 000 cells, more than 64 / 256 cells or units in one direction, all generators", 60, 2000, |c| {
        let n = *c.rng.pick(&[17usize, 33, 65, 70, 130, 260]) + c.rng.below(3);
        let u = c.rng.logf(1e-2, 1e2);
        let kind = c.rng.below(6);
        c.key((kind, n));
        c.keyf(&[u]);
        c.desc(format!("kind {kind} n {n} unit {u}"));
        match kind {
            0 => check_box(c, &plain(&create_unit_square_uniform_quad_mesh_2d::<f64>(n)), Topo::Quad, &[0.0; 2], &[1.0; 2], n * n, (n + 1) * (n + 1), "unit square quads"),
            1 => check_box(c, &plain(&create_unit_square_uniform_tri_mesh_2d::<f64>(n)), Topo::Tri, &[0.0; 2], &[1.0; 2], 2 * n * n, (n + 1) * (n + 1), "unit square triangles"),
            2 | 3 => {
                let (mut ux, mut uy, mut k) = (n, c.rng.range(1, 20), c.rng.range(1, 3));
                if c.rng.chance(0.3) { std::mem::swap(&mut ux, &mut k); ux = ux.min(3); uy = uy.min(3); }
                if c.rng.bool() { std::mem::swap(&mut ux, &mut uy); }
                let p = plain(&create_rectangular_uniform_quad_mesh_2d(u, ux, uy, k, &Vector2::new(1.0, -2.0)));
                check_box(c, &p, Topo::Quad, &[1.0, -2.0 - uy as f64 * u], &[1.0 + ux as f64 * u, -2.0], ux * uy * k * k, (ux * k + 1) * (uy * k + 1), &format!("rectangle {ux}x{uy}x{k} unit {u}"));
            }
            _ => {
                let mut d = [n, c.rng.range(1, 6), c.rng.range(1, 6)];
                c.rng.shuffle(&mut d);
                let k = if n < 40 { c.rng.range(1, 2) } else { 1 };
                let hi = [d[0] as f64 * u, d[1] as f64 * u, d[2] as f64 * u];
                let [cx, cy, cz] = [d[0] * k, d[1] * k, d[2] * k];
                let verts = (cx + 1) * (cy + 1) * (cz + 1);
                let name = format!("box {d:?}x{k} unit {u}");
                if kind == 4 {
                    check_box(c, &plain(&create_rectangular_uniform_hex_mesh(u, d[0], d[1], d[2], k)), Topo::Hex, &[0.0; 3], &hi, cx * cy * cz, verts, &name);
                } else {
                    let (inner, bound) = ((cx - 1) * cy * cz + cx * (cy - 1) * cz + cx * cy * (cz - 1), 2 * (cx * cy + cy * cz + cx * cz));
                    check_box(c, &plain(&create_rectangular_uniform_tet_mesh(u, d[0], d[1], d[2], k)), Topo::Tet, &[0.0; 3], &hi, 4 * inner + 2 * bound, verts + cx * cy * cz, &name);
                }
            }
        }
        c.count("fine_meshes", 1);
    });
    run.require("fine_meshes", 40);
    run.section("voxelized_bounds", "bounding boxes of aspect ratio up to 40 and maximum cell sizes from 1/40 to 3 times the smaller extent: square cells within the size, covering the bounds without excess", 7200, 400000, |c| {
        let s = c.rng.logf(1e-2, 1e2);
        let asp = c.rng.logf(1.0, 40.0);
        let mut e = [s, s * asp];
        if c.rng.bool() {
            e.swap(0, 1);
        }
        let lo = [c.rng.f(-3.0, 3.0) * s, c.rng.f(-3.0, 3.0) * s];
        let hi = [lo[0] + e[0], lo[1] + e[1]];
        let max = if c.rng.chance(0.3) { s * 1.02 / c.rng.range(1, 20) as f64 } else { s * c.rng.logf(1.0 / 25.0, 3.0) };
        c.keyf(&[lo[0], lo[1], hi[0], hi[1], max]);
        let p = plain(&voxelize_bounding_box_2d(&AxisAlignedBoundingBox2d::new(p2(&lo), p2(&hi)), max));
        grid_check(c, &p, lo, hi, max);
    });
    run.section("voxelized_shapes", "level sets (unions of discs, cut by half planes, the library's circles, boxes and unions): voxelization keeps exactly the grid cells with a corner in the shape; surface approximation keeps these cells and moves exactly the outside vertices along the gradient onto the surface", 4800, 200000, |c| {
        let s = c.rng.logf(1e-2, 1e2);
        let k = c.rng.range(1, 3);
        let mut sh = Shape { discs: vec![], halfspace: None, lo: [f64::INFINITY; 2], hi: [f64::NEG_INFINITY; 2] };
        for _ in 0..k {
            let (ctr, r) = ([c.rng.f(-1.0, 1.0) * s, c.rng.f(-1.0, 1.0) * s], c.rng.f(0.3, 1.0) * s);
            for d in 0..2 {
                sh.lo[d] = sh.lo[d].min(ctr[d] - r);
                sh.hi[d] = sh.hi[d].max(ctr[d] + r);
            }
            sh.discs.push((ctr, r));
        }
        if c.rng.chance(0.3) {
            let a = c.rng.f(0.0, 6.3);
            sh.halfspace = Some(([a.cos(), a.sin()], c.rng.f(-0.1, 0.5) * s));
        }
        let max = s * c.rng.logf(0.05, 0.6);
        c.keyf(&[sh.lo[0], sh.lo[1], sh.hi[0], sh.hi[1], max, sh.phi([0.0, 0.0])]);
        let bounds = sh.bounding_box();
        let grid = plain(&voxelize_bounding_box_2d(&bounds, max));
        if !grid_check(c, &grid, sh.lo, sh.hi, max) {
            return;
        }
        let inside = |pts: &[Vec<f64>]| pts.iter().any(|p| sh.phi([p[0], p[1]]) <= 0.0);
        let want = sorted_cells(&grid, inside);
        let vox = plain(&voxelize_sdf_2d(&sh, max));
        c.check(sorted_cells(&vox, |_| true) == want, "voxel_selection", || format!("{} cells, expected {}", vox.c.len(), want.len()));
        c.check(vox.used().iter().all(|x| *x), "voxel_unused", || String::new());
        // projection
        let approx = plain(&approximate_quad_mesh_for_sdf_2d(&sh, max));
        let project = |c: &mut Case, before: &Plain, after: &Plain, what: &str| {
            if !c.check(after.c == before.c && after.v.len() == before.v.len(), "approx_cells", || format!("{what}: cells changed")) {
                return;
            }
            for (p, q) in before.v.iter().zip(&after.v) {
                let x = p2(&[p[0], p[1]]);
                let phi = sh.eval(&x);
                let w = if phi > 0.0 { x - sh.gradient(&x).unwrap() * phi } else { x };
                if !c.check((w.x - q[0]).abs() <= 1e-12 * s && (w.y - q[1]).abs() <= 1e-12 * s, "approx_vertex", || format!("{what}: {p:?} (level {phi:e}) became {q:?}, expected {w:?}")) {
                    return;
                }
                c.count(if phi > 0.0 { "projected_vertices" } else { "inner_vertices" }, 1);
            }
        };
        project(c, &vox, &approx, "quadrilaterals");
        let tri_all = plain(&voxelize_sdf_2d(&sh, max).split_into_triangles());
        let tri = plain(&approximate_triangle_mesh_for_sdf_2d(&sh, max));
        // expected: triangles with a corner inside, unused vertices dropped in order
        let mut used = vec![usize::MAX; tri_all.v.len()];
        let kept: Vec<&Vec<usize>> = tri_all.c.iter().filter(|t| t.iter().any(|&i| sh.phi([tri_all.v[i][0], tri_all.v[i][1]]) <= 0.0)).collect();
        for &i in kept.iter().flat_map(|t| t.iter()) {
            used[i] = 0;
        }
        let mut v = vec![];
        for (i, u) in used.iter_mut().enumerate() {
            if *u == 0 {
                *u = v.len();
                v.push(tri_all.v[i].clone());
            }
        }
        let before = Plain { v, c: kept.iter().map(|t| t.iter().map(|&i| used[i]).collect()).collect() };
        project(c, &before, &tri, "triangles");
        // library level sets
        let (ctr, r) = sh.discs[0];
        let circle = SdfCircle { radius: r, center: Vector2::new(ctr[0], ctr[1]) };
        let bx = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::new(p2(&sh.lo), p2(&[0.5 * (sh.lo[0] + sh.hi[0]), sh.hi[1]])) };
        let lib = circle.union(bx);
        let gl = plain(&voxelize_bounding_box_2d(&lib.bounding_box(), max));
        let phi = |p: &[f64]| {
            let q = [p[0], p[1]];
            let a = norm2(sub2(q, ctr)) - r;
            let lo = [bx.aabb.min().x, bx.aabb.min().y];
            let hi = [bx.aabb.max().x, bx.aabb.max().y];
            let o: Vec<f64> = (0..2).map(|k| (lo[k] - q[k]).max(q[k] - hi[k])).collect();
            let b = if o[0] > 0.0 && o[1] > 0.0 { o[0].hypot(o[1]) } else { o[0].max(o[1]) };
            a.min(b)
        };
        let vl = plain(&voxelize_sdf_2d(&lib, max));
        let sure = sorted_cells(&gl, |pts| pts.iter().any(|p| phi(p) <= -1e-12 * s));
        let maybe = sorted_cells(&gl, |pts| pts.iter().any(|p| phi(p) <= 1e-12 * s));
        let got = sorted_cells(&vl, |_| true);
        c.check(sure.iter().all(|x| got.binary_search(x).is_ok()) && got.iter().all(|x| maybe.binary_search(x).is_ok()), "library_level_set", || format!("{} cells, expected {}..{}", got.len(), sure.len(), maybe.len()));
    });
    run.require("cells_judged", 20_000);
    run.require("empty_meshes", 20);
    run.require("voxel_cells", 20_000);
    run.require("projected_vertices", 2_000);
    run.require("inner_vertices", 2_000);
}

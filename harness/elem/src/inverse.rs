use crate::closest::*;
use crate::view::*;
use vfem::*;
use vlib::{Case, Run};

fn emb(p: &[f64]) -> [f64; 3] {
    [p[0], p[1], if p.len() > 2 { p[2] } else { 0.0 }]
}

fn inverse(c: &mut Case) {
    let vol = ["seg1", "tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"];
    let name = *c.rng.pick(&vol);
    let e = describe(name);
    let mild = c.rng.chance(0.7);
    let cn = corners(&mut c.rng, &e, mild, 6.0, 3.0);
    let p = e.node_positions(&cn);
    c.key(name);
    c.keyf(&cn.concat());
    c.desc(format!("inverse map of {name} with corners {cn:?}"));
    let w = element(name, &p);
    let h = extent(&cn);
    let affine = e.simplex() || e.topo.is_none();
    for _ in 0..4 {
        let xi = if affine && c.rng.chance(0.3) { (0..e.rd).map(|_| c.rng.f(-4.0, 4.0)).collect() } else { e.ref_point(&mut c.rng) };
        let x = e.map(&cn, &xi);
        for (who, f) in [("map_physical_coordinates", w.inverse.as_ref().unwrap()), ("project_physical_coordinates", w.project.as_ref().unwrap())] {
            match f(&x) {
                Ok(got) => {
                    let back = e.map(&cn, &got);
                    let ok = got.iter().all(|t| t.is_finite());
                    c.check(ok && dist(&back, &x) <= 1e-8 * h, "not_a_preimage", || format!("{who} of {name}: {got:?} maps to {back:?}, asked for {x:?}"));
                    if affine || mild {
                        c.check(dist(&got, &xi) <= 1e-7, "not_recovered", || format!("{who} of {name}: {got:?} from {x:?}, which is the image of {xi:?}"));
                    } else if dist(&got, &xi) > 1e-6 {
                        c.count("other_preimage", 1);
                    }
                    c.count("inverted", 1);
                }
                Err(err) => {
                    if affine || mild {
                        c.fail("inverse_failed", format!("{who} of {name} at {xi:?}: {err}"));
                    } else {
                        c.count("inverse_refused_on_distorted_cell", 1);
                    }
                }
            }
        }
    }
}

/// projection onto surface elements: the least squares solution
fn project(c: &mut Case) {
    let name = *c.rng.pick(&["seg2", "tri3s"]);
    let e = describe(name);
    let cn = corners(&mut c.rng, &e, true, 6.0, 3.0);
    c.key(name);
    c.keyf(&cn.concat());
    c.desc(format!("projection onto {name} with corners {cn:?}"));
    let w = element(name, &cn);
    let h = extent(&cn);
    for _ in 0..4 {
        let xi = if c.rng.chance(0.3) { (0..e.rd).map(|_| c.rng.f(-4.0, 4.0)).collect() } else { e.ref_point(&mut c.rng) };
        let on = e.map(&cn, &xi);
        // move along the normal: the projection stays the same
        let s = *c.rng.pick(&[0.0, 1e-6, 0.3, -2.0, 20.0]) * h;
        let n: Vec<f64> = if name == "seg2" {
            let t = [cn[1][0] - cn[0][0], cn[1][1] - cn[0][1]];
            vec![t[1] / norm2(t), -t[0] / norm2(t)]
        } else {
            let q = cross(sub3(a3(&cn[1]), a3(&cn[0])), sub3(a3(&cn[2]), a3(&cn[0])));
            scale3(q, 1.0 / norm3(q)).to_vec()
        };
        let x: Vec<f64> = on.iter().zip(&n).map(|(a, b)| a + s * b).collect();
        match (w.project.as_ref().unwrap())(&x) {
            Ok(got) => {
                c.check(dist(&got, &xi) <= 1e-6, "projection", || format!("{name}: {x:?} projects to {got:?}, expected {xi:?}"));
                c.count("projected", 1);
            }
            Err(err) => c.fail("projection_failed", format!("{name} at {xi:?} + {s:e} normal: {err}")),
        }
    }
}

fn closest(c: &mut Case) {
    let name = *c.rng.pick(&["tri3", "tri3s", "tet4"]);
    let e = describe(name);
    let mut cn = corners(&mut c.rng, &e, true, 3.0, 3.0);
    let kind = c.rng.below(10);
    let flat = kind >= 8; // slivers and degenerate cells
    if flat {
        let (i, j) = (0, c.rng.range(1, cn.len() - 1));
        let s = *c.rng.pick(&[0.0, 1e-12, 1e-8, 1e-5, 1e-3]);
        if kind == 8 {
            // collapse towards an edge point
            let t = c.rng.f(0.0, 1.0);
            let k = (j + 1) % cn.len();
            let k = if k == i { (k + 1) % cn.len() } else { k };
            let k = if k == j { (k + 1) % cn.len() } else { k };
            for d in 0..e.gd {
                cn[j][d] = (cn[i][d] * (1.0 - t) + cn[k][d] * t) * (1.0 - s) + s * cn[j][d];
            }
        } else {
            // collapse two vertices
            for d in 0..e.gd {
                cn[j][d] = cn[i][d] * (1.0 - s) + s * cn[j][d];
            }
        }
    }
    if c.rng.chance(0.15) {
        cn.swap(0, 1); // inverted orientation
    }
    c.key(name);
    c.keyf(&cn.concat());
    let t: Vec<[f64; 3]> = cn.iter().map(|q| emb(q)).collect();
    let w = element(name, &cn);
    let cl = w.closest.as_ref().unwrap();
    let h = extent(&cn);
    let mid: Vec<f64> = (0..e.gd).map(|d| cn.iter().map(|q| q[d]).sum::<f64>() / cn.len() as f64).collect();
    for _ in 0..6 {
        let xi = e.ref_point(&mut c.rng);
        let on = e.map(&cn, &xi);
        let x: Vec<f64> = match c.rng.below(7) {
            0 => on,
            1 => cn[c.rng.below(cn.len())].clone(),
            2 => {
                // very near
                let s = h * c.rng.logf(1e-15, 1e-3);
                on.iter().map(|a| a + s * c.rng.normal()).collect()
            }
            3 => on.iter().map(|a| a + h * c.rng.normal()).collect(),
            4 => {
                let s = h * c.rng.logf(10.0, 1e6);
                mid.iter().map(|a| a + s * c.rng.normal()).collect()
            }
            5 => {
                // beyond a corner or edge
                let s = c.rng.f(1.0, 3.0);
                mid.iter().zip(&on).map(|(m, a)| m + s * (a - m)).collect()
            }
            _ => (0..e.gd).map(|d| mid[d] + 0.8 * (cn[c.rng.below(cn.len())][d] - mid[d]) * c.rng.f(0.0, 1.0)).collect(),
        };
        let Some((inside, got)) = c.no_panic("panic", || cl(&x)) else { return };
        let q = emb(&x);
        let ctx = || format!("{name} {cn:?}, query {x:?}, answer {got:?} inside={inside}");
        // in the reference domain
        let dom = got.iter().all(|t| *t >= -1.0 - 1e-14) && got.iter().sum::<f64>() <= if e.rd == 2 { 1e-14 } else { -1.0 + 2e-14 };
        c.check(dom, "outside_reference_domain", || ctx());
        let at = emb(&e.map(&cn, &got));
        let d = norm3(sub3(at, q));
        let best = if e.rd == 2 { on_triangle([t[0], t[1], t[2]], q) } else { on_tet([t[0], t[1], t[2], t[3]], q) };
        let db = norm3(sub3(best, q));
        let tol = tolerance(&t, q);
        c.check(d <= db + tol, "not_closest", || format!("{}: distance {d:e}, but {best:?} is {db:e} away (tol {tol:e})", ctx()));
        c.track("excess_over_tolerance", ((d - db) / (tol + 1e-300)).max(0.0));
        // the inside flag, away from the boundary
        let (h, small) = shape(&t);
        if inside {
            c.check(db <= tol, "claims_inside", || format!("{}: it is {db:e} away", ctx()));
            c.count("inside", 1);
        } else {
            c.count("closest", 1);
        }
        if e.rd == e.gd && small > 1e-6 * h {
            let l: Vec<f64> = if e.rd == 3 {
                bary_tet([t[0], t[1], t[2], t[3]], q).to_vec()
            } else {
                let n = cross(sub3(t[1], t[0]), sub3(t[2], t[0]))[2];
                (0..3).map(|i| cross(sub3(t[(i + 1) % 3], q), sub3(t[(i + 2) % 3], q))[2] / n).collect()
            };
            if l.iter().all(|x| *x > 1e-7 && *x * small > 10.0 * tol) && norm3(q) < 1e3 * h {
                c.check(inside, "denies_inside", || format!("{}: barycentric {l:?}", ctx()));
                c.count("clearly_inside", 1);
            }
        }
    }
    if flat {
        c.count("degenerate_cells", 1);
    }
}

pub fn e03(run: &mut Run) {
    if std::env::var("V_HANG_SECS").is_err() {
        std::env::set_var("V_HANG_SECS", "15");
    }
    run.section(
        "inverse",
        "valid elements over twelve decades of size: both inverse maps of images of reference points recover the points (mildly distorted or affine cells), and anything they return on strongly distorted cells is a preimage; they terminate",
        60000,
        900000,
        inverse,
    );
    run.section("project", "segments in the plane and triangles in space: points lifted off along the normal project back", 40000, 400000, project);
    run.section(
        "closest",
        "triangles in plane and space and tetrahedra, regular, sliver, degenerate and inverted; query points inside, on corners, edges and faces, extremely near and far; distance against exhaustive comparison over the parts",
        150000,
        3000000,
        closest,
    );
    run.require("inverted", 2000);
    run.require("projected", 500);
    run.require("clearly_inside", 500);
    run.require("closest", 2000);
    run.require("degenerate_cells", 100);
}

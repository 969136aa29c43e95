use crate::view::*;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::nalgebra::{Point2, Point3};
use vfem::*;
use vlib::{Case, Run};

fn det(j: &[Vec<f64>]) -> f64 {
    match j.len() {
        1 => j[0][0],
        2 => j[0][0] * j[1][1] - j[0][1] * j[1][0],
        3 => det3(&[a3(&j[0]), a3(&j[1]), a3(&j[2])]),
        _ => unreachable!(),
    }
}
const G3: [(f64, f64); 3] = [(-0.774596669241483377, 5.0 / 9.0), (0.0, 8.0 / 9.0), (0.774596669241483377, 5.0 / 9.0)];

fn measure_of(e: &El, p: &[Vec<f64>]) -> f64 {
    match e.topo {
        None => p[1][0] - p[0][0],
        Some(Topo::Tri) => tri_area([p[0][0], p[0][1]], [p[1][0], p[1][1]], [p[2][0], p[2][1]]),
        Some(Topo::Quad) => quad_area(&std::array::from_fn(|i| [p[i][0], p[i][1]])),
        Some(Topo::Tet) => tet_vol(a3(&p[0]), a3(&p[1]), a3(&p[2]), a3(&p[3])),
        Some(Topo::Hex) => hex_vol(&std::array::from_fn(|i| a3(&p[i]))),
    }
}

fn maps(c: &mut Case) {
    let name = *c.rng.pick(&KINDS);
    let e = describe(name);
    let mild = c.rng.bool();
    let cn = corners(&mut c.rng, &e, mild, 4.0, 3.0);
    let p = e.node_positions(&cn);
    c.key(name);
    c.keyf(&p.concat());
    c.desc(format!("geometry of {name} with corners {cn:?}"));
    let nn = p.len();
    let all = nn + c.rng.range(0, 5);
    let conn = c.rng.perm(all)[..nn].to_vec();
    let mut views = vec![("direct", element(name, &p))];
    if let Some(m) = through_mesh(name, &p, &conn, all) {
        views.push(("mesh", m));
    }
    let (h, m) = (extent(&cn), maxabs(&p));
    let tol = 1e-13 * (m + h);
    for (who, w) in &views {
        c.check(w.nodes == p, "vertices", || format!("{name} ({who}): vertices() returns {:?}", w.nodes));
        for i in 0..nn {
            let got = (w.map)(&e.rnodes[i]);
            c.check(dist(&got, &p[i]) <= tol, "node_mapped", || format!("{name} ({who}): node {i} maps to {got:?}, expected {:?}", p[i]));
        }
        let mut far: f64 = 0.0;
        let mut pts: Vec<Vec<f64>> = vec![];
        for k in 0..8 {
            let x = if k < 6 { e.ref_point(&mut c.rng) } else { (0..e.rd).map(|_| c.rng.f(-1.5, 1.5)).collect() };
            let got = (w.map)(&x);
            let want = e.map(&cn, &x);
            c.check(dist(&got, &want) <= 4.0 * tol, "map", || format!("{name} ({who}): {x:?} maps to {got:?}, expected {want:?}"));
            let (j, wj) = ((w.jac)(&x), e.jac(&cn, &x));
            let mut ok = j.len() == e.gd && j.iter().all(|r| r.len() == e.rd);
            for d in 0..e.gd {
                for k in 0..e.rd {
                    ok = ok && (j[d][k] - wj[d][k]).abs() <= 4.0 * tol;
                }
            }
            c.check(ok, "jacobian", || format!("{name} ({who}) at {x:?}: {j:?}, expected {wj:?}"));
            if k < 6 {
                pts.push(got);
            }
            c.count("map_points", 1);
        }
        for a in &pts {
            for b in &pts {
                far = far.max(dist(a, b));
            }
        }
        let d = (w.diameter)();
        c.check(d >= far - tol, "diameter_too_small", || format!("{name} ({who}): diameter {d:e}, but two points are {far:e} apart"));
        c.close(d, h, tol, "diameter", || format!("{name} ({who})"));
        if e.rd == e.gd {
            // integrate the determinant with a tensor / one point rule of our own
            let got = if e.simplex() {
                let reference = if e.rd == 2 { 2.0 } else { 4.0 / 3.0 };
                det(&(w.jac)(&vec![-0.3; e.rd])) * reference
            } else {
                let mut s = 0.0;
                for a in &G3 {
                    for b in if e.rd > 1 { &G3[..] } else { &[(0.0, 1.0)][..] } {
                        for q in if e.rd > 2 { &G3[..] } else { &[(0.0, 1.0)][..] } {
                            s += a.1 * b.1 * q.1 * det(&(w.jac)(&[a.0, b.0, q.0][..e.rd]));
                        }
                    }
                }
                s
            };
            let want = measure_of(&e, &cn);
            let t = 1e-12 * (m + h).powi(e.rd as i32);
            c.close(got, want, t, "measure", || format!("{name} ({who})"));
            if !(want > t) {
                c.count("tiny_measure", 1);
            }
        }
        if let Some(nrm) = &w.normal {
            let x = e.ref_point(&mut c.rng);
            let n = nrm(&x);
            let want: Vec<f64> = if name == "seg2" {
                let t = [cn[1][0] - cn[0][0], cn[1][1] - cn[0][1]];
                let l = norm2(t);
                vec![t[1] / l, -t[0] / l]
            } else {
                let q = cross(sub3(a3(&cn[1]), a3(&cn[0])), sub3(a3(&cn[2]), a3(&cn[0])));
                scale3(q, 1.0 / norm3(q)).to_vec()
            };
            c.check(dist(&n, &want) <= 1e-11 * (1.0 + m / h), "normal", || format!("{name}: normal {n:?}, expected {want:?}"));
            c.count("normals", 1);
        }
        if let Some(b) = &w.bounds {
            let (lo, hi) = b();
            for d in 0..e.gd {
                let (l, u) = (p.iter().map(|q| q[d]).fold(f64::INFINITY, f64::min), p.iter().map(|q| q[d]).fold(f64::NEG_INFINITY, f64::max));
                c.check(lo[d] == l && hi[d] == u, "bounds", || format!("{name}: bounds {lo:?} {hi:?}"));
            }
            c.count("bounds", 1);
        }
    }
    c.count("elements", views.len() as u64);
}

/// face elements of cells: same points as the cell's face, normals pointing out
fn faces(c: &mut Case) {
    macro_rules! go {
        ($name:expr, $conn:expr, $refconn:expr, $P:ident, $mk:expr, $pts:expr, $n:expr) => {{
            let e = describe($name);
            let mild = c.rng.bool();
            let cn = corners(&mut c.rng, &e, mild, 2.0, 3.0);
            c.key($name);
            c.keyf(&cn.concat());
            let (h, m) = (extent(&cn), maxabs(&cn));
            let all: Vec<$P<f64>> = cn.iter().map($mk).collect();
            let refs: Vec<$P<f64>> = e.rcorners.iter().map($mk).collect();
            let w = element($name, &cn);
            let conn = $conn;
            c.check(conn.num_faces() == $n, "num_faces", || format!("{}: {}", $name, conn.num_faces()));
            c.check(conn.get_face_connectivity($n).is_none(), "face_beyond", || $name.to_string());
            let mid: Vec<f64> = (0..e.gd).map(|d| cn.iter().map(|q| q[d]).sum::<f64>() / cn.len() as f64).collect();
            let mut total = vec![0.0; e.gd];
            for f in 0..$n {
                let Some(fc) = conn.get_face_connectivity(f) else {
                    c.fail("face_missing", format!("{} face {f}", $name));
                    return;
                };
                let (Some(fe), Some(fr)) = (fc.element(&all), fc.element(&refs)) else {
                    c.fail("face_element", format!("{} face {f}", $name));
                    return;
                };
                for _ in 0..3 {
                    let x: Vec<f64> = $pts(c);
                    let on_face = v(&fe.map_reference_coords(&pt(&x)));
                    let r = v(&fr.map_reference_coords(&pt(&x)));
                    let on_cell = (w.map)(&r);
                    c.check(dist(&on_face, &on_cell) <= 1e-12 * (m + h), "face_map", || format!("{} face {f} at {x:?}: {on_face:?}, cell there {on_cell:?}", $name));
                    let n: Vec<f64> = fe.normal(&pt(&x)).iter().cloned().collect();
                    let out: f64 = n.iter().zip(on_face.iter().zip(&mid)).map(|(n, (a, b))| n * (a - b)).sum();
                    c.check(out > -1e-12 * (m + h), "normal_inward", || format!("{} face {f}: normal {n:?} points inward", $name));
                    c.count("face_points", 1);
                }
                let n: Vec<f64> = fe.normal(&pt(&vec![0.0; e.rd - 1])).iter().cloned().collect();
                let area = if e.rd == 2 {
                    fe.diameter()
                } else {
                    let q: Vec<Vec<f64>> = fc.vertex_indices().iter().map(|&i| cn[i].clone()).collect();
                    norm3(cross(sub3(a3(&q[1]), a3(&q[0])), sub3(a3(&q[2]), a3(&q[0])))) / 2.0
                };
                for d in 0..e.gd {
                    total[d] += area * n[d];
                }
            }
            c.check(total.iter().all(|t| t.abs() <= 1e-11 * (h + m).powi(e.rd as i32 - 1)), "faces_not_closed", || format!("{}: area vectors sum to {total:?}", $name));
        }};
    }
    match c.rng.below(3) {
        0 => go!("tri3", Tri3d2Connectivity([0, 1, 2]), (), Point2, |q: &Vec<f64>| Point2::new(q[0], q[1]), |c: &mut Case| vec![c.rng.f(-1.0, 1.0)], 3),
        1 => go!("quad4", Quad4d2Connectivity([0, 1, 2, 3]), (), Point2, |q: &Vec<f64>| Point2::new(q[0], q[1]), |c: &mut Case| vec![c.rng.f(-1.0, 1.0)], 4),
        _ => go!(
            "tet4",
            Tet4Connectivity([0, 1, 2, 3]),
            (),
            Point3,
            |q: &Vec<f64>| Point3::new(q[0], q[1], q[2]),
            |c: &mut Case| {
                let e = describe("tri3");
                e.ref_point(&mut c.rng)
            },
            4
        ),
    }
}

/// elements made from lower order elements, connectivities looked up beyond the vertices
fn conversions(c: &mut Case) {
    let name = *c.rng.pick(&["tri6", "quad9", "tet10", "tet20"]);
    let e = describe(name);
    let mild = c.rng.bool();
    let cn = corners(&mut c.rng, &e, mild, 3.0, 3.0);
    c.key(name);
    c.keyf(&cn.concat());
    let want = e.node_positions(&cn);
    let q2 = |i: usize| Point2::new(cn[i][0], cn[i][1]);
    let q3 = |i: usize| Point3::new(cn[i][0], cn[i][1], cn[i][2]);
    let got: Vec<Vec<f64>> = match name {
        "tri6" => {
            let t = Tri3d2Element::from_vertices([q2(0), q2(1), q2(2)]);
            let a = Tri6d2Element::from(&t);
            c.check(a == Tri6d2Element::from(t), "by_value", || name.into());
            a.vertices().iter().map(v).collect()
        }
        "quad9" => {
            let t = Quad4d2Element::from_vertices([q2(0), q2(1), q2(2), q2(3)]);
            let a = Quad9d2Element::from(&t);
            c.check(a == Quad9d2Element::from(t), "by_value", || name.into());
            a.vertices().iter().map(v).collect()
        }
        "tet10" => Tet10Element::from(&Tet4Element::from_vertices([q3(0), q3(1), q3(2), q3(3)])).vertices().iter().map(v).collect(),
        _ => Tet20Element::from(&Tet4Element::from_vertices([q3(0), q3(1), q3(2), q3(3)])).vertices().iter().map(v).collect(),
    };
    let m = maxabs(&cn);
    for i in 0..want.len() {
        c.check(dist(&got[i], &want[i]) <= 1e-14 * 8.0 * m, "converted_node", || format!("{name}: node {i} at {:?}, expected {:?}", got[i], want[i]));
    }
    c.count("converted_elements", 1);
    // connectivities pick the right vertices out of many (or refuse)
    let nn = want.len();
    let all = nn + c.rng.range(0, 4);
    let conn = c.rng.perm(all)[..nn].to_vec();
    let short = *conn.iter().max().unwrap();
    macro_rules! conn {
        ($c:expr, $p:expr) => {{
            let k = $c;
            let mut vs = vec![$p(&vec![f64::NAN; 3]); all];
            for i in 0..nn {
                vs[conn[i]] = $p(&want[i]);
            }
            match k.element(&vs) {
                None => c.fail("connectivity_element", format!("{name}: no element")),
                Some(el) => {
                    let got: Vec<Vec<f64>> = el.vertices().iter().map(v).collect();
                    c.check(got == want, "connectivity_element", || format!("{name}: {got:?}, expected {want:?}"));
                }
            }
            if name != "quad9" {
                c.check(k.element(&vs[..short]).is_none(), "connectivity_out_of_range", || format!("{name}: element although vertex {short} does not exist"));
            }
        }};
    }
    let mk2 = |q: &Vec<f64>| Point2::new(q[0], q[1]);
    let mk3 = |q: &Vec<f64>| Point3::new(q[0], q[1], q[2]);
    match name {
        "tri6" => conn!(Tri6d2Connectivity(std::array::from_fn(|i| conn[i])), mk2),
        "quad9" => conn!(Quad9d2Connectivity(std::array::from_fn(|i| conn[i])), mk2),
        "tet10" => conn!(Tet10Connectivity(std::array::from_fn(|i| conn[i])), mk3),
        _ => conn!(Tet20Connectivity(std::array::from_fn(|i| conn[i])), mk3),
    }
}

pub fn e02(run: &mut Run) {
    run.section(
        "maps",
        "random element kinds and valid shapes (mild and strongly distorted, eight decades of size); map, Jacobian, measure, diameter, normals and bounds against the defining formulas, directly and through a mesh",
        100000,
        1500000,
        maps,
    );
    run.section("faces", "face elements of random triangles, quads and tets: on the cell's geometry, outward unit normals, closed surface", 60000, 1000000, faces);
    run.section("conversions", "higher order elements made from linear ones, and elements looked up through connectivities", 30000, 300000, conversions);
    run.require("map_points", 5000);
    run.require("normals", 200);
    run.require("face_points", 5000);
}

use crate::view::*;
use std::collections::BTreeMap;
use vfem::*;
use vlib::{Case, Run};

fn mono(m: &[u32; 3], x: &[f64]) -> f64 {
    (0..x.len()).map(|d| x[d].powi(m[d] as i32)).product()
}
fn mono_grad(m: &[u32; 3], x: &[f64], k: usize) -> f64 {
    (0..x.len())
        .map(|d| {
            if d == k {
                if m[d] == 0 {
                    0.0
                } else {
                    m[d] as f64 * x[d].powi(m[d] as i32 - 1)
                }
            } else {
                x[d].powi(m[d] as i32)
            }
        })
        .product()
}

/// Everything that pins down the basis of one element kind at one point
fn judge(c: &mut Case, e: &El, w: &View, x: &[f64], who: &str) {
    let nn = e.rnodes.len();
    let ctx = |what: &str| format!("{} ({who}), {what} at {x:?}", e.name);
    if !c.check(w.n == nn, "num_nodes", || format!("{}: {} nodes, expected {nn}", ctx(""), w.n)) {
        return;
    }
    let b = (w.basis)(x);
    let g = (w.grads)(x);
    if !c.check(b.len() == nn && g.len() == nn, "lengths", || ctx("")) {
        return;
    }
    let r = x.iter().fold(1.0, |a: f64, y| a.max(y.abs())).powi(6);
    let tol = 2e-13 * r;
    c.close(b.iter().sum(), 1.0, tol, "partition_of_unity", || ctx("sum of values"));
    for k in 0..e.rd {
        c.close(g.iter().map(|g| g[k]).sum(), 0.0, 4.0 * tol, "partition_of_unity_grad", || ctx("sum of gradients"));
    }
    // the function space: all monomials and one random combination, by value and derivative
    let coef: Vec<f64> = e.mono.iter().map(|_| c.rng.f(-1.0, 1.0)).collect();
    let mut tests: Vec<Vec<f64>> = vec![coef];
    for i in 0..e.mono.len() {
        tests.push((0..e.mono.len()).map(|j| if i == j { 1.0 } else { 0.0 }).collect());
    }
    for t in &tests {
        let f = |y: &[f64]| -> f64 { t.iter().zip(&e.mono).map(|(t, m)| t * mono(m, y)).sum() };
        let fg = |y: &[f64], k: usize| -> f64 { t.iter().zip(&e.mono).map(|(t, m)| t * mono_grad(m, y, k)).sum() };
        let nodal: Vec<f64> = e.rnodes.iter().map(|n| f(n)).collect();
        let val: f64 = nodal.iter().zip(&b).map(|(u, b)| u * b).sum();
        c.close(val, f(x), 10.0 * tol, "reproduction", || ctx(&format!("polynomial {t:?}")));
        for k in 0..e.rd {
            let val: f64 = nodal.iter().zip(&g).map(|(u, g)| u * g[k]).sum();
            c.close(val, fg(x, k), 40.0 * tol, "gradient_reproduction", || ctx(&format!("derivative {k} of polynomial {t:?}")));
        }
        c.count("polynomials_reproduced", 1);
    }
}

fn check_basis(c: &mut Case) {
    let name = *c.rng.pick(&KINDS);
    let e = describe(name);
    c.desc(format!("basis of {name}"));
    let p = e.node_positions(&{
        let mild = c.rng.bool();
        corners(&mut c.rng, &e, mild, 2.0, 3.0)
    });
    let nn = e.rnodes.len();
    c.key(name);
    c.keyf(&p.concat());
    let mut views = vec![("from_vertices", element(name, &p))];
    if let Some(r) = reference(name) {
        // the reference element has its nodes at the reference nodes
        for i in 0..nn {
            c.check(dist(&r.nodes[i], &e.rnodes[i]) <= 1e-15, "reference_nodes", || format!("{name}: reference node {i} at {:?}, expected {:?}", r.nodes[i], e.rnodes[i]));
        }
        views.push(("reference", r));
    }
    let all = nn + c.rng.range(0, 5);
    let conn = c.rng.perm(all)[..nn].to_vec();
    if let Some(m) = through_mesh(name, &p, &conn, all) {
        views.push(("mesh", m));
    }
    for (who, w) in &views {
        // Kronecker property at every node
        for (i, x) in e.rnodes.iter().enumerate() {
            let b = (w.basis)(x);
            for j in 0..nn {
                c.close(b[j], if i == j { 1.0 } else { 0.0 }, 1e-14, "kronecker", || format!("{name} ({who}): basis {j} at node {i}"));
            }
            c.count("kronecker_nodes", 1);
        }
        for k in 0..6 {
            let x = if k < 4 { e.ref_point(&mut c.rng) } else { (0..e.rd).map(|_| c.rng.f(-1.6, 1.6)).collect() };
            judge(c, &e, w, &x, who);
        }
        // wrong output sizes are refused rather than partly filled
    }
    c.count("elements", views.len() as u64);
}

/// value of a nodal field in a cell: nodes identified by what they are made of
fn value(c: &mut Case, e: &El, field: &mut BTreeMap<NodeKey, f64>, p: &Plain, k: &Kind, cell: usize, x: &[f64], w: &View) -> f64 {
    let b = (w.basis)(x);
    (0..e.rnodes.len())
        .map(|n| {
            let key = p.key(k, cell, n);
            let u = match field.get(&key) {
                Some(u) => *u,
                None => {
                    let u = c.rng.f(-1.0, 1.0);
                    field.insert(key, u);
                    u
                }
            };
            u * b[n]
        })
        .sum()
}

fn conformity(c: &mut Case) {
    let name = *c.rng.pick(&["tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"]);
    let e = describe(name);
    let k = kind(name);
    let o = Opts::any(12);
    let p = match k.topo {
        Topo::Tri => plain(&tris(&mut c.rng, &o).mesh()),
        Topo::Quad => plain(&quads(&mut c.rng, &o).mesh()),
        Topo::Tet => plain(&tets(&mut c.rng, &o).mesh()),
        Topo::Hex => plain(&hexes(&mut c.rng, &o).mesh()),
    };
    c.key((name, &p.c));
    c.desc(format!("conformity of {name} over {} cells", p.c.len()));
    let faces = k.topo.faces();
    let mut field = BTreeMap::new();
    let w: Vec<View> = (0..p.c.len())
        .map(|i| {
            let corners: Vec<Vec<f64>> = (0..k.topo.corners()).map(|q| p.v[p.c[i][q]].clone()).collect();
            element(name, &e.node_positions(&corners))
        })
        .collect();
    let mut shared = 0;
    for (_, cells) in p.faces(k.topo) {
        if cells.len() != 2 {
            continue;
        }
        shared += 1;
        let ((a, fa), (b, fb)) = (cells[0], cells[1]);
        let loop_a: Vec<usize> = faces[fa].iter().map(|&i| p.c[a][i]).collect();
        for _ in 0..3 {
            // weights on the corners of the face
            let wt: Vec<f64> = if loop_a.len() == 4 {
                let (s, t) = (c.rng.f01(), c.rng.f01());
                vec![(1.0 - s) * (1.0 - t), s * (1.0 - t), s * t, (1.0 - s) * t]
            } else {
                let mut w: Vec<f64> = loop_a.iter().map(|_| c.rng.f01()).collect();
                let s: f64 = w.iter().sum();
                w.iter_mut().for_each(|x| *x /= s);
                w
            };
            let at = |cell: usize, f: usize| -> Vec<f64> {
                let mut x = vec![0.0; e.rd];
                for &i in &faces[f] {
                    let j = loop_a.iter().position(|&g| g == p.c[cell][i]).unwrap();
                    for d in 0..e.rd {
                        x[d] += wt[j] * e.rcorners[i][d];
                    }
                }
                x
            };
            let (xa, xb) = (at(a, fa), at(b, fb));
            let va = value(c, &e, &mut field, &p, &k, a, &xa, &w[a]);
            let vb = value(c, &e, &mut field, &p, &k, b, &xb, &w[b]);
            c.close(va, vb, 1e-12, "face_agreement", || format!("{name}: cells {a} and {b} on their shared face at {xa:?} / {xb:?}"));
            let (ma, mb) = ((w[a].map)(&xa), (w[b].map)(&xb));
            c.check(dist(&ma, &mb) <= 1e-12 * p.scale(), "face_geometry", || format!("{name}: cells {a} and {b} map their shared face to {ma:?} / {mb:?}"));
            c.count("face_points", 1);
        }
    }
    c.count("shared_faces", shared);
    if shared == 0 {
        c.trivial();
    }
}

pub fn e01(run: &mut Run) {
    run.section(
        "basis",
        "random element kind and geometry, reached directly, as reference element and through mesh and space; Kronecker property at all nodes, partition of unity, values and gradients of every monomial of the kind's function space and of a random polynomial, at random, boundary, node and outside points",
        20000,
        300000,
        check_basis,
    );
    run.section(
        "conformity",
        "random conforming meshes, nodes identified geometrically with random nodal values: both cells of every shared face give the same value and position at random face points",
        20000,
        300000,
        conformity,
    );
    run.require("kronecker_nodes", 1000);
    run.require("polynomials_reproduced", 1000);
    run.require("shared_faces", 500);
}

use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector, U1, U2, U3};
use fenris::nalgebra_sparse::CsrMatrix;
use std::collections::BTreeSet;
use vlib::{Case, Rng, Run};

/// Symmetric-pattern matrix data with complete diagonal on the given dofs
struct Prob {
    d: usize,
    n: usize,
    nodes: Vec<usize>,
    a: DMatrix<f64>,
    pat: BTreeSet<(usize, usize)>,
    rhs: DVector<f64>,
}

fn gen(rng: &mut Rng) -> Prob {
    let d = rng.range(1, 3);
    let nn = rng.range(1, 14);
    let n = d * nn;
    let style = rng.below(7);
    let mag = match style {
        0 => 1e-200,
        1 => 1e150,
        2 => 1e-12,
        _ => 1.0,
    };
    let val = |rng: &mut Rng| {
        let x = rng.f(-1.0, 1.0) * mag;
        if rng.chance(0.1) {
            0.0
        } else if style == 3 {
            x * 10f64.powf(rng.f(-15.0, 15.0))
        } else {
            x
        }
    };
    let mut pat = BTreeSet::new();
    let p = *rng.pick(&[0.05, 0.3, 1.0]);
    for i in 0..n {
        for j in 0..=i {
            if i == j || rng.chance(p) {
                pat.insert((i, j));
                pat.insert((j, i));
            }
        }
    }
    let mut a = DMatrix::zeros(n, n);
    let sym = rng.bool();
    for &(i, j) in &pat {
        a[(i, j)] = val(rng);
    }
    if sym {
        for i in 0..n {
            for j in 0..i {
                a[(j, i)] = a[(i, j)];
            }
        }
    }
    match rng.below(6) {
        0 => (0..n).for_each(|i| a[(i, i)] = 0.0), // saddle point like: all zero
        1 => (0..n).for_each(|i| a[(i, i)] = -a[(i, i)].abs()),
        2 => (0..n).for_each(|i| a[(i, i)] = if i == n - 1 { -3.0 * mag } else { 0.0 }),
        3 => (0..n).for_each(|i| a[(i, i)] = if rng.bool() { 0.0 } else { a[(i, i)] }),
        _ => (0..n).for_each(|i| a[(i, i)] = (2.0 + n as f64) * mag),
    }
    let nodes = match rng.below(5) {
        0 => vec![],
        1 => rng.perm(nn),
        2 => {
            let k = rng.range(1, nn);
            (0..k).map(|_| rng.below(nn)).collect()
        }
        _ => {
            let mut p = rng.perm(nn);
            p.truncate(rng.range(1, nn));
            p
        }
    };
    let rhs = DVector::from_fn(n, |_, _| val(rng) + mag);
    Prob { d, n, nodes, a, pat, rhs }
}

fn to_csr(p: &Prob) -> CsrMatrix<f64> {
    let mut offs = vec![0; p.n + 1];
    for (i, _) in &p.pat {
        offs[i + 1] += 1;
    }
    for i in 0..p.n {
        offs[i + 1] += offs[i];
    }
    CsrMatrix::try_from_csr_data(p.n, p.n, offs, p.pat.iter().map(|x| x.1).collect(), p.pat.iter().map(|x| p.a[*x]).collect()).unwrap()
}

fn dense_apply(m: &mut DMatrix<f64>, nodes: &[usize], d: usize) {
    match d {
        1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(m, nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(m, nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(m, nodes),
    }
}

fn judge(c: &mut Case, p: &Prob, m: &DMatrix<f64>, kind: &str) -> bool {
    let con: BTreeSet<usize> = p.nodes.iter().flat_map(|&x| (0..p.d).map(move |i| (x, i))).map(|(x, i)| x * p.d + i).collect();
    let mut ok = true;
    for i in 0..p.n {
        for j in 0..p.n {
            let v = m[(i, j)];
            if con.contains(&i) || con.contains(&j) {
                if i == j {
                    ok &= c.check(v != 0.0 && v.is_finite(), &format!("{kind}_diagonal"), || format!("diagonal entry of constrained unknown {i} is {v}; diagonal before: {:?}", p.a.diagonal().as_slice()));
                } else {
                    ok &= c.check(v == 0.0, &format!("{kind}_coupling"), || format!("entry ({i},{j}) coupling a constrained unknown is {v}, nodes {:?} dim {}", p.nodes, p.d));
                }
            } else {
                ok &= c.check(v == p.a[(i, j)], &format!("{kind}_untouched"), || format!("entry ({i},{j}) changed from {} to {v}", p.a[(i, j)]));
            }
            if !ok {
                return false;
            }
        }
    }
    c.count("entries_judged", (p.n * p.n) as u64);
    ok
}

pub fn c07(run: &mut Run) {
    run.section("matrix", "random structurally symmetric matrices (1..14 nodes, dim 1..3, zero/negative/tiny/huge/partially zero diagonals, symmetric or not in value), node sets empty/all/repeated/unsorted: every entry judged after applying the conditions to sparse and dense matrices and right-hand sides", 4000, 80000, |c| {
        let p = gen(&mut c.rng);
        c.key((&p.nodes, p.d, p.n));
        c.keyf(p.a.as_slice());
        c.desc(format!("dim {} dofs {} nodes {:?} diag {:?}", p.d, p.n, p.nodes, p.a.diagonal().as_slice()));
        let mut s = to_csr(&p);
        let pat0 = s.pattern().clone();
        if c.no_panic("sparse_panic", || apply_homogeneous_dirichlet_bc_csr(&mut s, &p.nodes, p.d)).is_some() {
            c.check(*s.pattern() == pat0, "sparse_pattern", || "sparsity pattern changed".into());
            judge(c, &p, &DMatrix::from(&s), "sparse");
            // idempotent
            let once = DMatrix::from(&s);
            apply_homogeneous_dirichlet_bc_csr(&mut s, &p.nodes, p.d);
            judge(c, &Prob { a: once, ..clone(&p) }, &DMatrix::from(&s), "sparse_again");
        }
        let mut m = p.a.clone();
        if c.no_panic("dense_panic", || dense_apply(&mut m, &p.nodes, p.d)).is_some() {
            judge(c, &p, &m, "dense");
        }
        let mut r = p.rhs.clone();
        if c.no_panic("rhs_panic", || apply_homogeneous_dirichlet_bc_rhs(&mut r, &p.nodes, p.d)).is_some() {
            for i in 0..p.n {
                let con = p.nodes.contains(&(i / p.d));
                c.check(r[i] == if con { 0.0 } else { p.rhs[i] }, "rhs", || format!("entry {i} constrained {con}: {} -> {}", p.rhs[i], r[i]));
            }
        }
        c.count("applications", 3);
    });
    run.section("solution", "diagonally dominant systems: the solution after applying the conditions vanishes at constrained unknowns and solves the reduced system elsewhere", 800, 15000, |c| {
        let mut p = gen(&mut c.rng);
        for i in 0..p.n {
            for j in 0..p.n {
                if p.a[(i, j)] != 0.0 {
                    p.a[(i, j)] = c.rng.f(-1.0, 1.0);
                }
            }
            p.rhs[i] = c.rng.f(-1.0, 1.0);
        }
        for i in 0..p.n {
            p.a[(i, i)] = p.n as f64 + 1.0;
        }
        c.key((&p.nodes, p.d, p.n));
        c.keyf(p.a.as_slice());
        let mut s = to_csr(&p);
        apply_homogeneous_dirichlet_bc_csr(&mut s, &p.nodes, p.d);
        let mut m = p.a.clone();
        dense_apply(&mut m, &p.nodes, p.d);
        let mut r = p.rhs.clone();
        apply_homogeneous_dirichlet_bc_rhs(&mut r, &p.nodes, p.d);
        let free: Vec<usize> = (0..p.n).filter(|i| !p.nodes.contains(&(i / p.d))).collect();
        let ared = DMatrix::from_fn(free.len(), free.len(), |i, j| p.a[(free[i], free[j])]);
        let rred = DVector::from_fn(free.len(), |i, _| p.rhs[free[i]]);
        let xred = if free.is_empty() { DVector::zeros(0) } else { ared.lu().solve(&rred).unwrap() };
        let mut want = vec![0.0; p.n];
        for (k, &i) in free.iter().enumerate() {
            want[i] = xred[k];
        }
        for (what, mat) in [("sparse", DMatrix::from(&s)), ("dense", m)] {
            match mat.lu().solve(&r) {
                Some(x) => {
                    c.close_slices(x.as_slice(), &want, 1e-10, "solution", || format!("{what} nodes {:?}", p.nodes));
                }
                None => c.fail("singular", format!("{what} system is singular after applying conditions; nodes {:?}", p.nodes)),
            }
        }
        c.count("systems_solved", 2);
    });
    run.section("large", "sparse systems of hundreds to tens of thousands of unknowns (with nearly full rows) and dense ones of hundreds, few to all nodes constrained: every stored entry judged", 60, 20000, |c| {
        let d = c.rng.range(1, 3);
        let dense = c.rng.chance(0.3);
        let nn = if dense { *c.rng.pick(&[23usize, 45, 90, 175]) } else { *c.rng.pick(&[90usize, 350, 700, 1400, 5000]) } + c.rng.below(8);
        let n = d * nn;
        let mut pat: BTreeSet<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
        for _ in 0..c.rng.below(6 * n) {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            pat.insert((i, j));
            pat.insert((j, i));
        }
        for _ in 0..c.rng.below(3) {
            let i = c.rng.below(n);
            for j in 0..n {
                pat.insert((i, j));
                pat.insert((j, i));
            }
        }
        let zero_diag = c.rng.below(4);
        let vals: std::collections::BTreeMap<(usize, usize), f64> = pat.iter().map(|&(i, j)| ((i, j), if i == j && (zero_diag == 0 || zero_diag == 1 && c.rng.bool()) { 0.0 } else { c.rng.f(-2.0, 2.0) })).collect();
        let nodes: Vec<usize> = match c.rng.below(5) {
            0 => vec![c.rng.below(nn)],
            1 => c.rng.perm(nn),
            2 => (0..c.rng.range(1, nn)).map(|_| c.rng.below(nn)).collect(),
            _ => { let mut p = c.rng.perm(nn); p.truncate(c.rng.range(1, nn)); if c.rng.bool() { p.sort(); } p }
        };
        c.key((&nodes, d, n));
        c.desc(format!("dim {d} dofs {n} constrained nodes {} entries {}", nodes.len(), pat.len()));
        let mut con = vec![false; n];
        for &x in &nodes {
            for i in 0..d {
                con[x * d + i] = true;
            }
        }
        let mut offs = vec![0; n + 1];
        for (i, _) in &pat {
            offs[i + 1] += 1;
        }
        for i in 0..n {
            offs[i + 1] += offs[i];
        }
        let mut s = CsrMatrix::try_from_csr_data(n, n, offs, pat.iter().map(|x| x.1).collect(), vals.values().cloned().collect()).unwrap();
        let judge = |c: &mut Case, i: usize, j: usize, v: f64, before: f64, kind: &str| -> bool {
            if con[i] || con[j] {
                if i == j {
                    c.check(v != 0.0 && v.is_finite(), &format!("{kind}_diagonal"), || format!("diagonal entry of constrained unknown {i} is {v}"))
                } else {
                    c.check(v == 0.0, &format!("{kind}_coupling"), || format!("entry ({i},{j}) coupling a constrained unknown is {v}"))
                }
            } else {
                c.check(v == before, &format!("{kind}_untouched"), || format!("entry ({i},{j}) changed from {before} to {v}"))
            }
        };
        if c.no_panic("sparse_panic", || apply_homogeneous_dirichlet_bc_csr(&mut s, &nodes, d)).is_some() {
            c.check(s.nnz() == vals.len(), "sparse_pattern", || "number of entries changed".into());
            for ((i, j, v), (k, b)) in s.triplet_iter().zip(&vals) {
                if !c.check((i, j) == *k, "sparse_pattern", || "sparsity pattern changed".into()) || !judge(c, i, j, *v, *b, "sparse") {
                    break;
                }
            }
            c.count("entries_judged", vals.len() as u64);
        }
        if dense {
            let mut a = DMatrix::zeros(n, n);
            for (k, v) in &vals {
                a[*k] = *v;
            }
            let mut m = a.clone();
            if c.no_panic("dense_panic", || dense_apply(&mut m, &nodes, d)).is_some() {
                'o: for i in 0..n {
                    for j in 0..n {
                        if !judge(c, i, j, m[(i, j)], a[(i, j)], "dense") {
                            break 'o;
                        }
                    }
                }
            }
        }
        let rhs = DVector::from_fn(n, |_, _| c.rng.f(1.0, 2.0));
        let mut r = rhs.clone();
        apply_homogeneous_dirichlet_bc_rhs(&mut r, &nodes, d);
        c.check((0..n).all(|i| r[i] == if con[i] { 0.0 } else { rhs[i] }), "rhs", || "right-hand side entries wrong".into());
        c.count("large_systems", 1);
    });
    run.require("large_systems", 30);
    run.require("entries_judged", 100_000);
    run.require("systems_solved", 500);
}

fn clone(p: &Prob) -> Prob {
    Prob { d: p.d, n: p.n, nodes: p.nodes.clone(), a: p.a.clone(), pat: p.pat.clone(), rhs: p.rhs.clone() }
}

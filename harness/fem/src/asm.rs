use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::LaplaceOperator;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use fenris::nalgebra_sparse::pattern::SparsityPattern;
use fenris::nalgebra_sparse::CsrMatrix;
use fenris::quadrature::{CanonicalMassQuadrature, CanonicalStiffnessQuadrature};
use fenris_solid::materials::{LameParameters, NeoHookeanMaterial};
use fenris_solid::MaterialEllipticOperator;
use std::collections::{BTreeMap, BTreeSet};
use vfem::synth::*;
use vfem::with_mesh_kind;
use vfem::Opts;
use vlib::{Case, Rng, Run};

pub fn check_pattern(c: &mut Case, p: &SparsityPattern, want: &BTreeSet<(usize, usize)>, n: usize, sig: &str) -> bool {
    let mut ok = c.check(p.major_dim() == n && p.minor_dim() == n, sig, || {
        format!("pattern is {}x{}, expected {n}x{n}", p.major_dim(), p.minor_dim())
    });
    let offs = p.major_offsets();
    ok &= c.check(offs.len() == n + 1 && offs[0] == 0, sig, || format!("bad offsets {:?}", &offs[..offs.len().min(20)]));
    let w: Vec<(usize, usize)> = want.iter().cloned().collect();
    let g: Vec<(usize, usize)> = (0..n).flat_map(|i| p.minor_indices()[offs[i]..offs[i + 1]].iter().map(move |&j| (i, j))).collect();
    c.count("pattern_entries", g.len() as u64);
    // equality with the sorted oracle list implies sorted, unique, complete and no extra entries
    ok &= c.check(g == w, sig, || {
        let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        format!("pattern differs from the coupled pairs at entry {k}: got {:?}, expected {:?} ({} vs {} entries)", g.get(k), w.get(k), g.len(), w.len())
    });
    ok
}

pub fn check_csr_exact(c: &mut Case, m: &CsrMatrix<f64>, want: &BTreeMap<(usize, usize), f64>, sig: &str) -> bool {
    let got: Vec<((usize, usize), f64)> = m.triplet_iter().map(|(i, j, v)| ((i, j), *v)).collect();
    let w: Vec<((usize, usize), f64)> = want.iter().map(|(k, v)| (*k, *v)).collect();
    c.count("matrix_entries_compared", got.len() as u64);
    c.check(got == w, sig, || {
        let k = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
        format!("matrix entry {k}: got {:?}, expected {:?} ({} vs {} entries)", got.get(k), w.get(k), got.len(), w.len())
    })
}

/// A CSR matrix whose pattern contains `pat` (plus random extra entries), filled with integers
pub fn prefilled(rng: &mut Rng, pat: &BTreeSet<(usize, usize)>, n: usize, extra: bool, sc: f64) -> (CsrMatrix<f64>, BTreeMap<(usize, usize), f64>) {
    let mut m: BTreeMap<(usize, usize), f64> = pat.iter().map(|k| (*k, sc * intval(rng))).collect();
    if extra && n > 0 {
        for _ in 0..rng.below(3 * n + 1) {
            let k = (rng.below(n), rng.below(n));
            let v = sc * intval(rng);
            m.insert(k, v);
        }
    }
    let mut offs = vec![0usize; n + 1];
    for (i, _) in m.keys() {
        offs[i + 1] += 1;
    }
    for i in 0..n {
        offs[i + 1] += offs[i];
    }
    let cols = m.keys().map(|k| k.1).collect();
    let vals = m.values().cloned().collect();
    (CsrMatrix::try_from_csr_data(n, n, offs, cols, vals).unwrap(), m)
}

pub fn add_maps(a: &mut BTreeMap<(usize, usize), f64>, b: &BTreeMap<(usize, usize), f64>) {
    for (k, v) in b {
        *a.get_mut(k).expect("pattern") += v;
    }
}

pub fn fingerprint(c: &mut Case, s: &Synth) {
    c.key((&s.conn, s.sdim, s.num_nodes));
    if s.conn.is_empty() {
        c.trivial()
    }
}

fn real_problem_matches_local_sums<A>(c: &mut Case, a: &A, what: &str)
where
    A: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64>,
{
    let s = a.solution_dim();
    let n = a.num_nodes() * s;
    let mut m = DMatrix::<f64>::zeros(n, n);
    let mut v = DVector::<f64>::zeros(n);
    let mut e = 0.0;
    let (mut ms, mut vs, mut es) = (0.0f64, 0.0f64, 0.0f64);
    for k in 0..a.num_elements() {
        let mut nodes = vec![0; a.element_node_count(k)];
        a.populate_element_nodes(&mut nodes, k);
        let km = a.assemble_element_matrix(k).unwrap();
        let kv = a.assemble_element_vector(k).unwrap();
        let ke = a.assemble_element_scalar(k).unwrap();
        ms = ms.max(km.amax());
        vs = vs.max(kv.amax());
        es += ke.abs();
        e += ke;
        for (la, ga) in nodes.iter().enumerate() {
            for i in 0..s {
                v[ga * s + i] += kv[la * s + i];
                for (lb, gb) in nodes.iter().enumerate() {
                    for j in 0..s {
                        m[(ga * s + i, gb * s + j)] += km[(la * s + i, lb * s + j)];
                    }
                }
            }
        }
    }
    let csr = CsrAssembler::default().assemble(a).unwrap();
    let dense: DMatrix<f64> = DMatrix::from(&csr);
    c.close_slices(dense.as_slice(), m.as_slice(), 1e-12 * ms * 32.0 + 1e-300, "real_matrix", || what.to_string());
    let gv = VectorAssembler::default().assemble_vector(a).unwrap();
    c.close_slices(gv.as_slice(), v.as_slice(), 1e-12 * vs * 32.0 + 1e-300, "real_vector", || what.to_string());
    let ge = assemble_scalar(a).unwrap();
    c.close(ge, e, 1e-12 * es + 1e-300, "real_scalar", || what.to_string());
    c.count("real_elements", a.num_elements() as u64);
    let pat = CsrAssembler::<f64>::default().assemble_pattern(a);
    let mut want = BTreeSet::new();
    for k in 0..a.num_elements() {
        let mut nodes = vec![0; a.element_node_count(k)];
        a.populate_element_nodes(&mut nodes, k);
        for x in &nodes {
            for y in &nodes {
                for i in 0..s {
                    for j in 0..s {
                        want.insert((x * s + i, y * s + j));
                    }
                }
            }
        }
    }
    check_pattern(c, &pat, &want, n, "real_pattern");
}

pub fn c04(run: &mut Run) {
    run.section("pattern", "random connectivities (repeated nodes, isolated nodes, empty elements, no elements), solution dim 1..4: pattern equals the sorted set of coupled dof pairs", 3000, 60000, |c| {
        let dup = c.rng.bool();
        let s = Synth::random(&mut c.rng, 40, 60, dup);
        fingerprint(c, &s);
        c.desc(format!("sdim={} nodes={} conn={:?}", s.sdim, s.num_nodes, s.conn));
        let want = s.pattern();
        let asm = CsrAssembler::<f64>::default();
        if let Some(p) = c.no_panic("pattern_panic", || asm.assemble_pattern(&s)) {
            check_pattern(c, &p, &want, s.sdim * s.num_nodes, "pattern");
        }
    });
    run.section("matrix", "integer-valued element matrices: assembled CSR matrix equals the exact scatter-add; accumulating into prefilled matrices (larger patterns) adds exactly and leaves other entries; repeated use of one assembler", 2500, 50000, |c| {
        let asm = CsrAssembler::<f64>::default();
        let rounds = c.rng.range(1, 4);
        for _ in 0..rounds {
            let s = Synth::random(&mut c.rng, 30, 40, false).random_scale(&mut c.rng);
            fingerprint(c, &s);
            c.desc(format!("sdim={} nodes={} conn={:?}", s.sdim, s.num_nodes, s.conn));
            let n = s.sdim * s.num_nodes;
            let want = s.matrix();
            match asm.assemble(&s) {
                Ok(m) => {
                    c.check(m.nrows() == n && m.ncols() == n, "matrix_shape", || format!("{}x{}", m.nrows(), m.ncols()));
                    check_csr_exact(c, &m, &want, "matrix");
                }
                Err(e) => c.fail("matrix_err", format!("{e:?}")),
            }
            c.check(s.visit_counts().iter().all(|&v| v == 1), "matrix_visits", || format!("element matrices were requested {:?} times", s.visit_counts()));
            let extra = c.rng.bool();
            let (mut m, mut w) = prefilled(&mut c.rng, &s.pattern(), n, extra, s.scale);
            add_maps(&mut w, &want);
            let times = c.rng.range(1, 2);
            if times == 2 {
                add_maps(&mut w, &want);
            }
            for _ in 0..times {
                if let Err(e) = asm.assemble_into_csr(&mut m, &s) {
                    c.fail("matrix_err", format!("{e:?}"));
                }
            }
            check_csr_exact(c, &m, &w, "matrix_into");
            c.count("matrix_assemblies", 2);
        }
    });
    run.section("vector_scalar", "integer-valued element vectors and scalars (also repeated nodes within an element): exact scatter-add, accumulation into prefilled vectors, gather/add index maps", 3000, 60000, |c| {
        let asm = VectorAssembler::<f64>::default();
        for _ in 0..c.rng.range(1, 3) {
            let dup = c.rng.bool();
            let s = Synth::random(&mut c.rng, 40, 60, dup).random_scale(&mut c.rng);
            fingerprint(c, &s);
            c.desc(format!("sdim={} nodes={} conn={:?}", s.sdim, s.num_nodes, s.conn));
            let n = s.sdim * s.num_nodes;
            let want = s.vector();
            match asm.assemble_vector(&s) {
                Ok(v) => {
                    c.check(v.as_slice() == want, "vector", || format!("got {:?}, expected {want:?}", v.as_slice()));
                }
                Err(e) => c.fail("vector_err", format!("{e:?}")),
            }
            c.check(s.visit_counts().iter().all(|&v| v == 1), "vector_visits", || format!("{:?}", s.visit_counts()));
            let pre: Vec<f64> = (0..n).map(|_| s.scale * intval(&mut c.rng)).collect();
            let mut out = DVector::from_vec(pre.clone());
            if let Err(e) = asm.assemble_vector_into(&mut out, &s) {
                c.fail("vector_err", format!("{e:?}"));
            }
            let w: Vec<f64> = pre.iter().zip(&want).map(|(a, b)| a + b).collect();
            c.check(out.as_slice() == w, "vector_into", || format!("got {:?}, expected {w:?}", out.as_slice()));
            match assemble_scalar(&s) {
                Ok(x) => {
                    c.check(x == s.scalar(), "scalar", || format!("got {x}, expected {}", s.scalar()));
                }
                Err(e) => c.fail("scalar_err", format!("{e:?}")),
            }
            c.count("vector_entries_compared", 2 * n as u64);
            // gather / add
            if s.num_nodes > 0 {
                let k = c.rng.range(0, 10);
                let idx: Vec<usize> = (0..k).map(|_| c.rng.below(s.num_nodes)).collect();
                let d = s.sdim;
                let global = DVector::from_vec(pre.clone());
                let mut local = DVector::from_element(k * d, 5.5);
                gather_global_to_local(&global, &mut local, &idx, d);
                let wl: Vec<f64> = idx.iter().flat_map(|&g| (0..d).map(move |i| (g, i))).map(|(g, i)| pre[g * d + i]).collect();
                c.check(local.as_slice() == wl, "gather", || format!("idx {idx:?}: got {:?}, expected {wl:?}", local.as_slice()));
                c.check(global.as_slice() == pre, "gather_modifies", || "global changed".into());
                let add: Vec<f64> = (0..k * d).map(|_| s.scale * intval(&mut c.rng)).collect();
                let mut g2 = global.clone();
                add_local_to_global(&DVector::from_vec(add.clone()), &mut g2, &idx, d);
                let mut wg = pre.clone();
                for (l, &g) in idx.iter().enumerate() {
                    for i in 0..d {
                        wg[g * d + i] += add[l * d + i];
                    }
                }
                c.check(g2.as_slice() == wg, "add_local", || format!("idx {idx:?}: got {:?}, expected {wg:?}", g2.as_slice()));
                c.count("gather_scatter_ops", 2);
            }
        }
    });
    run.section("large", "thousands of small elements, elements of up to 200 degrees of freedom, hub nodes shared by hundreds of elements, up to 40 components per node: exact pattern, matrix, vector, scalar, fresh and accumulated", 60, 15000, |c| {
        let s = Synth::large(&mut c.rng).random_scale(&mut c.rng);
        fingerprint(c, &s);
        c.desc(format!("sdim {} nodes {} elements {} longest {}", s.sdim, s.num_nodes, s.conn.len(), s.conn.iter().map(|c| c.len()).max().unwrap_or(0)));
        let n = s.sdim * s.num_nodes;
        let asm = CsrAssembler::<f64>::default();
        let pat = s.pattern();
        check_pattern(c, &asm.assemble_pattern(&s), &pat, n, "pattern");
        let want = s.matrix();
        match asm.assemble(&s) {
            Ok(m) => { check_csr_exact(c, &m, &want, "matrix"); }
            Err(e) => c.fail("matrix_err", format!("{e:?}")),
        }
        let (mut m, mut w) = prefilled(&mut c.rng, &pat, n, true, s.scale);
        add_maps(&mut w, &want);
        if let Err(e) = asm.assemble_into_csr(&mut m, &s) {
            c.fail("matrix_err", format!("{e:?}"));
        }
        check_csr_exact(c, &m, &w, "matrix_into");
        let wv = s.vector();
        let va = VectorAssembler::<f64>::default();
        match va.assemble_vector(&s) {
            Ok(v) => { c.check(v.as_slice() == wv, "vector", || "large vector differs".into()); }
            Err(e) => c.fail("vector_err", format!("{e:?}")),
        }
        let pre: Vec<f64> = (0..n).map(|_| s.scale * intval(&mut c.rng)).collect();
        let mut out = DVector::from_vec(pre.clone());
        if let Err(e) = va.assemble_vector_into(&mut out, &s) {
            c.fail("vector_err", format!("{e:?}"));
        }
        let w: Vec<f64> = pre.iter().zip(&wv).map(|(a, b)| a + b).collect();
        c.check(out.as_slice() == w, "vector_into", || "large accumulated vector differs".into());
        match assemble_scalar(&s) {
            Ok(x) => { c.check(x == s.scalar(), "scalar", || format!("got {x}, expected {}", s.scalar())); }
            Err(e) => c.fail("scalar_err", format!("{e:?}")),
        }
        c.check(s.visit_counts().iter().all(|&v| v == 5), "visits", || "elements not visited exactly once per assembly".into());
        // a small problem on the same objects afterwards
        let t = Synth::random(&mut c.rng, 10, 12, false);
        match asm.assemble(&t) {
            Ok(m) => { check_csr_exact(c, &m, &t.matrix(), "matrix_after_large"); }
            Err(e) => c.fail("matrix_err", format!("{e:?}")),
        }
        c.count("large_problems", 1);
    });
    run.require("large_problems", 30);
    run.section("real", "Laplace and Neo-Hookean assemblers on random meshes of all 10 element kinds: global matrix, vector, scalar and pattern equal the scattered element contributions", 250, 4000, |c| {
        let kind = c.rng.below(10);
        let mut o = Opts::any(if kind < 4 { 24 } else { 8 });
        if kind >= 8 { o.max_cells = 6; }
        let solid = c.rng.bool();
        with_mesh_kind!(kind, &mut c.rng, o, |mesh, name| {
            c.desc(format!("{name} {} cells solid={solid}", mesh.connectivity().len()));
            c.key((name, mesh.connectivity().iter().map(|x| fenris::connectivity::Connectivity::vertex_indices(x).to_vec()).collect::<Vec<_>>()));
            let d = mesh.vertices()[0].coords.len();
            if solid {
                let qt = mesh.canonical_stiffness_quadrature().with_uniform_data(LameParameters { mu: 1.3, lambda: 0.7 });
                let h = mesh.vertices().iter().flat_map(|v| v.coords.iter().map(|x| x.abs())).fold(1e-3, f64::max);
                let u = DVector::from_fn(mesh.vertices().len() * d, |_, _| c.rng.f(-1e-4, 1e-4) * h.min(1.0));
                let mat = NeoHookeanMaterial;
                let op = MaterialEllipticOperator::new(&mat);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&op).with_quadrature_table(&qt).with_u(&u).build();
                real_problem_matches_local_sums(c, &a, name);
            } else {
                let qt = mesh.canonical_stiffness_quadrature();
                let u = DVector::from_fn(mesh.vertices().len(), |_, _| c.rng.f(-1.0, 1.0));
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&qt).with_u(&u).build();
                real_problem_matches_local_sums(c, &a, name);
            }
            // mass matrix through the same path
            let s = c.rng.range(1, 3);
            let qm = mesh.canonical_mass_quadrature().with_uniform_data(Density(2.5));
            let a = ElementMassAssembler::with_solution_dim(s).with_space(&mesh).with_quadrature_table(&qm);
            let csr = CsrAssembler::default().assemble(&a).unwrap();
            let n = s * mesh.vertices().len();
            let mut m = DMatrix::<f64>::zeros(n, n);
            for (e, conn) in mesh.connectivity().iter().enumerate() {
                let nodes = fenris::connectivity::Connectivity::vertex_indices(conn).to_vec();
                let k = a.assemble_element_matrix(e).unwrap();
                for (la, ga) in nodes.iter().enumerate() {
                    for (lb, gb) in nodes.iter().enumerate() {
                        for i in 0..s {
                            for j in 0..s {
                                m[(ga * s + i, gb * s + j)] += k[(la * s + i, lb * s + j)];
                            }
                        }
                    }
                }
            }
            c.close_slices(DMatrix::from(&csr).as_slice(), m.as_slice(), 1e-13 * m.amax() + 1e-300, "mass_matrix", || name.to_string());
        });
    });
    run.require("pattern_entries", 10_000);
    run.require("matrix_entries_compared", 100_000);
    run.require("gather_scatter_ops", 1_000);
    run.require("real_elements", 500);
}

/// A dynamically typed composition of assemblers together with its meaning
pub enum Comp<'a> {
    Base(&'a Synth),
}

fn eq_all<A>(c: &mut Case, a: &A, nodes: usize, conn: &[Vec<usize>], mats: &[DMatrix<f64>], vecs: &[DVector<f64>], scal: &[f64], what: &str)
where
    A: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64>,
{
    let s = a.solution_dim();
    c.check(a.num_elements() == conn.len(), "num_elements", || format!("{what}: {} elements, expected {}", a.num_elements(), conn.len()));
    c.check(a.num_nodes() == nodes, "num_nodes", || format!("{what}: {} nodes, expected {nodes}", a.num_nodes()));
    if a.num_elements() != conn.len() {
        return;
    }
    for e in 0..conn.len() {
        c.count("composed_elements", 1);
        let r = c.catch(|| {
            let k = a.element_node_count(e);
            let mut out = vec![usize::MAX; k];
            a.populate_element_nodes(&mut out, e);
            out
        });
        match r {
            Ok(out) => {
                if !c.check(out == conn[e], "nodes", || format!("{what}: element {e} nodes {out:?}, expected {:?}", conn[e])) {
                    return;
                }
            }
            Err(p) => {
                c.fail("nodes_panic", format!("{what}: element {e}: {p}"));
                return;
            }
        }
        let m = a.assemble_element_matrix(e);
        c.check(m.as_ref().ok() == Some(&mats[e]), "element_matrix", || format!("{what}: element {e} matrix {m:?}, expected {}", mats[e]));
        let v = a.assemble_element_vector(e);
        c.check(v.as_ref().ok() == Some(&vecs[e]), "element_vector", || format!("{what}: element {e} vector {v:?}, expected {}", vecs[e]));
        let x = a.assemble_element_scalar(e);
        c.check(x.as_ref().ok() == Some(&scal[e]), "element_scalar", || format!("{what}: element {e} scalar {x:?}, expected {}", scal[e]));
    }
    // global results of the composition
    let mut whole = Synth { sdim: s, num_nodes: nodes, conn: conn.to_vec(), mats: mats.to_vec(), vecs: vecs.to_vec(), scalars: scal.to_vec(), ..Synth::new(&mut Rng::new(1), s, nodes, conn.to_vec()) };
    whole.check_ownership = false;
    let dup = conn.iter().any(|c| {
        let mut d = c.clone();
        d.sort();
        d.windows(2).any(|w| w[0] == w[1])
    });
    if !dup {
        match CsrAssembler::default().assemble(a) {
            Ok(m) => {
                check_csr_exact(c, &m, &whole.matrix(), "global_matrix");
            }
            Err(e) => c.fail("global_err", format!("{what}: {e:?}")),
        }
    }
    match VectorAssembler::default().assemble_vector(a) {
        Ok(v) => {
            c.check(v.as_slice() == whole.vector(), "global_vector", || format!("{what}: {:?} vs {:?}", v.as_slice(), whole.vector()));
        }
        Err(e) => c.fail("global_err", format!("{what}: {e:?}")),
    }
    match assemble_scalar(a) {
        Ok(x) => {
            c.check(x == whole.scalar(), "global_scalar", || format!("{what}: {x} vs {}", whole.scalar()));
        }
        Err(e) => c.fail("global_err", format!("{what}: {e:?}")),
    }
}

fn parts(rng: &mut Rng, max_parts: usize) -> Vec<Synth> {
    let nodes = rng.range(1, 30);
    let sdim = rng.range(1, 3);
    let k = rng.range(1, max_parts);
    let p_empty = *rng.pick(&[0.0, 0.3, 0.7]);
    (0..k)
        .map(|_| {
            let ne = if rng.chance(p_empty) { 0 } else { rng.range(1, 6) };
            let conn = (0..ne)
                .map(|_| {
                    let k = rng.range(1, 5.min(nodes));
                    let mut p = rng.perm(nodes);
                    p.truncate(k);
                    p
                })
                .collect();
            Synth::new(rng, sdim, nodes, conn)
        })
        .collect()
}

fn concat(ps: &[Synth]) -> (Vec<Vec<usize>>, Vec<DMatrix<f64>>, Vec<DVector<f64>>, Vec<f64>) {
    let mut r = (vec![], vec![], vec![], vec![]);
    for p in ps {
        r.0.extend(p.conn.iter().cloned());
        r.1.extend(p.mats.iter().cloned());
        r.2.extend(p.vecs.iter().cloned());
        r.3.extend(p.scalars.iter().cloned());
    }
    r
}

pub fn c06(run: &mut Run) {
    run.section("aggregate", "lists of 1..6 parts (parts without elements anywhere) over shared nodes: every aggregate element is the right part's element, every part element visited once, global results are the exact sum", 2500, 50000, |c| {
        let ps = parts(&mut c.rng, 6);
        c.desc(format!("sdim {} nodes {} parts {:?}", ps[0].sdim, ps[0].num_nodes, ps.iter().map(|p| p.conn.clone()).collect::<Vec<_>>()));
        c.key(ps.iter().map(|p| p.conn.clone()).collect::<Vec<_>>());
        if ps.iter().any(|p| p.conn.is_empty()) {
            c.count("aggregates_with_empty_parts", 1);
        }
        let (conn, mats, vecs, sc) = concat(&ps);
        let Some(agg) = c.no_panic("aggregate_panic", || AggregateElementAssembler::from_assemblers(&ps)) else { return };
        eq_all(c, &agg, ps[0].num_nodes, &conn, &mats, &vecs, &sc, "aggregate");
        for p in &ps {
            p.reset();
        }
        let _ = VectorAssembler::<f64>::default().assemble_vector(&agg);
        c.check(ps.iter().all(|p| p.visit_counts().iter().all(|&v| v == 1)), "aggregate_visits", || format!("{:?}", ps.iter().map(|p| p.visit_counts()).collect::<Vec<_>>()));
        // an index outside is refused
        let n = conn.len();
        let r = c.catch(|| agg.element_node_count(n));
        c.check(r.is_err(), "aggregate_oob", || format!("element {n} of {n} reported {r:?} nodes"));
    });
    run.section("large", "aggregates of hundreds of parts and of parts with hundreds of elements (empty parts between), mapped and transformed: every element is the right part's element, every one visited once", 60, 15000, |c| {
        let nodes = c.rng.range(2, 60);
        let sdim = c.rng.range(1, 2);
        let k = *c.rng.pick(&[2usize, 5, 20, 70, 140, 300]);
        let big = if k <= 20 { *c.rng.pick(&[20usize, 150, 600]) } else { 8 };
        let p_empty = *c.rng.pick(&[0.0, 0.3, 0.7]);
        let ps: Vec<Synth> = (0..k)
            .map(|_| {
                let ne = if c.rng.chance(p_empty) { 0 } else { c.rng.range(1, big) };
                let conn = (0..ne).map(|_| { let mut e: Vec<usize> = vec![c.rng.below(nodes)]; let x = c.rng.below(nodes); if x != e[0] { e.push(x); } e }).collect();
                Synth::new(&mut c.rng, sdim, nodes, conn)
            })
            .collect();
        c.desc(format!("sdim {sdim} nodes {nodes} part sizes {:?}", ps.iter().map(|p| p.conn.len()).collect::<Vec<_>>()));
        c.key(ps.iter().map(|p| p.conn.clone()).collect::<Vec<_>>());
        let (conn, mats, vecs, sc) = concat(&ps);
        let Some(agg) = c.no_panic("aggregate_panic", || AggregateElementAssembler::from_assemblers(&ps)) else { return };
        eq_all(c, &agg, nodes, &conn, &mats, &vecs, &sc, "large aggregate");
        for p in &ps {
            p.reset();
        }
        let _ = VectorAssembler::<f64>::default().assemble_vector(&agg);
        c.check(ps.iter().all(|p| p.visit_counts().iter().all(|&v| v == 1)), "aggregate_visits", || "not every element visited exactly once".into());
        let table = c.rng.perm(nodes);
        let mapped: Vec<Vec<usize>> = conn.iter().map(|e| e.iter().map(|&i| table[i] + 3).collect()).collect();
        let agg = AggregateElementAssembler::from_assemblers(&ps).map_element_nodes(nodes + 3, |i| table[i] + 3);
        eq_all(c, &agg, nodes + 3, &mapped, &mats, &vecs, &sc, "map of large aggregate");
        let sc2: Vec<f64> = sc.iter().map(|x| 3.0 * x + 1.0).collect();
        let agg = AggregateElementAssembler::from_assemblers(&ps).transform_element_scalar(|x: f64| Ok(3.0 * x + 1.0));
        eq_all(c, &agg, nodes, &conn, &mats, &vecs, &sc2, "transform of large aggregate");
        // elements with many nodes
        let kk = c.rng.range(30, 120);
        let p = Synth::new(&mut c.rng, 1, 130, vec![(0..kk).map(|i| (i * 7) % 130).collect(), vec![3]]);
        let off = c.rng.below(50);
        let mc: Vec<Vec<usize>> = p.conn.iter().map(|e| e.iter().map(|i| i + off).collect()).collect();
        let a = clone_synth(&p).map_element_nodes(130 + off, |i| i + off);
        eq_all(c, &a, 130 + off, &mc, &p.mats, &p.vecs, &p.scalars, "map of long elements");
        let tm = |mut m: DMatrixViewMut<f64>| -> eyre::Result<()> { let n = m.nrows(); for i in 0..n { for j in 0..n { m[(i, j)] = 2.0 * m[(i, j)] + (i * n + j) as f64; } } Ok(()) };
        let mt: Vec<DMatrix<f64>> = p.mats.iter().map(|m| { let mut q = m.clone(); tm((&mut q).into()).unwrap(); q }).collect();
        eq_all(c, &clone_synth(&p).transform_element_matrix(tm), 130, &p.conn, &mt, &p.vecs, &p.scalars, "transform of long elements");
    });
    run.section("aggregate_mismatch", "parts of different node counts or solution dimensions, or no parts, are refused", 300, 3000, |c| {
        let mut ps = parts(&mut c.rng, 4);
        let mode = c.rng.below(3);
        match mode {
            0 => ps.clear(),
            1 => {
                let s = Synth::new(&mut c.rng, ps[0].sdim + 1, ps[0].num_nodes, vec![]);
                let i = c.rng.range(1, ps.len());
                ps.insert(i, s);
            }
            _ => {
                let s = Synth::new(&mut c.rng, ps[0].sdim, ps[0].num_nodes + 1, vec![]);
                let i = c.rng.range(1, ps.len());
                ps.insert(i, s);
            }
        }
        c.key((mode, ps.len(), ps.first().map(|p| (p.sdim, p.num_nodes))));
        let r = c.catch(|| AggregateElementAssembler::from_assemblers(&ps).num_elements());
        c.check(r.is_err(), "mismatch_accepted", || format!("mode {mode} accepted"));
    });
    run.section("transform", "transformations (scaling, non-linear entrywise, permuting) applied to matrices, vectors and scalars exactly once per element, the other quantities passed through, also nested and inside aggregates; failing transformations surface their error", 1500, 30000, |c| {
        let ps = parts(&mut c.rng, 3);
        let p = &ps[0];
        c.desc(format!("sdim {} nodes {} conn {:?}", p.sdim, p.num_nodes, p.conn));
        c.key((&p.conn, p.sdim));
        let (k, b) = (c.rng.range(2, 5) as f64, intval(&mut c.rng));
        let f = move |x: f64| k * x + b;
        let g = |x: f64| x * x - 3.0 * x;
        let tm = |mut m: DMatrixViewMut<f64>| -> eyre::Result<()> {
            // non-symmetric action: entry depends on its position
            let n = m.nrows();
            for i in 0..n {
                for j in 0..m.ncols() {
                    m[(i, j)] = f(m[(i, j)]) + (i * n + j) as f64;
                }
            }
            Ok(())
        };
        let tv = |mut v: DVectorViewMut<f64>| -> eyre::Result<()> {
            for i in 0..v.len() {
                v[i] = g(v[i]) + i as f64;
            }
            Ok(())
        };
        let mats_t: Vec<DMatrix<f64>> = p.mats.iter().map(|m| { let mut q = m.clone(); tm((&mut q).into()).unwrap(); q }).collect();
        let vecs_t: Vec<DVector<f64>> = p.vecs.iter().map(|m| { let mut q = m.clone(); tv((&mut q).into()).unwrap(); q }).collect();
        let sc_t: Vec<f64> = p.scalars.iter().map(|x| g(*x)).collect();
        let mk = || clone_synth(p);
        eq_all(c, &mk().transform_element_matrix(tm), p.num_nodes, &p.conn, &mats_t, &p.vecs, &p.scalars, "transform matrix");
        eq_all(c, &mk().transform_element_vector(tv), p.num_nodes, &p.conn, &p.mats, &vecs_t, &p.scalars, "transform vector");
        eq_all(c, &mk().transform_element_scalar(|x| Ok(g(x))), p.num_nodes, &p.conn, &p.mats, &p.vecs, &sc_t, "transform scalar");
        // nested: matrix of vector of scalar
        let nested = ElementMatrixAssembler::transform_element_matrix(mk().transform_element_vector(tv).transform_element_scalar(|x| Ok(g(x))), tm);
        eq_all(c, &nested, p.num_nodes, &p.conn, &mats_t, &vecs_t, &sc_t, "nested transforms");
        // twice
        let mats_tt: Vec<DMatrix<f64>> = mats_t.iter().map(|m| { let mut q = m.clone(); tm((&mut q).into()).unwrap(); q }).collect();
        eq_all(c, &mk().transform_element_matrix(tm).transform_element_matrix(tm), p.num_nodes, &p.conn, &mats_tt, &p.vecs, &p.scalars, "double transform");
        // aggregate of transformed parts
        let tr: Vec<_> = ps.iter().map(|p| clone_synth(p).transform_element_matrix(tm)).collect();
        let agg = AggregateElementAssembler::from_assemblers(&tr);
        let (conn, mats, vecs, sc) = concat(&ps);
        let mats: Vec<_> = mats.iter().map(|m| { let mut q = m.clone(); tm((&mut q).into()).unwrap(); q }).collect();
        eq_all(c, &agg, p.num_nodes, &conn, &mats, &vecs, &sc, "aggregate of transforms");
        // failing transformations
        if !p.conn.is_empty() {
            let e = c.rng.below(p.conn.len());
            let fm = |_: DMatrixViewMut<f64>| -> eyre::Result<()> { Err(eyre::eyre!("transform-fault")) };
            let fv = |_: DVectorViewMut<f64>| -> eyre::Result<()> { Err(eyre::eyre!("transform-fault")) };
            let a = mk().transform_element_matrix(fm);
            c.check(a.assemble_element_matrix(e).map_err(|x| x.to_string()) == Err("transform-fault".to_string()), "transform_error", || "matrix transformation error lost".into());
            c.check(CsrAssembler::default().assemble(&a).is_err(), "transform_error_global", || "global assembly ignored failing transformation".into());
            c.check(a.assemble_element_vector(e).is_ok() && a.assemble_element_scalar(e).is_ok(), "transform_error_passthrough", || "other quantities affected".into());
            let a = mk().transform_element_vector(fv);
            c.check(a.assemble_element_vector(e).map_err(|x| x.to_string()) == Err("transform-fault".to_string()), "transform_error", || "vector transformation error lost".into());
            c.check(VectorAssembler::default().assemble_vector(&a).is_err(), "transform_error_global", || "global assembly ignored failing transformation".into());
            let a = mk().transform_element_scalar(|_| Err(eyre::eyre!("transform-fault")));
            c.check(a.assemble_element_scalar(e).map_err(|x| x.to_string()) == Err("transform-fault".to_string()), "transform_error", || "scalar transformation error lost".into());
            c.check(assemble_scalar(&a).is_err(), "transform_error_global", || "global assembly ignored failing transformation".into());
            // base failure: the transformation must not turn an error into success
            let mut bad = mk();
            bad.fail.insert(e);
            bad.dirty_fail = true;
            let a = bad.transform_element_matrix(tm);
            c.check(a.assemble_element_matrix(e).is_err() && a.assemble_element_vector(e).is_err() && a.assemble_element_scalar(e).is_err(), "base_error_lost", || "error of the base assembler lost".into());
            c.count("failing_compositions", 4);
        }
    });
    run.section("map_nodes", "node maps (offsets, permutations, strided, and node-merging maps for vectors) into larger index spaces: same element quantities scattered to mapped nodes; nested with aggregates", 1500, 30000, |c| {
        let ps = parts(&mut c.rng, 4);
        let p = &ps[0];
        let n = p.num_nodes;
        let extra = c.rng.below(10);
        let newn = n + extra;
        let mut table = c.rng.perm(newn);
        table.truncate(n);
        let f = |i: usize| table[i];
        let mapped: Vec<Vec<usize>> = p.conn.iter().map(|e| e.iter().map(|&i| f(i)).collect()).collect();
        c.desc(format!("sdim {} nodes {}->{} conn {:?} map {:?}", p.sdim, n, newn, p.conn, table));
        c.key((&p.conn, &table));
        let a = clone_synth(p).map_element_nodes(newn, f);
        eq_all(c, &a, newn, &mapped, &p.mats, &p.vecs, &p.scalars, "map");
        // twice
        let off = c.rng.below(7);
        let a = clone_synth(p).map_element_nodes(newn, f).map_element_nodes(newn + off, |i| i + off);
        let mapped2: Vec<Vec<usize>> = mapped.iter().map(|e| e.iter().map(|&i| i + off).collect()).collect();
        eq_all(c, &a, newn + off, &mapped2, &p.mats, &p.vecs, &p.scalars, "map twice");
        // map of an aggregate
        let (conn, mats, vecs, sc) = concat(&ps);
        let agg = AggregateElementAssembler::from_assemblers(&ps).map_element_nodes(newn, f);
        let mc: Vec<Vec<usize>> = conn.iter().map(|e| e.iter().map(|&i| f(i)).collect()).collect();
        eq_all(c, &agg, newn, &mc, &mats, &vecs, &sc, "map of aggregate");
        // aggregate of maps: each part its own offset
        let k = ps.len();
        let maps: Vec<_> = ps.iter().enumerate().map(|(i, p)| (i * n, clone_synth(p))).collect();
        let total = k * n;
        let parts: Vec<_> = maps.into_iter().map(|(off, p)| p.map_element_nodes(total, Box::new(move |i: usize| i + off) as Box<dyn Fn(usize) -> usize>)).collect();
        let agg = AggregateElementAssembler::from_assemblers(&parts);
        let mut mc = vec![];
        for (i, p) in ps.iter().enumerate() {
            for e in &p.conn {
                mc.push(e.iter().map(|x| x + i * n).collect::<Vec<_>>());
            }
        }
        eq_all(c, &agg, total, &mc, &mats, &vecs, &sc, "aggregate of maps");
        // merging map (several nodes to one): vectors and scalars
        let m = c.rng.range(1, n);
        let merged = clone_synth(p).map_element_nodes(m, |i| i % m);
        let mc: Vec<Vec<usize>> = p.conn.iter().map(|e| e.iter().map(|&i| i % m).collect()).collect();
        eq_all(c, &merged, m, &mc, &p.mats, &p.vecs, &p.scalars, "merging map");
    });
    run.require("composed_elements", 10_000);
    run.require("aggregates_with_empty_parts", 200);
    run.require("failing_compositions", 500);
}

pub fn clone_synth(p: &Synth) -> Synth {
    let mut q = Synth::new(&mut Rng::new(1), p.sdim, p.num_nodes, p.conn.clone());
    q.mats = p.mats.clone();
    q.vecs = p.vecs.clone();
    q.scalars = p.scalars.clone();
    q.fail = p.fail.clone();
    q.dirty_fail = p.dirty_fail;
    q.delay = p.delay.clone();
    q.check_ownership = p.check_ownership;
    q
}

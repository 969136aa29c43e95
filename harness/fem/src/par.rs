use crate::asm::*;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::LaplaceOperator;
use fenris::nalgebra::DVector;
use fenris::nalgebra_sparse::CsrMatrix;
use fenris::quadrature::{CanonicalMassQuadrature, CanonicalStiffnessQuadrature};
use fenris_nested_vec::NestedVec;
use fenris_paradis::DisjointSubsets;
use fenris_solid::materials::{LameParameters, StVKMaterial};
use fenris_solid::MaterialEllipticOperator;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;
use vfem::synth::*;
use vfem::{with_mesh_kind, Opts};
use vlib::sanitize::{sanitized, Tool};
use vlib::{Case, Rng, Run};

pub fn pools() -> &'static Vec<ThreadPool> {
    static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    P.get_or_init(|| [1usize, 2, 3, 4, 8, 16].iter().map(|&n| ThreadPoolBuilder::new().num_threads(n).stack_size(8 << 20).build().unwrap()).collect())
}

/// Valid colorings of different shapes: the library's greedy one, one element per color, random greedy, split colors
pub fn coloring(rng: &mut Rng, s: &Synth, c: &mut Case) -> Vec<DisjointSubsets> {
    coloring_of(rng, &s.conn, || color_nodes(s), c)
}
pub fn coloring_of(rng: &mut Rng, conn: &[Vec<usize>], lib: impl FnOnce() -> Vec<DisjointSubsets>, c: &mut Case) -> Vec<DisjointSubsets> {
    let mode = rng.below(4);
    let mk = |groups: Vec<Vec<usize>>| -> Vec<DisjointSubsets> {
        groups
            .into_iter()
            .map(|g| {
                let mut nv = NestedVec::new();
                for &e in &g {
                    nv.push(&conn[e]);
                }
                DisjointSubsets::try_from_disjoint_subsets(nv, g).expect("coloring")
            })
            .collect()
    };
    match mode {
        0 | 1 => {
            c.count("greedy_colorings", 1);
            lib()
        }
        2 => {
            let p = rng.perm(conn.len());
            mk(p.into_iter().map(|e| vec![e]).collect())
        }
        _ => {
            // greedy over a random order, choosing a random admissible color; color order shuffled
            let mut groups: Vec<(BTreeSet<usize>, Vec<usize>)> = vec![];
            for e in rng.perm(conn.len()) {
                let ok: Vec<usize> = (0..groups.len()).filter(|&g| conn[e].iter().all(|n| !groups[g].0.contains(n))).collect();
                let g = if ok.is_empty() || rng.chance(0.1) {
                    groups.push(Default::default());
                    groups.len() - 1
                } else {
                    *rng.pick(&ok)
                };
                groups[g].0.extend(conn[e].iter());
                groups[g].1.push(e);
            }
            rng.shuffle(&mut groups);
            let mut r = mk(groups.into_iter().map(|g| g.1).collect());
            if rng.chance(0.2) {
                // a color without elements changes nothing
                r.push(mk(vec![vec![]]).pop().unwrap());
            }
            r
        }
    }
}

pub struct Assemblers {
    m: CsrParAssembler<f64>,
    v: VectorParAssembler<f64>,
}
impl Assemblers {
    pub fn new() -> Self {
        Assemblers { m: CsrParAssembler::default(), v: VectorParAssembler::default() }
    }
}

fn once_each(c: &mut Case, s: &Synth, what: &str) {
    let v = s.visit_counts();
    c.check(v.iter().all(|&x| x == 1), "visits", || format!("{what}: elements visited {v:?} times"));
    c.check(s.conflicts.load(SeqCst) == 0, "concurrent_neighbours", || format!("{what}: elements sharing nodes were assembled concurrently"));
    c.track("max_concurrent_elements", s.max_active.load(SeqCst) as f64);
    if s.max_active.load(SeqCst) > 1 {
        c.count("assemblies_with_real_concurrency", 1);
    }
    c.count("element_visits", v.len() as u64);
    s.reset();
}

pub fn verify_parallel(c: &mut Case, a: &Assemblers, s: &Synth, colors: &[DisjointSubsets], rng: &mut Rng) {
    let n = s.sdim * s.num_nodes;
    let what = format!("sdim {} nodes {} elements {}", s.sdim, s.num_nodes, s.conn.len());
    s.reset();
    let p = a.m.assemble_pattern(s);
    check_pattern(c, &p, &s.pattern(), n, "par_pattern");
    let want = s.matrix();
    match a.m.assemble(colors, s) {
        Ok(m) => {
            check_csr_exact(c, &m, &want, "par_matrix");
        }
        Err(e) => c.fail("par_err", format!("{what}: {e:?}")),
    }
    once_each(c, s, "matrix");
    let (mut m, mut w) = prefilled(rng, &s.pattern(), n, true, s.scale);
    add_maps(&mut w, &want);
    if let Err(e) = a.m.assemble_into_csr(&mut m, colors, s) {
        c.fail("par_err", format!("{what}: {e:?}"));
    }
    check_csr_exact(c, &m, &w, "par_matrix_into");
    once_each(c, s, "matrix into");
    let wv = s.vector();
    match a.v.assemble_vector(colors, s) {
        Ok(v) => {
            c.check(v.as_slice() == wv, "par_vector", || format!("{what}: {:?} vs {wv:?}", v.as_slice()));
        }
        Err(e) => c.fail("par_err", format!("{what}: {e:?}")),
    }
    once_each(c, s, "vector");
    let pre: Vec<f64> = (0..n).map(|_| s.scale * intval(rng)).collect();
    let mut out = DVector::from_vec(pre.clone());
    if let Err(e) = a.v.assemble_vector_into(&mut out, colors, s) {
        c.fail("par_err", format!("{what}: {e:?}"));
    }
    let wv: Vec<f64> = pre.iter().zip(&wv).map(|(a, b)| a + b).collect();
    c.check(out.as_slice() == wv, "par_vector_into", || format!("{what}: {:?} vs {wv:?}", out.as_slice()));
    once_each(c, s, "vector into");
    s.reset();
    match par_assemble_scalar(s) {
        Ok(x) => {
            c.check(x == s.scalar(), "par_scalar", || format!("{what}: {x} vs {}", s.scalar()));
        }
        Err(e) => c.fail("par_err", format!("{what}: {e:?}")),
    }
    let v = s.visit_counts();
    c.check(v.iter().all(|&x| x == 1), "visits", || format!("scalar: elements visited {v:?} times"));
    s.reset();
}

fn instrumented(rng: &mut Rng, max_e: usize, max_n: usize) -> Synth {
    let mut s = Synth::random(rng, max_e, max_n, false).random_scale(rng);
    s.check_ownership = true;
    match rng.below(4) {
        0 => s.random_delays(rng, 0.3, 60),
        1 => s.random_delays(rng, 1.0, 15),
        2 => s.random_delays(rng, 0.05, 300),
        _ => {}
    }
    s
}

pub fn instrumented_large(rng: &mut Rng) -> Synth {
    let mut s = Synth::large(rng).random_scale(rng);
    s.check_ownership = true;
    if rng.bool() {
        s.random_delays(rng, 0.02, 60);
    }
    s
}

fn csr_close(c: &mut Case, a: &CsrMatrix<f64>, b: &CsrMatrix<f64>, sig: &str, what: &str) {
    if !c.check(a.pattern() == b.pattern(), sig, || format!("{what}: parallel pattern differs from serial pattern")) {
        return;
    }
    let s = b.values().iter().fold(0.0f64, |x, y| x.max(y.abs()));
    c.close_slices(a.values(), b.values(), 1e-12 * s + 1e-300, sig, || what.to_string());
}

fn real_par<A>(c: &mut Case, asm: &Assemblers, a: &A, colors: &[DisjointSubsets], what: &str)
where
    A: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> + Sync,
{
    let ms = CsrAssembler::default().assemble(a).unwrap();
    let mp = asm.m.assemble(colors, a).unwrap();
    csr_close(c, &mp, &ms, "real_matrix", what);
    let vs = VectorAssembler::default().assemble_vector(a).unwrap();
    let vp = asm.v.assemble_vector(colors, a).unwrap();
    // residuals can cancel to nearly zero: scale by the element contributions
    let scale = (0..a.num_elements()).map(|e| a.assemble_element_vector(e).unwrap().amax()).fold(0.0, f64::max);
    c.close_slices(vp.as_slice(), vs.as_slice(), 1e-12 * scale * 30.0 + 1e-300, "real_vector", || what.to_string());
    let es: f64 = assemble_scalar(a).unwrap();
    let ep = par_assemble_scalar(a).unwrap();
    let mag: f64 = (0..a.num_elements()).map(|e| a.assemble_element_scalar(e).unwrap().abs()).sum();
    c.close(ep, es, 1e-12 * mag + 1e-300, "real_scalar", || what.to_string());
    c.count("real_elements", a.num_elements() as u64);
}

pub fn c03(run: &mut Run) {
    run.section("synthetic", "exactly representable element contributions, 4 kinds of valid colorings, pools of 1..16 threads, injected delays, visit counters and a neighbour-ownership monitor: pattern, matrix, vector, scalar (fresh and accumulated) equal the exact scatter-add bit for bit", 2500, 60000, |c| {
        let mut rng = c.rng.clone();
        let s = instrumented(&mut rng, 60, 80);
        fingerprint(c, &s);
        let colors = coloring(&mut rng, &s, c);
        let pool = rng.pick(pools());
        c.desc(format!("sdim {} nodes {} conn {:?} pool {}", s.sdim, s.num_nodes, s.conn, pool.current_num_threads()));
        let a = Assemblers::new();
        c.key(pool.current_num_threads());
        pool.install(|| verify_parallel(c, &a, &s, &colors, &mut rng));
    });
    run.section("large", "thousands of small elements, elements of up to 200 degrees of freedom, hub nodes shared by hundreds of elements, up to 40 components per node; assemblers shared with small problems: pattern, matrix, vector, scalar equal the exact scatter-add bit for bit", 200, 8000, |c| {
        let mut rng = c.rng.clone();
        let a = Assemblers::new();
        let k = rng.range(1, 3);
        let at = rng.below(k);
        for i in 0..k {
            let s = if i == at { instrumented_large(&mut rng) } else { instrumented(&mut rng, 20, 30) };
            fingerprint(c, &s);
            let colors = coloring(&mut rng, &s, c);
            let pool = rng.pick(pools());
            c.desc(format!("sdim {} nodes {} elements {} longest {} pool {}", s.sdim, s.num_nodes, s.conn.len(), s.conn.iter().map(|c| c.len()).max().unwrap_or(0), pool.current_num_threads()));
            pool.install(|| verify_parallel(c, &a, &s, &colors, &mut rng));
            c.count("large_elements", if i == at { s.conn.len() as u64 } else { 0 });
        }
    });
    run.require("large_elements", 5_000);
    run.section("reuse", "one pair of parallel assembler objects used for 3..8 problems of changing sizes, node counts and solution dimensions, on changing pools", 700, 20000, |c| {
        let mut rng = c.rng.clone();
        let a = Assemblers::new();
        for _ in 0..rng.range(3, 8) {
            let s = instrumented(&mut rng, 40, 50);
            fingerprint(c, &s);
            let colors = coloring(&mut rng, &s, c);
            let pool = rng.pick(pools());
            pool.install(|| verify_parallel(c, &a, &s, &colors, &mut rng));
            c.count("problems_on_reused_assemblers", 1);
        }
    });
    run.section_threads("nested", "several problems assembled at the same time on one pool with one shared pair of assembler objects, from inside rayon tasks and from several OS threads", 400, 15000, 4, |c| {
        let mut rng = c.rng.clone();
        let a = Assemblers::new();
        let k = rng.range(2, 5);
        let probs: Vec<(Synth, Vec<DisjointSubsets>, u64)> = (0..k)
            .map(|_| {
                let s = instrumented(&mut rng, 40, 50);
                fingerprint(c, &s);
                let cl = coloring(&mut rng, &s, c);
                (s, cl, rng.u64())
            })
            .collect();
        let pool = rng.pick(pools());
        let results: Vec<std::sync::Mutex<Vec<String>>> = (0..k).map(|_| Default::default()).collect();
        let work = |i: usize| {
            let (s, cl, _) = &probs[i];
            let mut bad = vec![];
            match a.m.assemble(cl, s) {
                Ok(m) => {
                    let g: Vec<_> = m.triplet_iter().map(|(i, j, v)| ((i, j), *v)).collect();
                    let w: Vec<_> = s.matrix().into_iter().collect();
                    if g != w {
                        bad.push("matrix differs".to_string());
                    }
                }
                Err(e) => bad.push(format!("{e:?}")),
            }
            match a.v.assemble_vector(cl, s) {
                Ok(v) => {
                    if v.as_slice() != s.vector() {
                        bad.push("vector differs".into());
                    }
                }
                Err(e) => bad.push(format!("{e:?}")),
            }
            match par_assemble_scalar(s) {
                Ok(x) if x == s.scalar() => {}
                x => bad.push(format!("scalar {x:?} vs {}", s.scalar())),
            }
            if s.conflicts.load(SeqCst) != 0 {
                bad.push("neighbouring elements ran concurrently".into());
            }
            if s.visit_counts().iter().any(|&v| v != 3) {
                bad.push(format!("visits {:?} (expected 3 each)", s.visit_counts()));
            }
            *results[i].lock().unwrap() = bad;
        };
        if rng.bool() {
            pool.scope(|sc| {
                for i in 0..k {
                    let w = &work;
                    sc.spawn(move |_| w(i));
                }
            });
        } else {
            std::thread::scope(|sc| {
                for i in 0..k {
                    let w = &work;
                    sc.spawn(move || pool.install(|| w(i)));
                }
            });
        }
        for (i, r) in results.iter().enumerate() {
            let r = r.lock().unwrap();
            c.check(r.is_empty(), "nested", || format!("problem {i}: {r:?}"));
            c.count("nested_problems", 1);
        }
    });
    run.section("real", "Laplace, St. Venant-Kirchhoff and mass assemblers on meshes of all 10 element kinds, greedy and other colorings, pools of 1..16 threads, assemblers reused across element kinds and dimensions: parallel equals serial within rounding", 500, 12000, |c| {
        let mut rng = c.rng.clone();
        let asm = Assemblers::new();
        let pool = rng.pick(pools());
        for _ in 0..2 {
            let kind = rng.below(10);
            let o = Opts::any(if kind < 4 { 60 } else { 14 });
            with_mesh_kind!(kind, &mut rng, o, |mesh, name| {
                c.key((name, mesh.connectivity().len(), pool.current_num_threads()));
                c.keyf(&mesh.vertices().iter().map(|v| v[0]).collect::<Vec<f64>>());
                let conn: Vec<Vec<usize>> = mesh.connectivity().iter().map(|x| fenris::connectivity::Connectivity::vertex_indices(x).to_vec()).collect();
                let colors = coloring_of(&mut rng, &conn, || color_nodes(&mesh), c);
                let what = format!("{name} {} cells, {} threads", conn.len(), pool.current_num_threads());
                c.desc(what.clone());
                let d = mesh.vertices()[0].coords.len();
                let u1 = DVector::from_fn(mesh.vertices().len(), |_, _| rng.f(-1.0, 1.0));
                let ud = DVector::from_fn(d * mesh.vertices().len(), |_, _| rng.f(-0.1, 0.1));
                let qs = mesh.canonical_stiffness_quadrature();
                let qp = mesh.canonical_stiffness_quadrature().with_uniform_data(LameParameters { mu: 2.0, lambda: 1.0 });
                let qm = mesh.canonical_mass_quadrature().with_uniform_data(Density(1.5));
                let sd = rng.range(1, 3);
                pool.install(|| {
                    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&qs).with_u(&u1).build();
                    real_par(c, &asm, &a, &colors, &what);
                    let op = MaterialEllipticOperator::new(&StVKMaterial);
                    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&op).with_quadrature_table(&qp).with_u(&ud).build();
                    real_par(c, &asm, &a, &colors, &what);
                    let a = ElementMassAssembler::with_solution_dim(sd).with_space(&mesh).with_quadrature_table(&qm);
                    let ms = CsrAssembler::default().assemble(&a).unwrap();
                    let mp = asm.m.assemble(&colors, &a).unwrap();
                    csr_close(c, &mp, &ms, "real_mass", &what);
                });
            });
        }
    });
    let t = run.thorough;
    let seed = run.seed;
    let a = |seed: u64, cases: u64| vec!["fem".to_string(), seed.to_string(), cases.to_string()];
    sanitized(run, "tsan", "ThreadSanitizer (instrumented std) over parallel matrix, vector, scalar and pattern assembly with shared assemblers", Tool::Thread, "san2", &a(seed, if t { 3000 } else { 250 }), &[("RAYON_NUM_THREADS", (2 + seed % 7).to_string())], 600);
    sanitized(run, "miri", "Miri (Tree Borrows, data races) over tiny parallel assemblies through rayon", Tool::Miri { flags: "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance" }, "san2", &{ let mut x = a(seed + 50, if t { 8 } else { 2 }); x.push("small".into()); x }, &[("RAYON_NUM_THREADS", "3".into())], if t { 900 } else { 300 });
    run.require("element_visits", 20_000);
    run.require("assemblies_with_real_concurrency", 300);
    run.require("problems_on_reused_assemblers", 300);
    run.require("nested_problems", 100);
    run.require("real_elements", 1_000);
}

fn check_fault(c: &mut Case, what: &str, s: &Synth, r: Result<Result<(), eyre::Report>, String>) {
    match r {
        Err(p) => c.fail("panic_instead_of_error", format!("{what}: {p}")),
        Ok(Ok(())) => {
            c.check(s.fail.is_empty(), "failure_dropped", || format!("{what}: success although elements {:?} fail", s.fail));
        }
        Ok(Err(e)) => {
            let f = fault_of(&e);
            c.check(f.map(|f| s.fail.contains(&f)).unwrap_or(false), "wrong_error", || format!("{what}: error {e:?} does not originate from a failing element ({:?})", s.fail));
            c.count("reported_failures", 1);
        }
    }
}

pub fn c05(run: &mut Run) {
    run.section("faults", "failing element sets (none, one, many, all, first, last), with or without garbage written before failing, delays, pools of 1..16 threads: serial and parallel matrix, vector, scalar assembly return an error of a failing element, else success; the same assembler objects are then correct for a different problem; histories of 2..6 problems", 500, 40000, |c| {
        let mut rng = c.rng.clone();
        let par = Assemblers::new();
        let sm = CsrAssembler::<f64>::default();
        let sv = VectorAssembler::<f64>::default();
        let rounds = rng.range(2, 6);
        for round in 0..rounds {
            let mut s = instrumented(&mut rng, 40, 50);
            s.dirty_fail = rng.bool();
            let ne = s.conn.len();
            if ne > 0 && round + 1 < rounds && rng.chance(0.85) {
                match rng.below(5) {
                    0 => { s.fail.insert(0); }
                    1 => { s.fail.insert(ne - 1); }
                    2 => s.fail.extend(0..ne),
                    3 => { s.fail.insert(rng.below(ne)); }
                    _ => for e in 0..ne { if rng.chance(0.2) { s.fail.insert(e); } },
                }
            }
            fingerprint(c, &s);
            c.key(&s.fail);
            let colors = coloring(&mut rng, &s, c);
            let pool = rng.pick(pools());
            c.desc(format!("round {round}: sdim {} nodes {} conn {:?} fail {:?} pool {}", s.sdim, s.num_nodes, s.conn, s.fail, pool.current_num_threads()));
            if s.fail.is_empty() {
                // a later healthy problem on the same objects
                pool.install(|| verify_parallel(c, &par, &s, &colors, &mut rng));
                match sm.assemble(&s) {
                    Ok(m) => { check_csr_exact(c, &m, &s.matrix(), "serial_matrix_after"); }
                    Err(e) => c.fail("serial_err", format!("{e:?}")),
                }
                match sv.assemble_vector(&s) {
                    Ok(v) => { c.check(v.as_slice() == s.vector(), "serial_vector_after", || format!("{:?} vs {:?}", v.as_slice(), s.vector())); }
                    Err(e) => c.fail("serial_err", format!("{e:?}")),
                }
                c.count("healthy_problems_after_faults", 1);
            } else {
                c.count("faulty_problems", 1);
                let sr = &s;
                let pr = &par;
                let cl = &colors;
                let r = c.catch(|| pool.install(|| pr.m.assemble(cl, sr).map(|_| ())));
                check_fault(c, "parallel matrix", sr, r);
                let r = c.catch(|| pool.install(|| pr.v.assemble_vector(cl, sr).map(|_| ())));
                check_fault(c, "parallel vector", sr, r);
                let r = c.catch(|| pool.install(|| par_assemble_scalar(sr).map(|_| ())));
                check_fault(c, "parallel scalar", sr, r);
                let r = c.catch(|| sm.assemble(sr).map(|_| ()));
                check_fault(c, "serial matrix", sr, r);
                let r = c.catch(|| sv.assemble_vector(sr).map(|_| ()));
                check_fault(c, "serial vector", sr, r);
                let r = c.catch(|| assemble_scalar(sr).map(|_| ()));
                check_fault(c, "serial scalar", sr, r);
                c.check(sr.conflicts.load(SeqCst) == 0, "concurrent_neighbours", || "elements sharing nodes ran concurrently".into());
            }
        }
    });
    run.section("faults-large", "thousands of elements (or elements of hundreds of unknowns), one or a few of which fail at any position: every assembly reports one of them, and the same objects are then correct for a healthy problem", 60, 5000, |c| {
        let mut rng = c.rng.clone();
        let par = Assemblers::new();
        let sm = CsrAssembler::<f64>::default();
        let sv = VectorAssembler::<f64>::default();
        let mut s = instrumented_large(&mut rng);
        s.dirty_fail = rng.bool();
        let ne = s.conn.len();
        let colors = coloring(&mut rng, &s, c);
        fingerprint(c, &s);
        for _ in 0..4 {
            s.fail.clear();
            match rng.below(6) {
                0 => { s.fail.insert(ne - 1); }
                1 => { s.fail.insert(rng.below(ne)); s.fail.insert(rng.below(ne)); }
                _ => { s.fail.insert(rng.below(ne)); }
            }
            c.key(&s.fail);
            let pool = rng.pick(pools());
            c.desc(format!("sdim {} nodes {} elements {ne} fail {:?} pool {}", s.sdim, s.num_nodes, s.fail, pool.current_num_threads()));
            c.count("faulty_problems", 1);
            let sr = &s;
            let pr = &par;
            let cl = &colors;
            let r = c.catch(|| pool.install(|| pr.m.assemble(cl, sr).map(|_| ())));
            check_fault(c, "parallel matrix", sr, r);
            let r = c.catch(|| pool.install(|| pr.v.assemble_vector(cl, sr).map(|_| ())));
            check_fault(c, "parallel vector", sr, r);
            let r = c.catch(|| pool.install(|| par_assemble_scalar(sr).map(|_| ())));
            check_fault(c, "parallel scalar", sr, r);
            let r = c.catch(|| sm.assemble(sr).map(|_| ()));
            check_fault(c, "serial matrix", sr, r);
            let r = c.catch(|| sv.assemble_vector(sr).map(|_| ()));
            check_fault(c, "serial vector", sr, r);
            let r = c.catch(|| assemble_scalar(sr).map(|_| ()));
            check_fault(c, "serial scalar", sr, r);
        }
        s.fail.clear();
        let again = if rng.bool() { s } else { instrumented(&mut rng, 40, 50) };
        let colors = coloring(&mut rng, &again, c);
        let pool = rng.pick(pools());
        pool.install(|| verify_parallel(c, &par, &again, &colors, &mut rng));
        match sm.assemble(&again) {
            Ok(m) => { check_csr_exact(c, &m, &again.matrix(), "serial_matrix_after"); }
            Err(e) => c.fail("serial_err", format!("{e:?}")),
        }
        match sv.assemble_vector(&again) {
            Ok(v) => { c.check(v.as_slice() == again.vector(), "serial_vector_after", || "vector after a failed assembly differs".into()); }
            Err(e) => c.fail("serial_err", format!("{e:?}")),
        }
        c.count("healthy_problems_after_faults", 1);
    });
    run.section("degenerate", "real elliptic and mass assemblers on meshes with degenerate (zero-volume) elements: singular elements are reported as errors, and the same threads and assemblers assemble a healthy mesh of another kind correctly afterwards", 120, 10000, |c| {
        let mut rng = c.rng.clone();
        let asm = Assemblers::new();
        let sm = CsrAssembler::<f64>::default();
        let pool = rng.pick(pools());
        for _ in 0..2 {
            // degenerate: collapse an element's vertices onto one point
            let kind = rng.below(10);
            let o = Opts { affine: false, ..Opts::any(12) };
            with_mesh_kind!(kind, &mut rng, o, |mesh, name| {
                let mut mesh = mesh;
                let e = rng.below(mesh.connectivity().len());
                let nodes = fenris::connectivity::Connectivity::vertex_indices(&mesh.connectivity()[e]).to_vec();
                let p = mesh.vertices()[nodes[0]].clone();
                for n in nodes {
                    mesh.vertices_mut()[n] = p.clone();
                }
                c.key((name, mesh.connectivity().len(), e));
                c.desc(format!("degenerate {name} element {e} of {}", mesh.connectivity().len()));
                let u = DVector::from_element(mesh.vertices().len(), 1.0);
                let qs = mesh.canonical_stiffness_quadrature();
                let colors = color_nodes(&mesh);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&qs).with_u(&u).build();
                let r = [
                    ("matrix", c.catch(|| sm.assemble(&a).is_err())),
                    ("vector", c.catch(|| VectorAssembler::default().assemble_vector(&a).is_err())),
                    ("scalar", c.catch(|| assemble_scalar(&a).is_err())),
                    ("par matrix", c.catch(|| pool.install(|| asm.m.assemble(&colors, &a).is_err()))),
                    ("par vector", c.catch(|| pool.install(|| asm.v.assemble_vector(&colors, &a).is_err()))),
                    ("par scalar", c.catch(|| pool.install(|| par_assemble_scalar(&a).is_err()))),
                ];
                for (w, r) in r {
                    c.check(r == Ok(true), "degenerate", || format!("{w} of {name} with a zero-volume element: {r:?} (true = reported)"));
                }
                c.count("degenerate_problems", 1);
            });
            let kind = rng.below(10);
            with_mesh_kind!(kind, &mut rng, Opts::any(12), |mesh, name| {
                let u = DVector::from_fn(mesh.vertices().len(), |_, _| rng.f(-1.0, 1.0));
                let qs = mesh.canonical_stiffness_quadrature();
                let colors = color_nodes(&mesh);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&qs).with_u(&u).build();
                // reference on a thread of its own: no workspace state from earlier problems
                let fresh = std::thread::scope(|s| s.spawn(|| CsrAssembler::default().assemble(&a).unwrap()).join().unwrap());
                let again = sm.assemble(&a).unwrap();
                csr_close(c, &again, &fresh, "after_degenerate", name);
                pool.install(|| real_par(c, &asm, &a, &colors, name));
            });
        }
    });
    run.require("reported_failures", 2_000);
    run.require("healthy_problems_after_faults", 300);
    run.require("degenerate_problems", 100);
}

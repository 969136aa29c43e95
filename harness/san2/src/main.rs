//! Workload for instrumented runtimes (ThreadSanitizer, Miri): parallel assembly through rayon with shared
//! assembler objects; results compared against the exact scatter-add.
//! usage: san2 fem SEED CASES [small]
use fenris::assembly::global::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::coloring::sequential_greedy_coloring;
use std::sync::atomic::Ordering::SeqCst;
use vfem::synth::*;
use vlib::Rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(4);
    let small = a.get(4).map(|s| s == "small").unwrap_or(false);
    if a.get(1).map(|s| s == "slices").unwrap_or(false) {
        let mut seen = vfem::slices::Seen::default();
        for case in 0..cases {
            let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(case));
            vfem::slices::run(&mut rng, &mut seen).unwrap();
        }
        println!("SAN-OK cases={cases} views={} refused={} transmutes={} interpolations={}", seen.views, seen.refused, seen.transmutes, seen.interpolations);
        return;
    }
    let m = CsrParAssembler::<f64>::default();
    let v = VectorParAssembler::<f64>::default();
    let (mut elements, mut assemblies, mut conc) = (0u64, 0u64, 0u64);
    for case in 0..cases {
        let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(case));
        let (n, c) = if small { random_conn(&mut rng, 5, 8, false) } else { random_conn(&mut rng, 40, 60, false) };
        let sd = rng.range(1, 2);
        let mut s = Synth::new(&mut rng, sd, n, c);
        s.check_ownership = true;
        let colors = sequential_greedy_coloring(&NestedVec::from(&s.conn));
        let run = |s: &Synth| {
            let got: Vec<_> = m.assemble(&colors, s).unwrap().triplet_iter().map(|(i, j, v)| ((i, j), *v)).collect();
            assert_eq!(got, s.matrix().into_iter().collect::<Vec<_>>(), "parallel matrix");
            assert_eq!(v.assemble_vector(&colors, s).unwrap().as_slice(), s.vector(), "parallel vector");
            assert_eq!(par_assemble_scalar(s).unwrap(), s.scalar(), "parallel scalar");
        };
        if rng.bool() {
            rayon::join(|| run(&s), || run(&s));
            assemblies += 6;
        } else {
            run(&s);
            assert_eq!(s.conflicts.load(SeqCst), 0);
            assemblies += 3;
        }
        conc = conc.max(s.max_active.load(SeqCst) as u64);
        elements += s.visit_counts().iter().map(|x| *x as u64).sum::<u64>();
    }
    println!("SAN-OK cases={cases} assemblies={assemblies} elements={elements} max_concurrent={conc}");
}

use crate::gen::*;
use crate::monitor::*;
use crate::split::drive;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::{BlockAdapter, BlockMut};
use fenris_paradis::slice::ParallelSliceAccess;
use fenris_paradis::DisjointSubsets;
use fenris_sparse::ParallelCsrRowCollection;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use vlib::{Case, Run};

fn make(f: &Vec<Vec<usize>>, labels: Vec<usize>) -> Result<DisjointSubsets, fenris_paradis::SubsetsNotDisjointError> {
    DisjointSubsets::try_from_disjoint_subsets(f, labels)
}

/// (label, indices) pairs delivered by the iteration, in any order
type Log = Mutex<Vec<(usize, Vec<usize>)>>;

fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: std::sync::OnceLock<Vec<rayon::ThreadPool>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 5, 8]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

pub fn run(run: &mut Run) {
    run.section_serial(
        "ownership-rayon",
        "random subset families over an instrumented collection, iterated on rayon pools of 1/2/3/5/8 threads through for_each/min_len/max_len/take/skip/zip/chunks/enumerate/rev/step_by with injected delays; ownership of every record is tracked online",
        6000, 60000, |c| ownership(c, false),
    );
    run.section_serial(
        "ownership-split",
        "same families, producers split adversarially (any index 0..=len) on plain OS threads, iterated from both ends",
        6000, 60000, |c| ownership(c, true),
    );
    run.section(
        "refusal",
        "families that overlap and/or leave the storage, in random positions: overlapping families must be refused by construction, out-of-range ones before any access",
        10000, 300000, refusal,
    );
    run.section_serial(
        "data",
        "real slices, blocked slices (block sizes 1..5), blocked-of-blocked and sparse matrix rows mutated in parallel; final contents compared with a sequential model and addresses with the record's identity",
        5000, 50000, data,
    );
    run.section(
        "serde",
        "serialize/deserialize round trips, and mutated serialized forms: whatever deserialization accepts must still be safe to iterate (ownership monitor)",
        3000, 100000, serde_case,
    );
    run.section_serial("exclusive-handles", "type-level probe: mutable record handles are not duplicable by safe code", 1, 1, exclusive);
    // Instrumented executions of the unsafe code
    let seed = run.seed;
    let t = run.thorough;
    use vlib::sanitize::{sanitized, Tool};
    let a = |s: u64, n: u64, r: bool| {
        let mut v = vec![s.to_string(), n.to_string()];
        if r {
            v.push("rayon".into())
        }
        v
    };
    sanitized(run, "miri-stacked", "Miri (undefined behaviour, Stacked Borrows aliasing, data races) over small seeded workloads on slices, blocks, matrix rows with OS threads", Tool::Miri { flags: "" }, "san", &a(seed, if t { 150 } else { 8 }, false), &[], if t { 900 } else { 300 });
    sanitized(run, "miri-tree", "same under Tree Borrows on different seeds, preemption rate raised", Tool::Miri { flags: "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.1" }, "san", &a(seed + 1000, if t { 100 } else { 5 }, false), &[], if t { 900 } else { 300 });
    sanitized(run, "miri-rayon", "same through the rayon scheduler (3 workers)", Tool::Miri { flags: "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance" }, "san", &a(seed + 2000, if t { 20 } else { 2 }, true), &[("RAYON_NUM_THREADS", "3".into())], if t { 900 } else { 300 });
    sanitized(run, "tsan-rayon", "ThreadSanitizer (instrumented std) over the same workloads on rayon pools", Tool::Thread, "san", &a(seed + 3000, if t { 20000 } else { 1500 }, true), &[("RAYON_NUM_THREADS", (2 + seed % 7).to_string())], 600);
    sanitized(run, "tsan-threads", "ThreadSanitizer over the OS-thread splitting driver", Tool::Thread, "san", &a(seed + 4000, if t { 5000 } else { 500 }, false), &[], 600);
    run.require("large_families", 100);
    run.require("record_accesses", 50_000);
    run.require("subsets_delivered", 10_000);
    run.require("overlaps_refused", 200);
    run.require("out_of_range_refused", 200);
}

fn collect_expected(f: &[Vec<usize>], labels: &[usize]) -> Vec<(usize, Vec<usize>)> {
    let mut e: Vec<_> = labels.iter().cloned().zip(f.iter().cloned()).collect();
    e.sort();
    e
}

/// (storage length, largest number of subsets): usually small, sometimes far beyond any small size
fn size(c: &mut Case, n: usize, k: usize) -> (usize, usize) {
    if !c.rng.chance(0.03) {
        return (1 + c.rng.below(n), k);
    }
    let n = *c.rng.pick(&[70usize, 130, 260, 520, 1030, 2600, 5000]) + c.rng.below(40);
    let k = match c.rng.below(3) {
        0 => 6,
        1 => 40,
        _ => n,
    };
    c.count("large_families", 1);
    (n, k)
}

fn ownership(c: &mut Case, split: bool) {
    let (n, k) = size(c, 60, 20);
    let fam = disjoint_family(&mut c.rng, n, k);
    let labels: Vec<usize> = (0..fam.len()).map(|_| c.rng.below(1000)).collect();
    c.desc(format!("n={n} family={fam:?} labels={labels:?}"));
    let Some(Ok(subsets)) = c.no_panic("construct-panic", || make(&fam, labels.clone())) else {
        if !c.failed() {
            c.fail("disjoint-family-refused", "a disjoint family was refused");
        }
        return;
    };
    c.check(subsets.labels() == labels.as_slice(), "labels", || "labels() differs".into());
    c.check(Vec::<Vec<usize>>::from(subsets.subsets()) == fam, "subsets", || "subsets() differs".into());
    let m = Monitor::new(n);
    let log: Log = Mutex::new(vec![]);
    let seed = c.rng.u64();
    let held = AtomicU64::new(0);
    let body = |mut s: fenris_paradis::SubsetAccess<'_, Acc<'_>>| {
        let len = s.len();
        let idx = s.global_indices().to_vec();
        assert_eq!(len, idx.len());
        for i in 0..len {
            jitter(seed ^ (idx[i] as u64).wrapping_mul(77777));
            {
                let r1 = s.get(i);
                let r2 = s.get(len - 1 - i);
                assert!(r1.index == idx[i] && r2.index == idx[len - 1 - i], "record identity");
                jitter(seed ^ (idx[i] as u64).wrapping_mul(99991));
            }
            let w = s.get_mut(i);
            assert!(w.index == idx[i], "record identity");
            jitter(seed ^ (idx[i] as u64).wrapping_mul(31337));
            held.fetch_add(1, SeqCst);
            drop(w);
        }
        log.lock().unwrap().push((s.label(), idx));
    };
    let k = fam.len();
    let mut expected = collect_expected(&fam, &labels);
    let mut coll = Coll(&m);
    let mode;
    if split {
        let depth = c.rng.below(6);
        let threaded = c.rng.chance(0.5);
        mode = c.rng.below(4);
        let a = c.rng.below(k + 2);
        let seed2 = c.rng.u64();
        let r = c.catch(|| {
            let it = subsets.subsets_par_iter(&mut coll);
            assert_eq!(it.opt_len(), Some(k));
            match mode {
                0 | 1 => drive(it, seed2, depth, threaded, &body),
                2 => drive(it.take(a), seed2, depth, threaded, &body),
                _ => drive(it.skip(a), seed2, depth, threaded, &body),
            }
        });
        match mode {
            2 => expected = collect_expected(&fam[..a.min(k)], &labels[..a.min(k)]),
            3 => expected = collect_expected(&fam[a.min(k)..], &labels[a.min(k)..]),
            _ => {}
        }
        if let Ok(leaves) = r {
            c.count("leaf_tasks", leaves);
        }
        if let Err(e) = &r {
            c.fail("panic", format!("iteration (mode {mode}, a {a}) panicked: {e}"));
        }
    } else {
        mode = c.rng.below(11);
        let p = c.rng.below(pools().len());
        let pool = &pools()[p];
        let a = c.rng.below(k + 2);
        let b = 1 + c.rng.below(4);
        let r = c.catch(|| {
            pool.install(|| {
                let it = subsets.subsets_par_iter(&mut coll);
                match mode {
                    0 => it.for_each(&body),
                    1 => it.with_min_len(b).for_each(&body),
                    2 => it.with_max_len(1).for_each(&body),
                    3 => it.take(a).for_each(&body),
                    4 => it.skip(a).for_each(&body),
                    5 => it.enumerate().with_max_len(1).for_each(|(i, s)| {
                        assert!(s.label() == labels[i] && s.global_indices() == fam[i].as_slice(), "enumeration order");
                        body(s)
                    }),
                    6 => it.rev().with_max_len(1).for_each(&body),
                    7 => it.chunks(b).for_each(|v| v.into_iter().for_each(&body)),
                    8 => {
                        let other: Vec<usize> = (0..k).collect();
                        use rayon::iter::IntoParallelIterator;
                        it.zip(other.into_par_iter()).with_max_len(1).for_each(|(s, i)| {
                            assert!(s.label() == labels[i] && s.global_indices() == fam[i].as_slice(), "zip order");
                            body(s)
                        })
                    }
                    9 => it.step_by(b).for_each(&body),
                    _ => {
                        // hold several subsets at once, across threads
                        let v: Vec<_> = it.with_max_len(1).collect();
                        use rayon::iter::IntoParallelIterator;
                        v.into_par_iter().with_max_len(1).for_each(&body)
                    }
                }
            })
        });
        match mode {
            3 => expected = collect_expected(&fam[..a.min(k)], &labels[..a.min(k)]),
            4 => expected = collect_expected(&fam[a.min(k)..], &labels[a.min(k)..]),
            9 => {
                let sel: Vec<usize> = (0..k).step_by(b).collect();
                let f2: Vec<_> = sel.iter().map(|i| fam[*i].clone()).collect();
                let l2: Vec<_> = sel.iter().map(|i| labels[*i]).collect();
                expected = collect_expected(&f2, &l2)
            }
            _ => {}
        }
        if let Err(e) = r {
            c.fail("panic", format!("iteration (mode {mode}, a {a}, b {b}) panicked: {e}"));
        }
    }
    let conflicts = m.take_conflicts();
    c.check(conflicts.is_empty(), "ownership", || format!("{conflicts:?}"));
    let mut got = log.into_inner().unwrap();
    let mut owner = std::collections::HashMap::new();
    for (t, (_, idx)) in got.iter().enumerate() {
        for i in idx {
            let o = *owner.entry(*i).or_insert(t);
            c.check(o == t, "exclusive-delivery", || format!("record {i} delivered to two tasks"));
        }
    }
    got.sort();
    c.check(got == expected, "exactly-once", || format!("mode {mode}: delivered {got:?}, expected {expected:?}"));
    c.count("record_accesses", m.events());
    c.count("subsets_delivered", got.len() as u64);
    if k > 0 {
        c.key((&fam, &labels, mode, split));
    }
}

fn refusal(c: &mut Case) {
    let (n, k) = size(c, 30, 10);
    let mut fam = disjoint_family(&mut c.rng, n, k);
    let disturb = c.rng.below(4);
    if disturb & 1 == 1 && fam.len() >= 2 {
        // introduce overlap at a random place
        let src = c.rng.below(fam.len());
        let dst = c.rng.below(fam.len());
        if !fam[src].is_empty() {
            let k = c.rng.below(fam[src].len());
            let x = fam[src][k];
            let p = c.rng.below(fam[dst].len() + 1);
            fam[dst].insert(p, x);
        }
    }
    if disturb & 2 == 2 && !fam.is_empty() {
        let dst = c.rng.below(fam.len());
        let x = match c.rng.below(3) {
            0 => n,
            1 => n + 1 + c.rng.below(5),
            _ => usize::MAX - c.rng.below(3),
        };
        let p = c.rng.below(fam[dst].len() + 1);
        fam[dst].insert(p, x);
    }
    let labels: Vec<usize> = (0..fam.len()).collect();
    c.desc(format!("n={n} family={fam:?}"));
    let want = is_disjoint(&fam);
    let got = c.no_panic("construct-panic", || make(&fam, labels.clone()));
    let Some(got) = got else { return };
    c.check(got.is_ok() == want, "disjointness-decision", || format!("disjoint: {want}, accepted: {}", got.is_ok()));
    if !want {
        c.count("overlaps_refused", 1);
    }
    c.key(&fam);
    let Ok(subsets) = got else { return };
    let inside = fam.iter().flatten().all(|i| *i < n);
    let m = Monitor::new(n);
    let mut coll = Coll(&m);
    let r = c.catch(|| {
        subsets.subsets_par_iter(&mut coll).for_each(|mut s| {
            for i in 0..s.len() {
                let _ = s.get_mut(i);
            }
        })
    });
    if inside {
        c.check(r.is_ok(), "valid-family-panics", || format!("{r:?}"));
    } else {
        c.count("out_of_range_refused", 1);
        c.check(r.is_err(), "out-of-range-accepted", || "iteration over out-of-range indices was not refused".into());
        c.check(m.events() == 0 && m.take_conflicts().is_empty(), "touched-before-refusal", || {
            format!("{} records touched before refusal", m.events())
        });
    }
    // also through a block adapter and a real slice of the same length
    let bs = 1 + c.rng.below(3);
    let extra = n * bs;
    let mut data = vec![0u32; extra];
    let r = c.catch(|| {
        let mut ad = BlockAdapter::with_block_size(data.as_mut_slice(), bs);
        subsets.subsets_par_iter(&mut ad).for_each(|mut s| {
            if inside {
                for i in 0..s.len() {
                    let mut b = s.get_mut(i);
                    for j in 0..bs {
                        *b.index_mut(j) += 1;
                    }
                }
            }
        })
    });
    c.check(r.is_ok() == inside, "block-adapter-bounds", || format!("inside {inside} result {r:?}"));
    // adapter must refuse lengths that are not a multiple of the block size
    let bad = n * bs + if bs > 1 { 1 + c.rng.below(bs - 1) } else { 0 };
    let mut data = vec![0u32; bad];
    let r = c.catch(|| {
        let _ = BlockAdapter::with_block_size(data.as_mut_slice(), bs);
    });
    c.check(r.is_ok() == (bad % bs == 0), "block-adapter-divisibility", || format!("len {bad} block {bs}"));
    // csr rows: number of rows is the length
    let mut a: CsrMatrix<f64> = CsrMatrix::zeros(n, 2);
    let r = c.catch(|| {
        let mut rows = ParallelCsrRowCollection(&mut a);
        subsets.subsets_par_iter(&mut rows).for_each(|_| {});
    });
    c.check(r.is_ok() == inside, "csr-bounds", || format!("inside {inside} result {r:?}"));
}

fn data(c: &mut Case) {
    let (n, k) = size(c, 50, 16);
    let fam = disjoint_family(&mut c.rng, n, k);
    let labels: Vec<usize> = (0..fam.len()).collect();
    let subsets = match make(&fam, labels) {
        Ok(s) => s,
        Err(_) => {
            c.fail("disjoint-family-refused", format!("{fam:?}"));
            return;
        }
    };
    c.desc(format!("n={n} family={fam:?}"));
    if !fam.is_empty() {
        c.key((&fam, n));
    }
    let mut mult = vec![0u64; n];
    for i in fam.iter().flatten() {
        mult[*i] += 1;
    }
    let pool = &pools()[c.rng.below(pools().len())];
    let seed = c.rng.u64();
    let threads_split = c.rng.bool();
    // 1. slice
    {
        let mut v: Vec<u64> = (0..n as u64).map(|i| i * 1000).collect();
        let base = v.as_ptr() as usize;
        let body = |mut s: fenris_paradis::SubsetAccess<'_, ParallelSliceAccess<'_, u64>>| {
            for i in 0..s.len() {
                let g = s.global_indices()[i];
                let r = s.get_mut(i);
                assert_eq!(r as *const u64 as usize, base + 8 * g, "address of record");
                let old = *r;
                jitter(seed ^ g as u64);
                *r = old + 1;
                assert_eq!(*s.get(i), old + 1);
            }
        };
        let r = c.catch(|| {
            if threads_split {
                drive(subsets.subsets_par_iter(v.as_mut_slice()), seed, 4, true, &body);
            } else {
                pool.install(|| subsets.subsets_par_iter(v.as_mut_slice()).with_max_len(1).for_each(&body));
            }
        });
        c.check(r.is_ok(), "slice-panic", || format!("{r:?}"));
        let want: Vec<u64> = (0..n).map(|i| i as u64 * 1000 + mult[i]).collect();
        c.check(v == want, "slice-contents", || format!("{v:?} vs {want:?}"));
        c.count("record_accesses", 2 * mult.iter().sum::<u64>());
    }
    // 2. blocks
    {
        let bs = if n < 100 && c.rng.chance(0.05) { *c.rng.pick(&[8usize, 9, 16, 17, 33, 64, 65, 130, 257]) } else { 1 + c.rng.below(5) };
        let mut v = vec![0u64; n * bs];
        let base = v.as_ptr() as usize;
        let r = c.catch(|| {
            let mut ad = BlockAdapter::with_block_size(v.as_mut_slice(), bs);
            let body = |mut s: fenris_paradis::SubsetAccess<'_, fenris_paradis::adapter::BlockAccess<ParallelSliceAccess<'_, u64>>>| {
                for i in 0..s.len() {
                    let g = s.global_indices()[i];
                    {
                        let mut b = s.get_mut(i);
                        assert_eq!(b.len(), bs);
                        for j in 0..bs {
                            assert_eq!(b.index(j) as *const u64 as usize, base + 8 * (g * bs + j), "address in block");
                            let x = b.index_mut(j);
                            let old = *x;
                            jitter(seed ^ (g * 8 + j) as u64);
                            *x = old + 1 + j as u64;
                        }
                        assert!(b.get_mut(bs).is_none() && b.get(bs).is_none() && b.get(bs + 7).is_none(), "out of block");
                    }
                    let b = s.get(i);
                    assert_eq!(b.len(), bs);
                    assert!(b.get(bs).is_none() && b.get(bs + 1).is_none(), "out of block");
                    assert_eq!(b.index(bs - 1) as *const u64 as usize, base + 8 * (g * bs + bs - 1));
                }
            };
            if threads_split {
                drive(subsets.subsets_par_iter(&mut ad), seed, 4, true, &body);
            } else {
                pool.install(|| subsets.subsets_par_iter(&mut ad).with_max_len(1).for_each(&body));
            }
        });
        c.check(r.is_ok(), "block-panic", || format!("block size {bs}: {r:?}"));
        let want: Vec<u64> = (0..n * bs).map(|k| mult[k / bs] * (1 + (k % bs) as u64)).collect();
        c.check(v == want, "block-contents", || format!("bs {bs}: {v:?} vs {want:?}"));
        c.count("record_accesses", 2 * (bs as u64) * mult.iter().sum::<u64>());
    }
    // 3. CSR rows
    {
        let ncols = if n < 100 && c.rng.chance(0.05) { *c.rng.pick(&[9usize, 17, 33, 65, 130, 300]) } else { 1 + c.rng.below(6) };
        let mut offs = vec![0usize];
        let mut cols = vec![];
        for _ in 0..n {
            for j in 0..ncols {
                if c.rng.chance(0.5) {
                    cols.push(j);
                }
            }
            offs.push(cols.len());
        }
        let nnz = cols.len();
        let mut a = CsrMatrix::try_from_csr_data(n, ncols, offs.clone(), cols.clone(), (0..nnz).map(|k| k as f64).collect()).unwrap();
        let r = c.catch(|| {
            let mut rows = ParallelCsrRowCollection(&mut a);
            let body = |mut s: fenris_paradis::SubsetAccess<'_, fenris_sparse::CsrParallelRowAccess<'_, f64>>| {
                for i in 0..s.len() {
                    let g = s.global_indices()[i];
                    let want_cols = &cols[offs[g]..offs[g + 1]];
                    {
                        let r = s.get(i);
                        assert_eq!(r.nnz(), want_cols.len(), "row nnz");
                        assert_eq!(r.col_indices(), want_cols, "row cols");
                        assert_eq!(r.values().len(), want_cols.len());
                    }
                    let mut r = s.get_mut(i);
                    assert_eq!(r.nnz(), want_cols.len(), "row nnz");
                    {
                        let (cc, vv) = r.cols_and_values_mut();
                        assert_eq!(cc, want_cols, "row cols");
                        for x in vv.iter_mut() {
                            let o = *x;
                            jitter(seed ^ o as u64);
                            *x = o + 1.0;
                        }
                    }
                    for x in r.values_mut() {
                        *x += 0.5;
                    }
                }
            };
            if threads_split {
                drive(subsets.subsets_par_iter(&mut rows), seed, 4, true, &body);
            } else {
                pool.install(|| subsets.subsets_par_iter(&mut rows).with_max_len(1).for_each(&body));
            }
        });
        c.check(r.is_ok(), "csr-panic", || format!("{r:?}"));
        let want: Vec<f64> = (0..n)
            .flat_map(|i| (offs[i]..offs[i + 1]).map(move |k| (k, i)))
            .map(|(k, i)| k as f64 + 1.5 * mult[i] as f64)
            .collect();
        c.check(a.values() == want.as_slice(), "csr-contents", || format!("{:?} vs {want:?}", a.values()));
        c.count("record_accesses", 2 * mult.iter().sum::<u64>());
    }
}

fn serde_case(c: &mut Case) {
    let n = 1 + c.rng.below(20);
    let fam = disjoint_family(&mut c.rng, n, 6);
    let labels: Vec<usize> = (0..fam.len()).map(|_| c.rng.below(50)).collect();
    let Ok(d) = make(&fam, labels) else { return };
    let mut v = serde_json::to_value(&d).unwrap();
    let back: Result<DisjointSubsets, _> = serde_json::from_value(v.clone());
    c.check(back.as_ref().ok() == Some(&d), "roundtrip", || format!("{d:?} -> {v} -> {back:?}"));
    c.key(&fam);
    // hostile edit: change random numbers / array lengths anywhere in the document
    let edits = 1 + c.rng.below(3);
    for _ in 0..edits {
        mutate(&mut v, &mut c.rng, 0);
    }
    c.desc(format!("mutated: {v}"));
    let text = v.to_string();
    let r = c.catch(|| serde_json::from_str::<DisjointSubsets>(&text));
    let Ok(r) = r else {
        c.fail("deserialize-panic", format!("{:?}", r.err()));
        return;
    };
    let Ok(d) = r else {
        c.count("hostile_documents_refused", 1);
        return;
    };
    c.count("hostile_documents_accepted", 1);
    let m = Monitor::new(n);
    let log: Log = Mutex::new(vec![]);
    let mut coll = Coll(&m);
    let r = c.catch(|| {
        // Everything is collected first, so that all subsets are held at once
        let v: Vec<_> = subsets_iter(&d, &mut coll).collect();
        for mut s in v {
            for i in 0..s.len() {
                let _ = s.get_mut(i);
            }
            log.lock().unwrap().push((s.label(), s.global_indices().to_vec()));
        }
    });
    let _ = r; // a panic (refusal) is acceptable here; touching foreign records is not
    let conflicts = m.take_conflicts();
    c.check(conflicts.is_empty(), "deserialized-unsound", || format!("{text}: {conflicts:?}"));
    let got: Vec<Vec<usize>> = log.into_inner().unwrap().into_iter().map(|x| x.1).collect();
    c.check(is_disjoint(&got), "deserialized-overlap", || format!("{text} iterates overlapping subsets {got:?}"));
}

fn subsets_iter<'a>(d: &'a DisjointSubsets, coll: &'a mut Coll<'a>) -> fenris_paradis::DisjointSubsetsParIter<'a, Acc<'a>> {
    d.subsets_par_iter(coll)
}

fn mutate(v: &mut serde_json::Value, rng: &mut vlib::Rng, depth: usize) {
    use serde_json::Value::{Array, Null, Number, Object};
    match v {
        Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            let k = rng.pick(&ks).clone();
            mutate(m.get_mut(&k).unwrap(), rng, depth + 1);
        }
        Array(a) => {
            if a.is_empty() || rng.chance(0.2) {
                let p = rng.below(a.len() + 1);
                let x = rng.below(6);
                a.insert(p, serde_json::json!(x));
            } else if rng.chance(0.2) {
                let p = rng.below(a.len());
                a.remove(p);
            } else {
                let p = rng.below(a.len());
                mutate(&mut a[p], rng, depth + 1)
            }
        }
        Number(_) => {
            let x = match rng.below(4) {
                0 => serde_json::json!(rng.below(4)),
                1 => serde_json::json!(rng.below(40)),
                2 => serde_json::json!(1u64 << 40),
                _ => serde_json::Value::Null,
            };
            *v = x;
        }
        Null => *v = serde_json::json!(rng.below(5)),
        _ => {}
    }
}

struct Probe<T>(std::marker::PhantomData<T>);
trait NotClone {
    fn is_clone(&self) -> bool {
        false
    }
}
impl<T> NotClone for Probe<T> {}
impl<T: Clone> Probe<T> {
    fn is_clone(&self) -> bool {
        true
    }
}

fn exclusive(c: &mut Case) {
    let p: Probe<BlockMut<'static, ParallelSliceAccess<'static, u8>>> = Probe(std::marker::PhantomData);
    c.check(!p.is_clone(), "mutable-block-cloneable", || {
        "a mutable block can be duplicated by safe code, giving two exclusive references to the same record".into()
    });
    let p: Probe<fenris_sparse::ParCsrRowMut<'static, u8>> = Probe(std::marker::PhantomData);
    c.check(!p.is_clone(), "mutable-row-cloneable", || "a mutable matrix row can be duplicated by safe code".into());
    let p: Probe<fenris_paradis::SubsetAccess<'static, ParallelSliceAccess<'static, u8>>> = Probe(std::marker::PhantomData);
    c.check(!p.is_clone(), "subset-cloneable", || "a subset access can be duplicated by safe code".into());
    let p: Probe<fenris_paradis::DisjointSubsetsParIter<'static, ParallelSliceAccess<'static, u8>>> = Probe(std::marker::PhantomData);
    c.check(!p.is_clone(), "iter-cloneable", || "the parallel iterator can be duplicated by safe code".into());
    c.check(Probe::<Vec<u8>>(std::marker::PhantomData).is_clone(), "probe-sanity", || "probe broken".into());
    c.key(1u8);
    let _ = NestedVec::<u8>::new();
}

//! Small workloads over the unsafe parallel access code, meant to be executed by an instrumented runtime
//! (Miri: undefined behaviour, aliasing and data races; ThreadSanitizer; AddressSanitizer).
//! usage: san SEED CASES [rayon]
#[path = "../../vlib/src/rng.rs"]
mod rng;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::{DisjointSubsets, ParallelIndexedCollection};
use fenris_sparse::ParallelCsrRowCollection;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use rng::Rng;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static TASKS: AtomicU64 = AtomicU64::new(0);
static RECORDS: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);

struct Driver<'f, F> {
    len: usize,
    seed: u64,
    f: &'f F,
    depth: usize,
}
impl<'f, I: Send, F: Fn(I) + Sync> ProducerCallback<I> for Driver<'f, F> {
    type Output = ();
    fn callback<P: Producer<Item = I>>(self, p: P) {
        split(p, self.len, self.seed, self.f, self.depth)
    }
}
fn split<I: Send, P: Producer<Item = I>, F: Fn(I) + Sync>(p: P, len: usize, seed: u64, f: &F, depth: usize) {
    let mut rng = Rng::new(seed);
    if depth == 0 || len == 0 {
        TASKS.fetch_add(1, Relaxed);
        let mut it = p.into_iter();
        while let Some(x) = if rng.bool() { it.next() } else { it.next_back() } {
            f(x);
            if rng.chance(0.3) {
                std::thread::yield_now();
            }
        }
        return;
    }
    let k = if len > 1 { 1 + rng.below(len - 1) } else { rng.below(2) };
    let (a, b) = p.split_at(k);
    let (sa, sb) = (rng.u64(), rng.u64());
    THREADS.fetch_add(1, Relaxed);
    std::thread::scope(|s| {
        s.spawn(move || split(a, k, sa, f, depth - 1));
        split(b, len - k, sb, f, depth - 1);
    });
}
fn drive<I: IndexedParallelIterator>(it: I, rayon: bool, seed: u64, f: impl Fn(I::Item) + Sync + Send) {
    let len = it.len();
    if rayon {
        it.with_max_len(1).for_each(|x| {
            TASKS.fetch_add(1, Relaxed);
            f(x)
        });
    } else {
        it.with_producer(Driver { len, seed, f: &f, depth: 2 })
    }
}

fn family(rng: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let k = 1 + rng.below(5);
    let mut f = vec![vec![]; k];
    for i in rng.perm(n) {
        let s = rng.below(k + 1);
        if s < k {
            f[s].push(i);
            if rng.chance(0.2) {
                f[s].push(i);
            }
        }
    }
    f
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(4);
    let rayon = a.get(3).map(|s| s == "rayon").unwrap_or(false);
    for case in 0..cases {
        let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(case));
        let n = 4 + rng.below(8);
        let (fam, colors);
        if rng.bool() {
            fam = family(&mut rng, n);
            let labels = (0..fam.len()).collect();
            colors = vec![DisjointSubsets::try_from_disjoint_subsets(&fam, labels).unwrap()];
        } else {
            // elements of a path/star mesh, coloured
            fam = (0..n - 1).map(|i| vec![i, i + 1]).collect();
            colors = sequential_greedy_coloring(&NestedVec::from(&fam));
        }
        let mut mult = vec![0u64; n];
        for i in fam.iter().flatten() {
            mult[*i] += 1;
        }
        RECORDS.fetch_add(mult.iter().sum::<u64>() * 3, Relaxed);

        // plain slice of heap-owning records
        let mut v: Vec<Box<u64>> = (0..n).map(|_| Box::new(0)).collect();
        for col in &colors {
            drive(col.subsets_par_iter(v.as_mut_slice()), rayon, rng.u64(), |mut s| {
                for i in 0..s.len() {
                    {
                        let (x, y) = (s.get(i), s.get(s.len() - 1));
                        assert!(**x + **y < 1000);
                    }
                    let r = s.get_mut(i);
                    **r += 1;
                }
            });
        }
        assert_eq!(v.iter().map(|b| **b).collect::<Vec<_>>(), mult);

        // blocks
        let bs = 1 + rng.below(3);
        let mut v = vec![0u64; n * bs];
        {
            let mut ad = BlockAdapter::with_block_size(v.as_mut_slice(), bs);
            for col in &colors {
                drive(col.subsets_par_iter(&mut ad as &mut BlockAdapter<[u64]>), rayon, rng.u64(), |mut s| {
                    for i in 0..s.len() {
                        assert!(s.get(i).get(bs).is_none());
                        let mut b = s.get_mut(i);
                        for j in 0..bs {
                            let old = *b.index(j);
                            *b.index_mut(j) = old + 1;
                        }
                        assert!(b.get_mut(bs).is_none());
                    }
                });
                break; // one color: the adapter is borrowed for its whole lifetime
            }
        }
        // every color through a fresh adapter
        for col in &colors[1..] {
            let mut ad = BlockAdapter::with_block_size(v.as_mut_slice(), bs);
            drive(col.subsets_par_iter(&mut ad), rayon, rng.u64(), |mut s| {
                for i in 0..s.len() {
                    let mut b = s.get_mut(i);
                    *b.index_mut(bs - 1) += 1;
                    for j in 0..bs - 1 {
                        *b.index_mut(j) += 1;
                    }
                }
            });
        }
        assert_eq!(v, (0..n * bs).map(|k| mult[k / bs]).collect::<Vec<_>>());

        // CSR rows
        let mut offs = vec![0];
        let mut cols = vec![];
        for _ in 0..n {
            for j in 0..3 {
                if rng.bool() {
                    cols.push(j);
                }
            }
            offs.push(cols.len());
        }
        let nnz = cols.len();
        let mut m = CsrMatrix::try_from_csr_data(n, 3, offs.clone(), cols.clone(), vec![0u64; nnz]).unwrap();
        for col in &colors {
            let mut rows = ParallelCsrRowCollection(&mut m);
            drive(col.subsets_par_iter(&mut rows), rayon, rng.u64(), |mut s| {
                for i in 0..s.len() {
                    let g = s.global_indices()[i];
                    {
                        let r = s.get(i);
                        assert_eq!(r.values().len(), r.nnz());
                        assert_eq!(r.col_indices(), &cols[offs[g]..offs[g + 1]]);
                    }
                    let mut r = s.get_mut(i);
                    let (c, v) = r.cols_and_values_mut();
                    assert_eq!(c.len(), v.len());
                    for x in v {
                        *x += 1;
                    }
                    for x in r.values_mut() {
                        *x += 1;
                    }
                }
            });
        }
        for i in 0..n {
            for k in offs[i]..offs[i + 1] {
                assert_eq!(m.values()[k], 2 * mult[i]);
            }
        }

        // direct access from several threads to different records (documented usage)
        let mut v = vec![0u32; n];
        let slice = v.as_mut_slice();
        let acc = unsafe { slice.create_access() };
        std::thread::scope(|s| {
            for t in 0..2 {
                let acc = acc.clone();
                s.spawn(move || {
                    use fenris_paradis::ParallelIndexedAccess;
                    for i in (t..n).step_by(2) {
                        unsafe { *acc.get_unchecked_mut(i) += 1 };
                    }
                });
            }
        });
        let acc = unsafe { slice.create_access() };
        std::thread::scope(|s| {
            let h = n / 2;
            let (a1, a2) = (acc.clone(), acc.clone());
            s.spawn(move || unsafe { a1.subslice_mut(0..h).iter_mut().for_each(|x| *x += 1) });
            s.spawn(move || unsafe { a2.subslice_mut(h..n).iter_mut().for_each(|x| *x += 1) });
        });
        assert!(v.iter().all(|x| *x == 2));
    }
    println!(
        "SAN-OK cases={cases} tasks={} threads={} records={}",
        TASKS.load(Relaxed),
        THREADS.load(Relaxed),
        RECORDS.load(Relaxed)
    );
}

//! Drives an indexed parallel iterator with an adversarial, seeded splitting on plain OS threads,
//! within the splitting contract of rayon producers (any split index from 0 to len inclusive).
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::IndexedParallelIterator;
use vlib::Rng;

pub struct Driver<'f, F> {
    pub len: usize,
    pub seed: u64,
    pub f: &'f F,
    pub depth: usize,
    pub threaded: bool,
}

impl<'f, I: Send, F: Fn(I) + Sync> ProducerCallback<I> for Driver<'f, F> {
    type Output = u64;
    fn callback<P: Producer<Item = I>>(self, producer: P) -> u64 {
        run(producer, self.len, self.seed, self.f, self.depth, self.threaded)
    }
}

fn run<I: Send, P: Producer<Item = I>, F: Fn(I) + Sync>(p: P, len: usize, seed: u64, f: &F, depth: usize, threaded: bool) -> u64 {
    let mut rng = Rng::new(seed);
    let stop = depth == 0 || rng.chance(0.2);
    if stop {
        let mut it = p.into_iter();
        let mode = rng.below(3);
        loop {
            let x = match mode {
                0 => it.next(),
                1 => it.next_back(),
                _ => {
                    if rng.bool() {
                        it.next()
                    } else {
                        it.next_back()
                    }
                }
            };
            match x {
                Some(x) => f(x),
                None => break,
            }
        }
        return 1;
    }
    let k = match rng.below(5) {
        0 => 0,
        1 => len,
        _ => rng.below(len + 1),
    };
    let (a, b) = p.split_at(k);
    let (sa, sb) = (rng.u64(), rng.u64());
    if threaded && rng.chance(0.7) {
        std::thread::scope(|s| {
            let h = s.spawn(move || run(a, k, sa, f, depth - 1, threaded));
            let nb = run(b, len - k, sb, f, depth - 1, threaded);
            match h.join() {
                Ok(n) => n + nb,
                Err(e) => std::panic::resume_unwind(e),
            }
        })
    } else {
        let nb = run(b, len - k, sb, f, depth - 1, threaded);
        nb + run(a, k, sa, f, depth - 1, threaded)
    }
}

/// Returns the number of leaf tasks executed.
pub fn drive<I>(it: I, seed: u64, depth: usize, threaded: bool, f: impl Fn(I::Item) + Sync) -> u64
where
    I: IndexedParallelIterator,
{
    let len = it.len();
    it.with_producer(Driver { len, seed, f: &f, depth, threaded })
}

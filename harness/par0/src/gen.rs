use vlib::Rng;

pub fn jitter(rng_seed: u64) {
    let mut x = rng_seed;
    let r = vlib::rng::splitmix(&mut x);
    match r % 16 {
        0..=2 => std::thread::yield_now(),
        3 => std::thread::sleep(std::time::Duration::from_micros(r >> 8 & 31)),
        4..=6 => {
            for _ in 0..(r >> 8 & 127) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// Disjoint (across subsets) family over [0, n); subsets may be empty and contain duplicates.
pub fn disjoint_family(rng: &mut Rng, n: usize, max_subsets: usize) -> Vec<Vec<usize>> {
    let k = rng.below(max_subsets + 1);
    let mut out = vec![vec![]; k];
    if k == 0 {
        return out;
    }
    let style = rng.below(4);
    if style == 3 {
        return out; // only empty subsets
    }
    for i in rng.perm(n) {
        if rng.chance(0.15) {
            continue;
        }
        let s = match style {
            0 => rng.below(k),
            1 => (rng.f01().powi(3) * k as f64) as usize,
            _ => i * k / n.max(1),
        }
        .min(k - 1);
        out[s].push(i);
        if rng.chance(0.1) {
            out[s].push(i);
        }
    }
    out
}

pub fn is_disjoint(f: &[Vec<usize>]) -> bool {
    let mut owner = std::collections::HashMap::new();
    for (s, v) in f.iter().enumerate() {
        for i in v {
            if *owner.entry(*i).or_insert(s) != s {
                return false;
            }
        }
    }
    true
}

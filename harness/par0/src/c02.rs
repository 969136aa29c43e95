use fenris_nested_vec::NestedVec;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::DisjointSubsets;
use vlib::{Case, Run};

/// Independent oracle for a coloring of `fam`.
pub fn judge(c: &mut Case, fam: &[Vec<usize>], colors: &[DisjointSubsets]) {
    let n = fam.len();
    let mut color_of = vec![usize::MAX; n];
    for (ci, col) in colors.iter().enumerate() {
        let subs: Vec<Vec<usize>> = col.subsets().iter().map(|s| s.to_vec()).collect();
        c.check(!subs.is_empty(), "empty-color", || format!("color {ci} is empty"));
        c.check(subs.len() == col.labels().len(), "labels-length", || format!("{} vs {}", subs.len(), col.labels().len()));
        for (s, &l) in subs.iter().zip(col.labels()) {
            if !c.check(l < n && color_of[l] == usize::MAX, "label-once", || format!("label {l} out of range or repeated")) {
                continue;
            }
            color_of[l] = ci;
            c.check(s == &fam[l], "label-indices", || format!("subset labelled {l} has indices {s:?}, original {:?}", fam[l]));
        }
        c.check(crate::gen::is_disjoint(&subs), "conflict-free", || format!("color {ci} has conflicting subsets {subs:?}"));
        // usable for parallel iteration exactly if the indices fit
        let max = subs.iter().flatten().max().copied();
        if let Some(max) = max {
            if max < 100_000 {
                let mut data = vec![0u8; max];
                let r = c.catch(|| {
                    use rayon::iter::ParallelIterator;
                    col.subsets_par_iter(data.as_mut_slice()).for_each(|_| {})
                });
                c.check(r.is_err(), "bound-too-small", || format!("color {ci} accepts storage of length {max} for index {max}"));
                let mut data = vec![0u8; max + 1];
                let r = c.catch(|| {
                    use rayon::iter::ParallelIterator;
                    col.subsets_par_iter(data.as_mut_slice()).for_each(|_| {})
                });
                c.check(r.is_ok(), "bound-too-large", || format!("color {ci} refuses sufficient storage"));
            }
        }
    }
    c.check(color_of.iter().all(|x| *x != usize::MAX), "all-colored", || format!("{color_of:?}"));
    // greedy bound
    let mut by_index: std::collections::HashMap<usize, Vec<usize>> = Default::default();
    for (i, f) in fam.iter().enumerate() {
        for x in f {
            let v = by_index.entry(*x).or_default();
            if v.last() != Some(&i) {
                v.push(i);
            }
        }
    }
    let mut maxdeg = 0;
    for (i, f) in fam.iter().enumerate() {
        let mut nb: std::collections::HashSet<usize> = Default::default();
        for x in f {
            nb.extend(by_index[x].iter().filter(|j| **j != i));
        }
        maxdeg = maxdeg.max(nb.len());
    }
    if n > 0 {
        c.check(colors.len() <= maxdeg + 1, "color-bound", || format!("{} colors, max degree {maxdeg}", colors.len()));
        if colors.len() > 1 {
            c.count("multi_color_results", 1);
        }
    } else {
        c.check(colors.is_empty(), "no-colors", || "colors for empty family".into());
    }
    c.count("colors", colors.len() as u64);
    c.count("subsets_colored", n as u64);
}

pub fn run(run: &mut Run) {
    run.section(
        "families",
        "random subset families (empty, repeated indices, skewed, sparse large indices, late large indices), judged by an independent partition/conflict/label/bound oracle, twice for determinism",
        6000, 300000, |c| {
            let n = c.rng.below(25);
            let style = c.rng.below(6);
            let m = match style { 0 => 3, 1 => 8, 2 => 30, 3 => 200, 4 => 50_000, _ => 12 };
            let mut fam: Vec<Vec<usize>> = vec![];
            for _ in 0..n {
                let k = match c.rng.below(5) { 0 => 0, 1 => 1, _ => c.rng.below(9) };
                let mut s: Vec<usize> = (0..k).map(|_| {
                    if c.rng.chance(0.2) { (c.rng.f01().powi(4) * m as f64) as usize } else { c.rng.below(m) }
                }).collect();
                if !s.is_empty() && c.rng.chance(0.2) { let x = s[0]; s.push(x); }
                if style == 5 { s.sort_by(|a, b| b.cmp(a)); }
                fam.push(s);
            }
            c.desc(format!("{fam:?}"));
            let nv = NestedVec::from(&fam);
            let colors = sequential_greedy_coloring(&nv);
            judge(c, &fam, &colors);
            let again = sequential_greedy_coloring(&nv);
            c.check(colors == again, "deterministic", || "two runs differ".into());
            if fam.iter().filter(|f| !f.is_empty()).count() > 1 { c.key(&fam); }
        },
    );
    run.section(
        "structured",
        "element-like families: paths, grids (2d/3d), stars, complete families in random order with random numbering",
        300, 10000, |c| {
            let mut fam: Vec<Vec<usize>> = vec![];
            match c.rng.below(4) {
                0 => { let n = 1 + c.rng.below(200); for i in 0..n { fam.push(vec![i, i + 1]); } }
                1 => { let w = 1 + c.rng.below(12); let h = 1 + c.rng.below(12);
                       for i in 0..w { for j in 0..h { let f = |a: usize, b: usize| a * (h + 1) + b;
                         fam.push(vec![f(i,j), f(i+1,j), f(i+1,j+1), f(i,j+1)]); } } }
                2 => { let n = 1 + c.rng.below(40); for i in 0..n { fam.push(vec![0, i + 1]); } }
                _ => { let n = 1 + c.rng.below(6); for i in 0..n { for j in 0..n { for k in 0..n {
                        let f = |a: usize, b: usize, d: usize| (a * (n + 1) + b) * (n + 1) + d;
                        fam.push(vec![f(i,j,k), f(i+1,j,k), f(i,j+1,k), f(i,j,k+1), f(i+1,j+1,k), f(i+1,j,k+1), f(i,j+1,k+1), f(i+1,j+1,k+1)]);
                     } } } }
            }
            if c.rng.bool() { let mut r = c.rng.clone(); r.shuffle(&mut fam); }
            let max = fam.iter().flatten().max().copied().unwrap_or(0);
            if c.rng.bool() { let p = c.rng.perm(max + 1); for f in fam.iter_mut() { for x in f.iter_mut() { *x = p[*x]; } } }
            c.desc(format!("{} subsets", fam.len()));
            let colors = sequential_greedy_coloring(&NestedVec::from(&fam));
            judge(c, &fam, &colors);
            c.key(&fam);
        },
    );
    run.section(
        "large",
        "families beyond any small size: hundreds/thousands of subsets, subsets of hundreds/thousands of indices that conflict only in a few (late, early, middle) positions, hundreds of colors, indices beyond 2^16",
        60, 1500, |c| {
            let mut fam: Vec<Vec<usize>> = vec![];
            let kind = c.rng.below(6);
            match kind {
                // long subsets, private indices, conflicts only at chosen positions
                0 | 1 => {
                    let k = 2 + c.rng.below(12);
                    let max_len = *c.rng.pick(&[40usize, 100, 300, 600, 1500, 5000]);
                    let shared = 1 + c.rng.below(6);
                    let mut next = shared;
                    for _ in 0..k {
                        let len = 1 + c.rng.below(max_len);
                        let mut s: Vec<usize> = (next..next + len).collect();
                        next += len;
                        let hits = c.rng.below(3);
                        for _ in 0..hits {
                            let x = c.rng.below(shared);
                            let at = match c.rng.below(4) { 0 => s.len() - 1, 1 => 0, _ => c.rng.below(s.len()) };
                            s[at] = x;
                        }
                        if c.rng.chance(0.3) { s.sort(); }
                        if c.rng.chance(0.2) { s.reverse(); }
                        fam.push(s);
                    }
                    if c.rng.bool() {
                        // far away indices
                        let off = *c.rng.pick(&[250usize, 65_500, 90_000]);
                        for f in fam.iter_mut() { for x in f.iter_mut() { *x += off; } }
                    }
                }
                // many colors: everybody shares an index (or a window of indices)
                2 => {
                    let n = *c.rng.pick(&[70usize, 130, 260, 300, 520]);
                    let w = 1 + c.rng.below(n);
                    let pos = c.rng.below(3);
                    for i in 0..n {
                        let mut s: Vec<usize> = vec![n + i, 2 * n + i];
                        let sh = if c.rng.chance(0.9) { i / w } else { c.rng.below(n) };
                        s.insert(pos.min(s.len()), sh);
                        fam.push(s);
                    }
                }
                // many small random subsets
                3 => {
                    let n = *c.rng.pick(&[300usize, 1030, 2100, 4200, 9000]);
                    let m = 1 + c.rng.below(3 * n);
                    for _ in 0..n {
                        let k = c.rng.below(6);
                        fam.push((0..k).map(|_| c.rng.below(m)).collect());
                    }
                }
                // large grid in random order
                4 => {
                    let w = 10 + c.rng.below(60); let h = 10 + c.rng.below(60);
                    for i in 0..w { for j in 0..h { let f = |a: usize, b: usize| a * (h + 1) + b;
                        fam.push(vec![f(i,j), f(i+1,j), f(i+1,j+1), f(i,j+1)]); } }
                }
                // mixture: a few huge subsets spanning many small ones
                _ => {
                    let n = 200 + c.rng.below(800);
                    for i in 0..n { fam.push(vec![3 * i, 3 * i + 1, 3 * i + 2]); }
                    for _ in 0..1 + c.rng.below(4) {
                        let step = 1 + c.rng.below(9);
                        let start = c.rng.below(3 * n);
                        let s: Vec<usize> = (0..).map(|k| start + k * step).take_while(|x| *x < 3 * n).collect();
                        let at = c.rng.below(fam.len());
                        fam.insert(at, s);
                    }
                }
            }
            if c.rng.bool() { let mut r = c.rng.clone(); r.shuffle(&mut fam); }
            c.desc(format!("kind {kind}, {} subsets, longest {}", fam.len(), fam.iter().map(|f| f.len()).max().unwrap_or(0)));
            let nv = NestedVec::from(&fam);
            let colors = sequential_greedy_coloring(&nv);
            judge(c, &fam, &colors);
            if c.rng.chance(0.2) {
                let again = sequential_greedy_coloring(&nv);
                c.check(colors == again, "deterministic", || "two runs differ".into());
            }
            if colors.len() > 64 { c.count("over_64_colors", 1); }
            if fam.iter().any(|f| f.len() > 64) { c.count("long_subsets", 1); }
            c.key(&fam);
        },
    );
    run.require("long_subsets", 10);
    run.require("over_64_colors", 5);
    run.require("subsets_colored", 20_000);
    run.require("multi_color_results", 1000);
}

use fenris::connectivity::ConnectivityMut;
use fenris::mesh::reorder::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName};
use fenris::nalgebra_sparse::pattern::SparsityPattern;
use std::collections::BTreeSet;
use vfem::{plain, with_mesh_kind, Opts};
use vlib::{Case, Rng, Run};

fn is_perm(p: &[usize], n: usize) -> bool {
    let mut seen = vec![false; n];
    p.len() == n && p.iter().all(|&i| i < n && !std::mem::replace(&mut seen[i], true))
}

fn graph(rng: &mut Rng) -> (usize, Vec<BTreeSet<usize>>) {
    let large = rng.chance(0.006);
    let n = match rng.below(6) {
        _ if large => *rng.pick(&[130usize, 260, 520, 1030, 2100]) + rng.below(9),
        0 => rng.below(3),
        1 => rng.range(30, 90),
        _ => rng.range(1, 25),
    };
    let mut a = vec![BTreeSet::new(); n];
    let self_loops = rng.below(3);
    let mut style = rng.below(7);
    if n > 600 && style == 3 {
        style = 5;
    }
    let mut edge = |i: usize, j: usize| {
        a[i].insert(j);
        a[j].insert(i);
    };
    match style {
        0 => {}
        1 => (1..n).for_each(|i| edge(i - 1, i)),
        2 => (1..n).for_each(|i| edge(0, i)),
        3 => {
            for i in 0..n {
                for j in 0..i {
                    edge(i, j)
                }
            }
        }
        4 => {
            // disjoint cliques
            let k = if large { rng.range(2, 80) } else { rng.range(2, 6) };
            for i in 0..n {
                for j in 0..i {
                    if i / k == j / k {
                        edge(i, j)
                    }
                }
            }
        }
        5 => {
            let w = if large { rng.range(1, 60) } else { rng.range(1, 8) };
            for i in 0..n {
                for j in i + 1..n {
                    if (j - i == 1 && j % w != 0) || j - i == w {
                        edge(i, j)
                    }
                }
            }
        }
        _ => {
            let m = rng.below(3 * n + 1);
            for _ in 0..m {
                edge(rng.below(n), rng.below(n))
            }
        }
    }
    // relabel
    let p = rng.perm(n);
    let mut b = vec![BTreeSet::new(); n];
    for i in 0..n {
        b[p[i]] = a[i].iter().map(|&j| p[j]).collect();
        if self_loops == 1 || (self_loops == 2 && rng.bool()) {
            b[p[i]].insert(p[i]);
        }
    }
    (n, b)
}

fn pattern(n: usize, a: &[BTreeSet<usize>]) -> SparsityPattern {
    let mut offs = vec![0];
    let mut ind = vec![];
    for r in a {
        ind.extend(r.iter().cloned());
        offs.push(ind.len());
    }
    SparsityPattern::try_from_offsets_and_indices(n, n, offs, ind).unwrap()
}

/// Is `p` a Cuthill-McKee ordering of the graph (whatever the choice among equals)?
fn cm_order(p: &[usize], a: &[BTreeSet<usize>]) -> Result<usize, String> {
    let n = p.len();
    let deg = |i: usize| a[i].len();
    let mut queued = vec![false; n];
    let mut head = 0;
    let mut tail = 0;
    let mut components = 0;
    while head < n {
        if head == tail {
            let s = p[head];
            let min = (0..n).filter(|&i| !queued[i]).map(deg).min().unwrap();
            if queued[s] || deg(s) != min {
                return Err(format!("component starts at vertex {s} of degree {} but the least degree left is {min}", deg(s)));
            }
            queued[s] = true;
            tail += 1;
            components += 1;
        }
        let v = p[head];
        let mut nb: Vec<usize> = a[v].iter().cloned().filter(|&j| !queued[j]).collect();
        let next = &p[tail..tail + nb.len()];
        if next.windows(2).any(|w| deg(w[0]) > deg(w[1])) {
            return Err(format!("neighbours of {v} are not ordered by degree: {next:?}"));
        }
        let mut s = next.to_vec();
        s.sort();
        nb.sort();
        if s != nb {
            return Err(format!("the vertices following those already numbered are {s:?}, but the unnumbered neighbours of {v} are {nb:?}"));
        }
        for j in nb {
            queued[j] = true;
            tail += 1;
        }
        head += 1;
    }
    Ok(components)
}

fn check_apply<D, C>(c: &mut Case, mesh: &Mesh<f64, D, C>, name: &str)
where
    D: DimName,
    C: ConnectivityMut + Sync,
    DefaultAllocator: Allocator<f64, D>,
    Mesh<f64, D, C>: Sync,
{
    let Some(perm) = c.no_panic("reorder_panic", || reorder_mesh_par(mesh)) else { return };
    let new = perm.apply(mesh);
    let (a, b) = (plain(mesh), plain(&new));
    let vp = perm.vertex_permutation().perm().to_vec();
    let cp = perm.connectivity_permutation().perm().to_vec();
    if !c.check(is_perm(&vp, a.v.len()) && is_perm(&cp, a.c.len()), "mesh_not_permutation", || format!("{name}: vertices {vp:?} cells {cp:?}")) {
        return;
    }
    c.check(b.v.len() == a.v.len() && b.c.len() == a.c.len(), "mesh_counts", || format!("{name}"));
    c.check((0..vp.len()).all(|i| b.v[i] == a.v[vp[i]]), "mesh_vertices", || format!("{name}: vertices are not the permuted vertices"));
    for i in 0..cp.len() {
        // same cell: same vertices in the same order
        let old: Vec<usize> = b.c[i].iter().map(|&k| vp[k]).collect();
        if !c.check(old == a.c[cp[i]], "mesh_cells", || format!("{name}: new cell {i} refers to old vertices {old:?}, but old cell {} is {:?}", cp[i], a.c[cp[i]])) {
            return;
        }
    }
    c.count("relabelled_cells", cp.len() as u64);
    if a.c.len() > 1 && vp.iter().enumerate().any(|(i, &x)| i != x) {
        c.count("nontrivial_mesh_permutations", 1);
    }
}

pub fn m01(run: &mut Run) {
    run.section("orderings", "symmetric patterns (paths, stars, cliques, grids, random, disconnected, isolated, with all/some/no self loops, empty): Cuthill-McKee and its reverse are permutations that number each component breadth-first from a least-degree vertex", 48000, 2000000, |c| {
        let (n, a) = graph(&mut c.rng);
        c.key((n, &a));
        c.desc(format!("{a:?}"));
        let pat = pattern(n, &a);
        for rev in [false, true] {
            let Some(p) = c.no_panic("ordering_panic", || if rev { reverse_cuthill_mckee(&pat) } else { cuthill_mckee(&pat) }) else { return };
            let mut q = p.perm().to_vec();
            if rev {
                q.reverse();
            }
            if !c.check(is_perm(&q, n), "not_permutation", || format!("{q:?} for {n} vertices")) {
                return;
            }
            let r = cm_order(&q, &a);
            c.check(r.is_ok(), "not_breadth_first", || format!("reverse={rev} {q:?}: {}", r.clone().unwrap_err()));
            c.count("orderings", 1);
            if r.unwrap_or(0) > 1 {
                c.count("disconnected_orderings", 1);
            }
        }
    });
    run.section("unsymmetric", "unsymmetric patterns: the orderings are still permutations", 7200, 200000, |c| {
        let n = c.rng.range(0, 30);
        let m = c.rng.below(2 * n + 1);
        let mut a = vec![BTreeSet::new(); n];
        for _ in 0..m {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            a[i].insert(j);
        }
        c.key((n, &a));
        let pat = pattern(n, &a);
        let Some(p) = c.no_panic("ordering_panic", || reverse_cuthill_mckee(&pat)) else { return };
        c.check(is_perm(p.perm(), n), "not_permutation", || format!("{:?} for {n} vertices", p.perm()));
    });
    run.section("meshes", "meshes of all 10 element kinds (some with vertices not used by any cell): reordering relabels vertices and cells only", 4800, 160000, |c| {
        let kind = c.rng.below(10);
        let o = Opts::some(&mut c.rng, if kind < 4 { 80 } else { 16 });
        let unused = c.rng.chance(0.3);
        with_mesh_kind!(kind, &mut c.rng, o, |mesh, name| {
            let mut mesh = mesh;
            if unused {
                let mut v = mesh.vertices().to_vec();
                let p = v[0];
                v.push(p);
                v.push(p);
                mesh = Mesh::from_vertices_and_connectivity(v, mesh.connectivity().to_vec());
            }
            c.key((name, plain(&mesh).c));
            c.desc(format!("{name} {} cells unused={unused}", mesh.connectivity().len()));
            check_apply(c, &mesh, name);
        });
    });
    run.section("validation", "candidate lists (permutations, duplicates, out of range, huge indices, empty): accepted iff bijective, otherwise reported as error; inverse, reversal and application agree", 48000, 2000000, |c| {
        let n = c.rng.range(0, 12);
        let mut v = c.rng.perm(n);
        if n > 0 {
            for _ in 0..c.rng.below(3) {
                let i = c.rng.below(n);
                v[i] = match c.rng.below(5) {
                    0 => n,
                    1 => usize::MAX,
                    2 => n + c.rng.below(4),
                    3 => c.rng.below(n),
                    _ => v[i],
                };
            }
        }
        c.key(&v);
        c.desc(format!("{v:?}"));
        let good = is_perm(&v, n);
        let w = v.clone();
        let Some(r) = c.no_panic("validation_panic", || Permutation::from_vec(w)) else { return };
        if !c.check(r.is_ok() == good, "validation", || format!("{v:?}: accepted = {}, bijective = {good}", r.is_ok())) {
            return;
        }
        c.count(if good { "accepted_lists" } else { "rejected_lists" }, 1);
        let Ok(p) = r else { return };
        c.check(p.perm() == v && p.len() == n && (0..n).all(|i| p.source_index(i) == v[i]), "accessors", || format!("{p:?}"));
        let inv = p.inverse();
        c.check(inv.len() == n && (0..n).all(|i| inv.source_index(p.source_index(i)) == i && p.source_index(inv.source_index(i)) == i), "inverse", || format!("{p:?} has inverse {inv:?}"));
        let data: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
        let t = p.apply_to_slice(&data);
        c.check((0..n).all(|i| t[i] == data[v[i]]) && t.len() == n, "apply", || format!("{p:?}: {t:?}"));
        c.check(inv.apply_to_slice(&t) == data, "inverse_apply", || format!("{p:?}"));
        let mut r = p.clone();
        r.reverse();
        let mut t2 = t.clone();
        t2.reverse();
        c.check(r.apply_to_slice(&data) == t2, "reverse", || format!("{p:?} reversed {r:?}"));
    });
    run.require("orderings", 2000);
    run.require("disconnected_orderings", 300);
    run.require("nontrivial_mesh_permutations", 100);
    run.require("rejected_lists", 300);
    run.require("accepted_lists", 300);
}

//! An instrumented element assembler over arbitrary connectivity, with exactly representable contributions,
//! fault injection, delays, visit counters and an ownership monitor for concurrently assembled elements.
use fenris::assembly::local::{
    ElementConnectivityAssembler, ElementMatrixAssembler, ElementScalarAssembler, ElementVectorAssembler,
};
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use fenris::space::FiniteElementConnectivity;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use vlib::Rng;

#[derive(Debug)]
pub struct Synth {
    pub sdim: usize,
    pub num_nodes: usize,
    pub conn: Vec<Vec<usize>>,
    pub mats: Vec<DMatrix<f64>>,
    pub vecs: Vec<DVector<f64>>,
    pub scalars: Vec<f64>,
    pub fail: BTreeSet<usize>,
    /// write garbage before failing
    pub dirty_fail: bool,
    /// microseconds of busy delay per element (0 = none)
    pub delay: Vec<u32>,
    pub visits: Vec<AtomicU32>,
    /// per node: element index + 1 currently being assembled
    pub owner: Vec<AtomicUsize>,
    pub check_ownership: bool,
    pub conflicts: AtomicU64,
    pub active: AtomicUsize,
    pub max_active: AtomicUsize,
    /// all values are integers times this power of two
    pub scale: f64,
}

pub fn intval(rng: &mut Rng) -> f64 {
    rng.range(0, 200) as f64 - 100.0
}

/// Random connectivity. `dup`: allow a node repeated within an element.
pub fn random_conn(rng: &mut Rng, max_elems: usize, max_nodes: usize, dup: bool) -> (usize, Vec<Vec<usize>>) {
    let num_nodes = rng.range(if max_elems == 0 { 0 } else { 1 }, max_nodes);
    let ne = rng.range(0, max_elems);
    let fixed = if rng.bool() { Some(rng.range(1, 6)) } else { None };
    let local = rng.bool();
    let conn = (0..ne)
        .map(|_| {
            let lo = if rng.chance(0.1) { 0 } else { 1 };
            let k = fixed.unwrap_or_else(|| rng.range(lo, 9)).min(num_nodes);
            let base = rng.below(num_nodes.max(1));
            let mut e: Vec<usize> = vec![];
            let mut tries = 0;
            while e.len() < k && tries < 200 {
                tries += 1;
                let n = if local { (base + rng.below(12)) % num_nodes } else { rng.below(num_nodes) };
                if dup || !e.contains(&n) {
                    e.push(n);
                }
            }
            e
        })
        .collect();
    (num_nodes, conn)
}

/// Connectivities far beyond small sizes: (solution dimension, nodes, elements)
pub fn large_conn(rng: &mut Rng) -> (usize, usize, Vec<Vec<usize>>) {
    let pick = |rng: &mut Rng, k: usize, n: usize| -> Vec<usize> {
        let k = k.min(n);
        let mut e: Vec<usize> = vec![];
        if 2 * k > n {
            let p = rng.perm(n);
            return p[..k].to_vec();
        }
        while e.len() < k {
            let x = rng.below(n);
            if !e.contains(&x) {
                e.push(x);
            }
        }
        e
    };
    match rng.below(5) {
        // thousands of small elements
        0 | 1 => {
            let ne = *rng.pick(&[130usize, 260, 515, 1030, 2050, 4100]) + rng.below(64);
            let nn = rng.range(20, 2 * ne);
            let local = rng.bool();
            let kmax = rng.range(1, 4);
            let conn = (0..ne)
                .map(|i| {
                    let k = rng.range(1, kmax);
                    if local {
                        let b = i * nn / ne;
                        (0..k.min(nn)).map(|j| (b + j) % nn).collect()
                    } else {
                        pick(rng, k, nn)
                    }
                })
                .collect();
            (rng.range(1, 2), nn, conn)
        }
        // elements with many nodes
        2 => {
            let sdim = rng.range(1, 3);
            let kmax = 200 / sdim;
            let nn = rng.range(kmax / 2, 3 * kmax);
            let ne = rng.range(1, 6);
            let conn = (0..ne)
                .map(|_| {
                    let k = if rng.chance(0.3) { rng.range(0, 4) } else { rng.range(9, kmax) };
                    pick(rng, k, nn)
                })
                .collect();
            (sdim, nn, conn)
        }
        // a hub node shared by (almost) all elements: very long rows, many colors
        3 => {
            let ne = *rng.pick(&[40usize, 70, 140, 270, 530]);
            let nn = rng.range(ne, 3 * ne);
            let conn = (0..ne)
                .map(|_| {
                    let k = rng.range(1, 3);
                    let mut e = pick(rng, k, nn);
                    if rng.chance(0.9) && !e.contains(&0) {
                        let at = rng.below(e.len() + 1);
                        e.insert(at, 0);
                    }
                    e
                })
                .collect();
            (rng.range(1, 3), nn, conn)
        }
        // many components per node
        _ => {
            let sdim = rng.range(5, 40);
            let nn = rng.range(1, 30);
            let ne = rng.range(1, 12);
            let conn = (0..ne)
                .map(|_| {
                    let k = rng.range(1, 3);
                    pick(rng, k, nn)
                })
                .collect();
            (sdim, nn, conn)
        }
    }
}

impl Synth {
    pub fn large(rng: &mut Rng) -> Self {
        let (s, n, c) = large_conn(rng);
        Self::new(rng, s, n, c)
    }
    pub fn new(rng: &mut Rng, sdim: usize, num_nodes: usize, conn: Vec<Vec<usize>>) -> Self {
        let mut mats = vec![];
        let mut vecs = vec![];
        let mut scalars = vec![];
        for c in &conn {
            let n = sdim * c.len();
            let mut m = DMatrix::zeros(n, n);
            for x in m.iter_mut() {
                *x = intval(rng);
            }
            mats.push(m);
            let mut v = DVector::zeros(n);
            for x in v.iter_mut() {
                *x = intval(rng);
            }
            vecs.push(v);
            scalars.push(intval(rng));
        }
        let ne = conn.len();
        Synth {
            sdim,
            num_nodes,
            conn,
            mats,
            vecs,
            scalars,
            fail: BTreeSet::new(),
            dirty_fail: false,
            delay: vec![0; ne],
            visits: (0..ne).map(|_| AtomicU32::new(0)).collect(),
            owner: (0..num_nodes).map(|_| AtomicUsize::new(0)).collect(),
            check_ownership: false,
            conflicts: AtomicU64::new(0),
            active: AtomicUsize::new(0),
            max_active: AtomicUsize::new(0),
            scale: 1.0,
        }
    }
    /// Now and then all contributions are minute or huge (an exact power of two times integers)
    pub fn random_scale(mut self, rng: &mut Rng) -> Self {
        if rng.chance(0.3) {
            let f = 2f64.powi(*rng.pick(&[-60, -90, -300, 70, 200]));
            self.scale *= f;
            self.mats.iter_mut().for_each(|m| *m *= f);
            self.vecs.iter_mut().for_each(|v| *v *= f);
            self.scalars.iter_mut().for_each(|x| *x *= f);
        }
        self
    }
    pub fn random(rng: &mut Rng, max_elems: usize, max_nodes: usize, dup: bool) -> Self {
        let (n, c) = random_conn(rng, max_elems, max_nodes, dup);
        let s = rng.range(1, 4);
        Self::new(rng, s, n, c)
    }
    pub fn random_delays(&mut self, rng: &mut Rng, p: f64, max_us: u32) {
        for d in &mut self.delay {
            *d = if rng.chance(p) { 1 + rng.below(max_us as usize) as u32 } else { 0 };
        }
    }
    pub fn reset(&self) {
        for v in &self.visits {
            v.store(0, SeqCst);
        }
        self.conflicts.store(0, SeqCst);
        self.max_active.store(0, SeqCst);
    }
    pub fn visit_counts(&self) -> Vec<u32> {
        self.visits.iter().map(|v| v.load(SeqCst)).collect()
    }
    pub fn pattern(&self) -> BTreeSet<(usize, usize)> {
        let mut s = BTreeSet::new();
        for c in &self.conn {
            for &a in c {
                for &b in c {
                    for i in 0..self.sdim {
                        for j in 0..self.sdim {
                            s.insert((a * self.sdim + i, b * self.sdim + j));
                        }
                    }
                }
            }
        }
        s
    }
    pub fn matrix(&self) -> BTreeMap<(usize, usize), f64> {
        let mut m = BTreeMap::new();
        let s = self.sdim;
        for (e, c) in self.conn.iter().enumerate() {
            for (la, &a) in c.iter().enumerate() {
                for (lb, &b) in c.iter().enumerate() {
                    for i in 0..s {
                        for j in 0..s {
                            *m.entry((a * s + i, b * s + j)).or_insert(0.0) += self.mats[e][(la * s + i, lb * s + j)];
                        }
                    }
                }
            }
        }
        m
    }
    pub fn vector(&self) -> Vec<f64> {
        let s = self.sdim;
        let mut v = vec![0.0; s * self.num_nodes];
        for (e, c) in self.conn.iter().enumerate() {
            for (la, &a) in c.iter().enumerate() {
                for i in 0..s {
                    v[a * s + i] += self.vecs[e][la * s + i];
                }
            }
        }
        v
    }
    pub fn scalar(&self) -> f64 {
        self.scalars.iter().sum()
    }
    fn enter(&self, e: usize, exclusive: bool) {
        self.visits[e].fetch_add(1, SeqCst);
        let a = self.active.fetch_add(1, SeqCst) + 1;
        self.max_active.fetch_max(a, SeqCst);
        if self.check_ownership && exclusive {
            for &n in &self.conn[e] {
                let old = self.owner[n].swap(e + 1, SeqCst);
                if old != 0 && old != e + 1 {
                    self.conflicts.fetch_add(1, SeqCst);
                }
            }
        }
        let us = self.delay[e];
        if us > 0 {
            let t = std::time::Instant::now();
            while t.elapsed().as_micros() < us as u128 {
                std::hint::spin_loop();
                if us > 20 {
                    std::thread::yield_now();
                }
            }
        }
    }
    fn leave(&self, e: usize) {
        if self.check_ownership {
            for &n in &self.conn[e] {
                let _ = self.owner[n].compare_exchange(e + 1, 0, SeqCst, SeqCst);
            }
        }
        self.active.fetch_sub(1, SeqCst);
    }
    fn error(&self, e: usize) -> eyre::Report {
        eyre::eyre!("injected-fault-{e}-end")
    }
}

/// Which element did an error originate from (anywhere in its chain)?
pub fn fault_of(err: &eyre::Report) -> Option<usize> {
    for c in err.chain() {
        let s = c.to_string();
        if let Some(i) = s.find("injected-fault-") {
            let r = &s[i + 15..];
            return r.split('-').next().and_then(|x| x.parse().ok());
        }
    }
    None
}

impl ElementConnectivityAssembler for Synth {
    fn solution_dim(&self) -> usize {
        self.sdim
    }
    fn num_elements(&self) -> usize {
        self.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.conn[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        out.copy_from_slice(&self.conn[e])
    }
}
impl FiniteElementConnectivity for Synth {
    fn num_elements(&self) -> usize {
        self.conn.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.conn[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        out.copy_from_slice(&self.conn[e])
    }
}
impl ElementMatrixAssembler<f64> for Synth {
    fn assemble_element_matrix_into(&self, e: usize, mut out: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.enter(e, true);
        let r = if self.fail.contains(&e) {
            if self.dirty_fail {
                out.fill(7777.0);
            }
            Err(self.error(e))
        } else {
            out.copy_from(&self.mats[e]);
            Ok(())
        };
        self.leave(e);
        r
    }
}
impl ElementVectorAssembler<f64> for Synth {
    fn assemble_element_vector_into(&self, e: usize, mut out: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.enter(e, true);
        let r = if self.fail.contains(&e) {
            if self.dirty_fail {
                out.fill(7777.0);
            }
            Err(self.error(e))
        } else {
            out.copy_from(&self.vecs[e]);
            Ok(())
        };
        self.leave(e);
        r
    }
}
impl ElementScalarAssembler<f64> for Synth {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.enter(e, false); // scalars do not share data
        let r = if self.fail.contains(&e) { Err(self.error(e)) } else { Ok(self.scalars[e]) };
        self.leave(e);
        r
    }
}

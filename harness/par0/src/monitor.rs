//! An instrumented collection: every record access goes through an ownership monitor that detects
//! two tasks holding the same record, out-of-range addresses, and records touched by two subsets.
use fenris_paradis::{ParallelIndexedAccess, ParallelIndexedCollection};
use std::sync::atomic::{AtomicIsize, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Monitor {
    pub state: Vec<AtomicIsize>,
    pub events: AtomicU64,
    pub conflicts: Mutex<Vec<String>>,
    pub accesses_created: AtomicU64,
    /// log of (index, mutable)
    pub touched: Vec<AtomicU64>,
}

impl Monitor {
    pub fn new(n: usize) -> Self {
        Monitor {
            state: (0..n).map(|_| AtomicIsize::new(0)).collect(),
            events: AtomicU64::new(0),
            conflicts: Mutex::new(vec![]),
            accesses_created: AtomicU64::new(0),
            touched: (0..n).map(|_| AtomicU64::new(0)).collect(),
        }
    }
    fn conflict(&self, s: String) {
        let mut c = self.conflicts.lock().unwrap();
        if c.len() < 20 {
            c.push(s);
        }
    }
    pub fn take_conflicts(&self) -> Vec<String> {
        self.conflicts.lock().unwrap().clone()
    }
    pub fn events(&self) -> u64 {
        self.events.load(SeqCst)
    }
}

pub struct Coll<'m>(pub &'m Monitor);
#[derive(Clone, Copy)]
pub struct Acc<'m>(pub &'m Monitor);

pub struct RGuard<'m> {
    m: &'m Monitor,
    pub index: usize,
}
pub struct WGuard<'m> {
    m: &'m Monitor,
    pub index: usize,
}
impl<'m> Drop for RGuard<'m> {
    fn drop(&mut self) {
        if let Some(s) = self.m.state.get(self.index) {
            s.fetch_sub(1, SeqCst);
        }
    }
}
impl<'m> Drop for WGuard<'m> {
    fn drop(&mut self) {
        if let Some(s) = self.m.state.get(self.index) {
            s.fetch_add(1_000_000, SeqCst);
        }
    }
}

unsafe impl<'r, 'm: 'r> ParallelIndexedAccess<'r> for Acc<'m> {
    type Record = RGuard<'r>;
    type RecordMut = WGuard<'r>;
    unsafe fn get_unchecked(&self, index: usize) -> RGuard<'r> {
        self.0.events.fetch_add(1, SeqCst);
        match self.0.state.get(index) {
            None => self.0.conflict(format!("read access to record {index} of {}", self.0.state.len())),
            Some(s) => {
                if s.fetch_add(1, SeqCst) < 0 {
                    self.0.conflict(format!("record {index} read while another task holds it mutably"));
                }
                self.0.touched[index].fetch_add(1, SeqCst);
            }
        }
        RGuard { m: self.0, index }
    }
    unsafe fn get_unchecked_mut(&self, index: usize) -> WGuard<'r> {
        self.0.events.fetch_add(1, SeqCst);
        match self.0.state.get(index) {
            None => self.0.conflict(format!("mutable access to record {index} of {}", self.0.state.len())),
            Some(s) => {
                if s.fetch_sub(1_000_000, SeqCst) != 0 {
                    self.0.conflict(format!("record {index} accessed mutably while already held"));
                }
                self.0.touched[index].fetch_add(1, SeqCst);
            }
        }
        WGuard { m: self.0, index }
    }
}

unsafe impl<'a, 'm> ParallelIndexedCollection<'a> for Coll<'m> {
    type Access = Acc<'m>;
    unsafe fn create_access(&'a mut self) -> Acc<'m> {
        self.0.accesses_created.fetch_add(1, SeqCst);
        Acc(self.0)
    }
    fn len(&self) -> usize {
        self.0.state.len()
    }
}

//! Not part of rayon: control over the schedule of the joins of one thread.

use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Ctl {
    threads: usize,
    /// One per join, in the order in which the joins start. Bit 0: the second closure runs first;
    /// bit 1: it is told that it was stolen; bit 2: the first closure is told so (outermost joins only)
    decisions: Vec<u8>,
    used: usize,
    depth: usize,
    log: Vec<(char, usize)>,
}

thread_local!(static CTL: RefCell<Option<Ctl>> = RefCell::new(None));

/// From now on, on this thread
pub fn begin(threads: usize, decisions: Vec<u8>) {
    CTL.with(|c| {
        *c.borrow_mut() = Some(Ctl {
            threads,
            decisions,
            used: 0,
            depth: 0,
            log: Vec::new(),
        })
    })
}

/// What happened: `(`, `a`, `b`, `)` with the number of the join
pub fn end() -> Vec<(char, usize)> {
    CTL.with(|c| c.borrow_mut().take().map_or(Vec::new(), |c| c.log))
}

pub(super) fn threads() -> Option<usize> {
    CTL.with(|c| c.borrow().as_ref().map(|c| c.threads))
}

pub(super) struct Plan {
    id: usize,
    pub(super) b_first: bool,
    pub(super) a_migrated: bool,
    pub(super) b_migrated: bool,
}

fn log(what: char, id: usize) {
    CTL.with(|c| {
        if let Some(c) = &mut *c.borrow_mut() {
            match what {
                '(' => c.depth += 1,
                ')' => c.depth -= 1,
                _ => {}
            }
            c.log.push((what, id))
        }
    })
}

pub(super) fn next_join() -> Option<Plan> {
    let plan = CTL.with(|c| {
        c.borrow_mut().as_mut().map(|c| {
            let d = c.decisions.get(c.used).copied().unwrap_or(0);
            c.used += 1;
            Plan {
                id: c.used,
                b_first: d & 1 != 0,
                b_migrated: d & 2 != 0,
                a_migrated: d & 4 != 0 && c.depth == 0,
            }
        })
    });
    if let Some(plan) = &plan {
        log('(', plan.id)
    }
    plan
}

impl Plan {
    pub(super) fn run_a<R>(&self, f: impl FnOnce() -> R) -> R {
        log('a', self.id);
        f()
    }
    pub(super) fn run_b<R>(&self, f: impl FnOnce() -> R) -> R {
        log('b', self.id);
        f()
    }
    pub(super) fn done(&self) {
        log(')', self.id)
    }
}

static NOISE: AtomicUsize = AtomicUsize::new(0);

/// Delay joins now and then, for other threads to take their work: 0 for never
pub fn set_noise(seed: usize) {
    NOISE.store(seed, Ordering::SeqCst)
}

pub(super) fn noise() {
    let n = NOISE.load(Ordering::Relaxed);
    if n != 0 {
        let n = n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        NOISE.store(n, Ordering::Relaxed);
        match (n >> 33) % 8 {
            0 => std::thread::sleep(std::time::Duration::from_micros((n >> 40) as u64 % 200)),
            1 | 2 => std::thread::yield_now(),
            _ => {}
        }
    }
}

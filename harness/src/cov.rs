//! Edge coverage of the crate under test, if it was built with the sanitizer-coverage pass.
//! Only used to steer the workload; never for verdicts.

use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

/// Called by the instrumented object's constructor.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (a, b) = (start as usize, stop as usize);
    if b > a && b - a > STOP.load(Relaxed) - START.load(Relaxed) {
        START.store(a, Relaxed);
        STOP.store(b, Relaxed);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Relaxed), STOP.load(Relaxed));
    if a == 0 {
        return &mut [];
    }
    // SAFETY: the range is the instrumented object's counter section, which lives forever. The
    // counters are plain bytes which only the thread running the code under test changes.
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

pub fn reset() {
    counters().fill(0);
}

pub struct Map {
    seen: Vec<u8>,
    pub edges: usize,
}

impl Map {
    pub fn new() -> Map {
        Map { seen: vec![], edges: 0 }
    }

    /// Whether the run since `reset` did something new: an edge, or an order of magnitude.
    pub fn merge(&mut self) -> bool {
        let c = counters();
        if self.seen.len() != c.len() {
            self.seen = vec![0; c.len()];
        }
        let mut fresh = false;
        let (pre, words, post) = unsafe { c.align_to::<u64>() };
        let mut at = 0;
        let mut one = |i: usize, v: u8, seen: &mut Vec<u8>, edges: &mut usize| {
            if v != 0 {
                let bucket = match v {
                    1 => 1u8,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if seen[i] & bucket == 0 {
                    if seen[i] == 0 {
                        *edges += 1;
                    }
                    seen[i] |= bucket;
                    fresh = true;
                }
            }
        };
        for &v in pre.iter() {
            one(at, v, &mut self.seen, &mut self.edges);
            at += 1;
        }
        for &w in words.iter() {
            if w != 0 {
                for (k, v) in w.to_ne_bytes().into_iter().enumerate() {
                    one(at + k, v, &mut self.seen, &mut self.edges);
                }
            }
            at += 8;
        }
        for &v in post.iter() {
            one(at, v, &mut self.seen, &mut self.edges);
            at += 1;
        }
        fresh
    }
}

pub fn total() -> usize {
    counters().len()
}

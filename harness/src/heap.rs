//! An allocator which counts, per thread, what is live and what the peak was.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        if n > 0 {
            let _ = CALLS.try_with(|t| t.set(t.get() + 1));
        }
    });
}

// SAFETY: everything is passed on to the system's allocator; the counters don't allocate.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(-(l.size() as isize));
        add(n as isize);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Usage {
    pub peak: usize,
    pub calls: usize,
    /// what is still allocated, compared to before
    pub left: isize,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(live));
    let calls = CALLS.with(Cell::get);
    let r = f();
    let u = Usage {
        peak: (PEAK.with(Cell::get) - live).max(0) as usize,
        calls: CALLS.with(Cell::get) - calls,
        left: LIVE.with(Cell::get) - live,
    };
    (r, u)
}

//! A file mapped by a worker and its supervisor: what the worker is doing right now, which
//! survives however the worker ends, and the counts of what it has done.

use std::{fs::OpenOptions, os::fd::AsRawFd, path::Path, ptr};

pub const INPUT_MAX: usize = 8 << 20;
const HEAD: usize = 4096;

macro_rules! slots { ($($n:ident),* $(,)?) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum S { $($n),* }
}; }
slots!(
    Seq, Running, Flags, Len, Done, Evaluations, RealCalls, Accepted, Rejected,
    NoVerdict, NonTrivial, FeatsLo, FeatsHi, Edges, EdgesTotal, MaxNodes, MaxDepth, MaxText,
    MaxInput, MaxPeakHeap, MaxCpuMicros, MaxAllocs, OutOfScope, Panics, Queue, FlagSets,
    BadSyntax, BadBackref, BadNumber, BadStr, BadStructor, BadTrailing, Oversize, Threads,
    Histories, Compared, Skipped,
);

pub struct Shm {
    p: *mut u8,
}

// SAFETY: plain memory, used by one thread of the worker at a time; the supervisor only reads.
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

impl Shm {
    pub fn open(path: &Path) -> Shm {
        let f = OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("shared file");
        let n = HEAD + INPUT_MAX;
        f.set_len(n as u64).expect("shared file");
        // SAFETY: a fresh shared mapping of a file of that length
        let p = unsafe {
            libc::mmap(
                ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Shm { p: p.cast() }
    }
    fn slot(&self, s: S) -> *mut u64 {
        // SAFETY: within the header
        unsafe { self.p.cast::<u64>().add(s as usize) }
    }
    pub fn get(&self, s: S) -> u64 {
        // SAFETY: see above
        unsafe { ptr::read_volatile(self.slot(s)) }
    }
    pub fn set(&self, s: S, v: u64) {
        // SAFETY: see above
        unsafe { ptr::write_volatile(self.slot(s), v) }
    }
    pub fn inc(&self, s: S) {
        self.set(s, self.get(s) + 1);
    }
    pub fn max(&self, s: S, v: u64) {
        if v > self.get(s) {
            self.set(s, v);
        }
    }
    /// Notes that the code under test is about to see this.
    pub fn begin(&self, input: &str, flags: u16) {
        let n = input.len().min(INPUT_MAX);
        // SAFETY: within the mapping
        unsafe { ptr::copy_nonoverlapping(input.as_ptr(), self.p.add(HEAD), n) };
        self.set(S::Len, input.len() as u64);
        self.set(S::Flags, flags.into());
        self.inc(S::Seq);
        self.set(S::Running, 1);
    }
    pub fn end(&self) {
        self.set(S::Running, 0);
    }
    /// The input which was being run, unless it was too long to be kept.
    pub fn current(&self) -> Option<(String, u16)> {
        let n = self.get(S::Len) as usize;
        if n > INPUT_MAX {
            return None;
        }
        // SAFETY: within the mapping
        let b = unsafe { std::slice::from_raw_parts(self.p.add(HEAD), n) };
        Some((String::from_utf8(b.to_vec()).ok()?, self.get(S::Flags) as u16))
    }
}

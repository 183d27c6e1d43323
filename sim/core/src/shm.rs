//! The memory shared between a worker and the simulated process it forks.
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering};

pub const MAXREC: usize = 1 << 17;
pub const COV: usize = 1 << 16;
pub const NKINDS: usize = 64;

#[repr(C)]
pub struct Buf<const N: usize> {
    pub len: AtomicUsize,
    pub lost: AtomicUsize,
    data: [u8; N],
}
impl<const N: usize> Buf<N> {
    pub fn clear(&self) {
        self.len.store(0, Ordering::SeqCst);
        self.lost.store(0, Ordering::SeqCst);
    }
    pub fn append(&self, b: &[u8]) {
        let l = self.len.load(Ordering::SeqCst);
        let n = b.len().min(N - l);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), (self.data.as_ptr() as *mut u8).add(l), n);
        }
        self.len.store(l + n, Ordering::SeqCst);
        if n < b.len() {
            self.lost.fetch_add(b.len() - n, Ordering::SeqCst);
        }
    }
    pub fn get(&self) -> Vec<u8> {
        let l = self.len.load(Ordering::SeqCst).min(N);
        self.data[..l].to_vec()
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rec {
    pub stream: u32,
    pub idx: u64,
    pub val: u32,
}

pub const ST_RUNNING: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_CRASH: u32 = 2;
pub const ST_HANG: u32 = 3;
pub const ST_DEADLOCK: u32 = 4;
pub const ST_EXIT: u32 = 5;
pub const ST_HARNESS: u32 = 6;

#[repr(C)]
pub struct Shm {
    pub status: AtomicU32,
    pub code: AtomicI32,
    pub vtime: AtomicU64,
    pub edges: AtomicU64,
    pub steps: AtomicU64,
    pub switches: AtomicU64,
    pub schedhash: AtomicU64,
    pub peak: AtomicU64,
    pub threads: AtomicU32,
    pub panics: AtomicU32,
    pub escapes: AtomicU32,
    pub requests: AtomicU32,
    pub counts: [AtomicU32; NKINDS],
    pub nrec: AtomicUsize,
    pub events: Buf<{ 1 << 19 }>,
    pub panic_text: Buf<{ 1 << 14 }>,
    pub out: Buf<{ 1 << 21 }>,
    pub err: Buf<{ 1 << 18 }>,
    pub result: Buf<{ 1 << 24 }>,
    pub trace: Buf<{ 1 << 20 }>,
    pub rec: [Rec; MAXREC],
    pub cov: [u8; COV],
}

/// Turn taking between two simulated processes.
#[repr(C)]
pub struct Turn {
    pub turn: AtomicU32,
    pub done: [AtomicU32; 2],
}

pub fn map_shared<T>() -> &'static T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const T)
    }
}

impl Shm {
    pub fn reset(&self) {
        for a in [&self.status, &self.threads, &self.panics, &self.escapes, &self.requests] {
            a.store(0, Ordering::SeqCst);
        }
        self.code.store(0, Ordering::SeqCst);
        for a in [&self.vtime, &self.edges, &self.steps, &self.switches, &self.schedhash, &self.peak] {
            a.store(0, Ordering::SeqCst);
        }
        for c in &self.counts {
            c.store(0, Ordering::SeqCst);
        }
        self.nrec.store(0, Ordering::SeqCst);
        self.events.clear();
        self.panic_text.clear();
        self.out.clear();
        self.err.clear();
        self.result.clear();
        self.trace.clear();
    }
    /// Is there room for more than so many decisions?
    pub fn room(&self, n: usize) -> bool {
        self.nrec.load(Ordering::SeqCst) + n < MAXREC
    }
    pub fn record(&self, r: Rec) {
        let n = self.nrec.load(Ordering::SeqCst);
        if n < MAXREC {
            unsafe {
                (self.rec.as_ptr() as *mut Rec).add(n).write(r);
            }
            self.nrec.store(n + 1, Ordering::SeqCst);
        }
    }
    pub fn recs(&self) -> Vec<Rec> {
        self.rec[..self.nrec.load(Ordering::SeqCst).min(MAXREC)].to_vec()
    }
}

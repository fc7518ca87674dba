//! Live heap memory of the process, for checks that bound what the code under test may take.
use crate::step::{bump, bumped, stepping};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = match bump(l.size(), l.align()) {
            p if p.is_null() => System.alloc(l),
            p => return p,
        };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = match bump(l.size(), l.align()) {
            p if p.is_null() => System.alloc_zeroed(l),
            p => {
                p.write_bytes(0, l.size());
                return p;
            }
        };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if bumped(p) || stepping() {
            return; // what stepped code frees of the ordinary heap is left alone
        }
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if bumped(p) || stepping() {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n >= l.size() {
                add(n - l.size());
            } else {
                LIVE.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}

/// Starts a measurement; returns the live bytes now.
pub fn mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}

/// Highest number of live bytes since `mark` beyond what was live then.
pub fn grown(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}

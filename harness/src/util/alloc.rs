//! Counting global allocator: allocations per thread (for "never allocates") and live/peak bytes of the
//! whole process (for "bounded memory"). Beyond a hard cap it reports failure, so that runaway memory use
//! ends the monitored process instead of the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
pub static TRACK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 8 << 30;

fn add(n: usize) -> bool {
    if TRACK.load(Relaxed) {
        let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
        if (l as isize) > 0 {
            PEAK.fetch_max(l, Relaxed);
            if l > CAP && l < usize::MAX / 2 {
                return false;
            }
        }
    }
    true
}
fn sub(n: usize) {
    if TRACK.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if l.size() > CAP || !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if l.size() > CAP || !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if n > CAP || !add(n) {
            return std::ptr::null_mut();
        }
        sub(l.size());
        System.realloc(p, l, n)
    }
}

/// number of allocations made so far by this thread
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
/// start measuring live bytes from zero
pub fn start_tracking() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    TRACK.store(true, Relaxed);
}
pub fn live() -> isize {
    LIVE.load(Relaxed) as isize
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}

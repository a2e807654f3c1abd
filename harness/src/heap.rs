//! Memory which is allocated, also by anonymous mappings
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);

struct Counting;

fn more(n: usize) {
    let now = NOW.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

/// Fresh and freed memory contains garbage, as far as it is not too large
const GARBAGE: usize = 64 << 20;
const SMALL: usize = 1 << 20;

unsafe fn spoil(p: *mut u8, from: usize, to: usize, with: u8) {
    if !p.is_null() && from < to.min(GARBAGE) {
        std::ptr::write_bytes(p.add(from), with, to.min(GARBAGE) - from);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        let p = System.alloc(l);
        spoil(p, 0, l.size(), 0xa5);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        spoil(p, 0, l.size().min(SMALL), 0xdb);
        System.dealloc(p, l)
    }
    // both blocks may exist for some time
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n);
        NOW.fetch_sub(l.size(), Relaxed);
        if n > SMALL || l.size() > SMALL {
            let q = System.realloc(p, l, n);
            spoil(q, l.size(), n, 0xa5);
            return q;
        }
        // small blocks always move
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            spoil(q, l.size(), n, 0xa5);
            spoil(p, 0, l.size(), 0xdb);
            System.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Large anonymous mappings
struct Maps(std::cell::UnsafeCell<Vec<(usize, usize)>>);
// The harness has a single thread
unsafe impl Sync for Maps {}
static MAPS: Maps = Maps(std::cell::UnsafeCell::new(vec![]));

pub fn mapped(a: usize, n: usize) {
    if n >= 1 << 20 {
        more(n);
        unsafe { (*MAPS.0.get()).push((a, n)) };
    }
}
pub fn unmapped(a: usize) {
    let maps = unsafe { &mut *MAPS.0.get() };
    if let Some(i) = maps.iter().position(|m| m.0 == a) {
        NOW.fetch_sub(maps.swap_remove(i).1, Relaxed);
    }
}

pub fn start() {
    BASE.store(NOW.load(Relaxed), Relaxed);
    PEAK.store(NOW.load(Relaxed), Relaxed);
}
/// Bytes allocated at most since the start, in addition to those before
pub fn used() -> usize {
    PEAK.load(Relaxed) - BASE.load(Relaxed)
}

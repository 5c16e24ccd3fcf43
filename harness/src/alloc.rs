//! Global allocator that accounts for live bytes and blocks, overwrites freed
//! memory with a pattern and delays its reuse (a small quarantine), so that a
//! use after free reads the pattern instead of plausible old contents.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static FREED: AtomicU64 = AtomicU64::new(0);
static POISON: AtomicBool = AtomicBool::new(false);
pub const PATTERN: u8 = 0xDB;

const QN: usize = 4096;
static QPTR: [AtomicPtr<u8>; QN] = [const { AtomicPtr::new(std::ptr::null_mut()) }; QN];
static QLAY: [AtomicUsize; QN * 2] = [const { AtomicUsize::new(0) }; QN * 2];
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QLOCK: AtomicBool = AtomicBool::new(false);

thread_local! {
    static FREE_HOOK: Cell<Option<fn(usize, usize)>> = const { Cell::new(None) };
}
static GLOBAL_HOOK: AtomicUsize = AtomicUsize::new(0);

/// Poison and quarantine freed blocks from now on.
pub fn set_poison(on: bool) {
    POISON.store(on, Relaxed);
}
/// Called with (address, size) of every block handed out.
pub fn set_alloc_hook(f: Option<fn(usize, usize)>) {
    GLOBAL_HOOK.store(f.map_or(0, |f| f as usize), Relaxed);
}
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
pub fn reset_peak() {
    PEAK.store(LIVE_BYTES.load(Relaxed), Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            let n = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            if n > PEAK.load(Relaxed) {
                PEAK.fetch_max(n, Relaxed);
            }
            crate::weak::allocated(p as usize, l.size());
            let h = GLOBAL_HOOK.load(Relaxed);
            if h != 0 {
                let f: fn(usize, usize) = unsafe { std::mem::transmute(h) };
                f(p as usize, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        FREED.fetch_add(1, Relaxed);
        crate::weak::freed(p as usize, l.size());
        if POISON.load(Relaxed) && l.size() <= 4096 {
            unsafe { p.write_bytes(PATTERN, l.size()) };
            // swap with the oldest quarantined block
            while QLOCK.compare_exchange_weak(false, true, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
                std::hint::spin_loop();
            }
            let i = QPOS.fetch_add(1, Relaxed) % QN;
            let old = QPTR[i].swap(p, Relaxed);
            let os = QLAY[i * 2].swap(l.size(), Relaxed);
            let oa = QLAY[i * 2 + 1].swap(l.align(), Relaxed);
            QLOCK.store(false, std::sync::atomic::Ordering::Release);
            if !old.is_null() {
                unsafe { System.dealloc(old, Layout::from_size_align_unchecked(os, oa)) };
            }
            return;
        }
        unsafe { System.dealloc(p, l) };
    }
}

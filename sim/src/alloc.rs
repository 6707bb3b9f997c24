//! The simulated allocator: counts what each thread holds, and refuses what no file can justify.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BASE: Cell<i64> = const { Cell::new(0) };
}

/// The most that one thread may hold.
pub const LIMIT: i64 = 1 << 30;

fn grow(n: i64) -> bool {
    LIVE.try_with(|live| {
        let v = live.get() + n;
        if n > 0 && v > LIMIT {
            return false;
        }
        live.set(v);
        let _ = PEAK.try_with(|peak| {
            if v > peak.get() {
                peak.set(v);
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !grow(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !grow(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        grow(-(layout.size() as i64));
        System.dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        // The old and the new block may coexist.
        if !grow(size as i64) {
            return std::ptr::null_mut();
        }
        grow(-(layout.size() as i64));
        System.realloc(p, layout, size)
    }
}

pub fn begin() {
    LIVE.with(|l| {
        BASE.with(|b| b.set(l.get()));
        PEAK.with(|p| p.set(l.get()));
    });
}

/// The most held since the beginning, in addition to what was held then.
pub fn peak() -> u64 {
    (PEAK.with(|p| p.get()) - BASE.with(|b| b.get())).max(0) as u64
}

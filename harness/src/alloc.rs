//! Counting global allocator: the heap monitor and the logical clock of the harness.
//! All counters are per thread; the code under test is single threaded, so they are exact for one case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MAX_ALLOCS: Cell<u64> = const { Cell::new(u64::MAX) };
    static MAX_LIVE: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub const EXIT_ALLOC_BUDGET: i32 = 86;
pub const EXIT_CPU_BUDGET: i32 = 87;

extern "C" {
    fn _exit(code: i32) -> !;
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub struct Counting;

#[inline]
fn on_alloc(size: usize) {
    let _ = ALLOCS.try_with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > MAX_ALLOCS.with(|m| m.get()) {
            exit_now(EXIT_ALLOC_BUDGET);
        }
    });
    let _ = BYTES.try_with(|c| c.set(c.get().wrapping_add(size as u64)));
    let _ = LIVE.try_with(|c| {
        let n = c.get() + size as i64;
        c.set(n);
        if n > MAX_LIVE.with(|m| m.get()) {
            exit_now(EXIT_ALLOC_BUDGET);
        }
    });
}

#[inline]
fn on_free(size: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - size as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        on_free(l.size());
        on_alloc(new);
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub allocs: u64,
    pub bytes: u64,
    pub live: i64,
}

pub fn snap() -> Snap {
    Snap {
        allocs: ALLOCS.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
    }
}

/// Ends the process with EXIT_ALLOC_BUDGET when this thread allocates more than this from now on.
pub fn set_budget(allocs: Option<u64>, live: Option<i64>) {
    let s = snap();
    MAX_ALLOCS.with(|m| m.set(allocs.map_or(u64::MAX, |a| s.allocs.saturating_add(a))));
    MAX_LIVE.with(|m| m.set(live.map_or(i64::MAX, |a| s.live.saturating_add(a))));
}

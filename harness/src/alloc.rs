//! Counting allocator: per-thread live/peak bytes, with a hard stop.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

/// Exit code of a process that went over the allocation limit of a case.
pub const EXIT_ALLOC: i32 = 77;

fn grow(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        let _ = LIMIT.try_with(|m| {
            if v > m.get() {
                let msg = b"allocation limit of the case exceeded\n";
                unsafe {
                    write(2, msg.as_ptr().cast(), msg.len());
                    _exit(EXIT_ALLOC)
                }
            }
        });
    });
}
fn shrink(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            shrink(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Run `f` and return its peak of additional live bytes on this thread.
/// The process exits with EXIT_ALLOC when the peak goes over `limit`.
pub fn measure<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let old = LIMIT.with(|m| m.replace(base + limit as isize));
    let r = f();
    LIMIT.with(|m| m.set(old));
    let peak = PEAK.with(Cell::get) - base;
    (r, peak.max(0) as usize)
}

/// Limit for everything on this thread from now on.
pub fn set_thread_limit(limit: usize) {
    LIMIT.with(|m| m.set(limit as isize));
}

//! Counting allocator: per-thread current and peak heap use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// When set, exceeding the limit ends the process with this status instead of failing the
/// allocation: only for the properties about crashes and memory is it a finding.
pub static EXIT_ON_LIMIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

/// A single thread may not hold more than this: a request beyond it fails (and aborts the
/// process), so that a runaway allocation never takes the machine down.
const THREAD_LIMIT: isize = 2 << 30;

fn add(n: isize) -> bool {
    CUR.try_with(|c| {
        let v = c.get() + n;
        if n > 0 && v > THREAD_LIMIT {
            let code = EXIT_ON_LIMIT.load(std::sync::atomic::Ordering::Relaxed);
            if code != 0 {
                unsafe { libc::_exit(code) }
            }
            return false;
        }
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !add(new as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}

/// Peak additional heap used by this thread while running `f`.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

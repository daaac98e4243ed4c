//! Allocator that counts the memory used by the current thread

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

/// More than any case needs. Beyond it the process is ended (see
/// `supervise`), before it takes the memory of everything else.
const MOST: isize = 3 << 30;

/// Count `n` more bytes; are they too many?
fn count(n: isize) -> bool {
    if n > 0 && LIVE.try_with(|l| l.get() + n > MOST).unwrap_or(false) {
        return true;
    }
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    if n > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + n as usize));
    }
    false
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if count(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if count(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Peak of memory allocated by `f` (in bytes), and its processor time
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, std::time::Duration) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let t = cpu_time();
    let out = f();
    let t = cpu_time() - t;
    let peak = PEAK.with(|p| p.get()) - live;
    (out, peak.max(0) as usize, t)
}

fn cpu_time() -> std::time::Duration {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    std::time::Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

//! Allocator seam: counts allocations made while library code runs and makes the k-th of them fail.
//! A failing allocation returns null; the alloc-error hook turns it into an unwinding `Oom`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static REMAINING: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static REQUESTED: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn should_fail(size: usize) -> bool {
    IN_LIB
        .try_with(|l| {
            if !l.get() {
                return false;
            }
            let _ = REQUESTED.try_with(|q| q.set(q.get() + size as u64));
            REMAINING
                .try_with(|r| match r.get() {
                    n if n < 0 => false,
                    0 => {
                        r.set(-1);
                        let _ = FIRED.try_with(|f| f.set(true));
                        true
                    }
                    n => {
                        r.set(n - 1);
                        false
                    }
                })
                .unwrap_or(false)
        })
        .unwrap_or(false)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if should_fail(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Payload of an unwinding caused by an injected allocation failure.
pub struct Oom;

pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|_| {
        std::panic::resume_unwind(Box::new(Oom));
    });
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_LIB.with(|l| l.set(self.0));
    }
}

/// Run library code: its allocations count and may fail.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.with(|l| l.replace(true)));
    f()
}

/// Run harness code called back from library code: its allocations never fail.
#[inline]
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.with(|l| l.replace(false)));
    f()
}

/// Let the `k`-th library allocation on this thread from now on fail (0 = the next one).
pub fn arm(k: u64) {
    FIRED.with(|f| f.set(false));
    REMAINING.with(|r| r.set(k as i64));
}

/// Disarm; returns whether the failure fired since `arm`.
pub fn disarm() -> bool {
    REMAINING.with(|r| r.set(-1));
    FIRED.with(|f| f.replace(false))
}

/// Suspend an armed failure (while the harness builds something of its own inside a callback).
pub fn pause() -> (i64, bool) {
    (REMAINING.with(|r| r.replace(-1)), FIRED.with(|f| f.get()))
}
pub fn resume(s: (i64, bool)) {
    REMAINING.with(|r| r.set(s.0));
    FIRED.with(|f| f.set(s.1));
}

/// Bytes library code on this thread has requested so far.
pub fn requested() -> u64 {
    REQUESTED.with(|q| q.get())
}

/// The caller itself asks for room for `n` more bytes.
pub fn asked(n: usize) {
    ASKED.with(|q| q.set(q.get() + n as u64));
}
pub fn asked_for() -> u64 {
    ASKED.with(|q| q.get())
}

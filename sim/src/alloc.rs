//! Accounting allocator: measures what the code under test asks for, and makes absurd requests fail as they would on a
//! machine with limited memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

use crate::sys;

pub struct Acct;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}

/// A request above this size, or when more than this is in use already, is refused (the process then aborts like an out-of-memory process would).
pub const REFUSE: usize = 3 << 30;

fn refuse(n: usize) -> bool { n > REFUSE || LIVE.try_with(|l| l.get()).unwrap_or(0) > REFUSE as i64 }

fn on() -> bool { sys::MODE.try_with(|m| m.get() == sys::SIM).unwrap_or(false) }
fn add(n: usize) {
    let _ = LIVE.try_with(|l| { let v = l.get() + n as i64; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
    let _ = BIGGEST.try_with(|b| if n as u64 > b.get() { b.set(n as u64) });
}
fn sub(n: usize) { let _ = LIVE.try_with(|l| l.set(l.get() - n as i64)); }

unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() { if refuse(l.size()) { return std::ptr::null_mut(); } add(l.size()); sys::compute_point(); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if on() { if refuse(l.size()) { return std::ptr::null_mut(); } add(l.size()); sys::compute_point(); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if on() { sub(l.size()); sys::compute_point(); } System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if on() { if refuse(n) { return std::ptr::null_mut(); } add(n); sub(l.size()); sys::compute_point(); }
        System.realloc(p, l, n)
    }
}

pub fn reset() { LIVE.with(|l| l.set(0)); PEAK.with(|l| l.set(0)); BIGGEST.with(|l| l.set(0)); }
/// (peak of live bytes, biggest single request) of this thread since reset()
pub fn peak() -> (u64, u64) { (PEAK.with(|l| l.get()).max(0) as u64, BIGGEST.with(|l| l.get())) }

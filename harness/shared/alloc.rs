//! An allocator that counts the live bytes and the allocations of each thread, to observe leaks and
//! the amount of work that is done.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// Allocations made by this thread.
#[allow(dead_code)]
pub fn made() -> u64 {
    MADE.with(|m| m.get())
}

#[allow(dead_code)]
/// Bytes allocated minus bytes freed by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

fn add(n: i64) {
    let _ = MADE.try_with(|m| m.set(m.get() + (n > 0) as u64));
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

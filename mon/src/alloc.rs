//! Counts, per thread, the bytes and blocks a thread has allocated and not freed again, and the bytes
//! it has ever asked for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn ask(bytes: usize) {
    let _ = TOTAL.try_with(|b| b.set(b.get() + bytes as u64));
}

fn add(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        ask(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        ask(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        ask(n);
        System.realloc(p, l, n)
    }
}

/// Bytes and blocks this thread holds.
pub fn held() -> (i64, i64) {
    (BYTES.with(Cell::get), BLOCKS.with(Cell::get))
}

/// Bytes this thread has ever asked for.
#[allow(dead_code)]
pub fn total() -> u64 {
    TOTAL.with(Cell::get)
}

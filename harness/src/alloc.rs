//! Counting allocator: per thread totals of bytes requested, calls, live bytes
//! and the peak of the live bytes. Read by the resource and leak monitors.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub total: u64,
    pub calls: u64,
    pub live: i64,
    pub peak: i64,
    pub largest: u64,
}

thread_local! {
    static STATS: Cell<Stats> = const { Cell::new(Stats { total: 0, calls: 0, live: 0, peak: 0, largest: 0 }) };
}

pub struct Counting;

fn grow(n: usize, old: usize) {
    let _ = STATS.try_with(|c| {
        let mut s = c.get();
        s.total += n as u64;
        s.calls += 1;
        s.live += n as i64 - old as i64;
        s.peak = s.peak.max(s.live);
        s.largest = s.largest.max(n as u64);
        c.set(s);
    });
}

fn shrink(n: usize) {
    let _ = STATS.try_with(|c| {
        let mut s = c.get();
        s.live -= n as i64;
        c.set(s);
    });
}

// SAFETY: forwards to the system allocator, only counts.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n, l.size());
        System.realloc(p, l, n)
    }
}

pub fn now() -> Stats {
    STATS.with(|c| c.get())
}

/// Starts a window: peak and largest are reset to the current level.
pub fn window() -> Stats {
    STATS.with(|c| {
        let mut s = c.get();
        s.peak = s.live;
        s.largest = 0;
        c.set(s);
        s
    })
}

/// What happened on this thread since `start` (from `window`).
pub fn since(start: Stats) -> Stats {
    let s = now();
    Stats {
        total: s.total - start.total,
        calls: s.calls - start.calls,
        live: s.live - start.live,
        peak: s.peak - start.live,
        largest: s.largest,
    }
}

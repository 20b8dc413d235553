//! Counts the heap use of the current thread or, where only one thread is at work, of the process.
use std::alloc::{GlobalAlloc, Layout};
#[cfg(verif_misalign)]
use std::alloc::System;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

/// Count for the whole process: what threads of the library's own do counts too.
pub static WHOLE: AtomicBool = AtomicBool::new(false);
static ALL_LIVE: AtomicI64 = AtomicI64::new(0);
static ALL_PEAK: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;

fn add(n: i64) {
    if WHOLE.load(Ordering::Relaxed) {
        let v = ALL_LIVE.fetch_add(n, Ordering::Relaxed) + n;
        ALL_PEAK.fetch_max(v, Ordering::Relaxed);
        return;
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

/// Where the memory comes from. With `verif_misalign` no block is better aligned than its
/// layout asks for, so that code which takes more for granted is found out.
#[cfg(not(verif_misalign))]
use std::alloc::System as Source;
#[cfg(verif_misalign)]
struct Source;
#[cfg(verif_misalign)]
const PAD: usize = 64;
#[cfg(verif_misalign)]
unsafe impl GlobalAlloc for Source {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 || l.size() > usize::MAX / 4 {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + PAD, 32));
        if p.is_null() {
            return p;
        }
        // an odd multiple of the alignment, and never the same for long
        let turn = LIVE.try_with(|x| x.get()).unwrap_or(0) as usize / 8 % 4;
        let off = l.align() * (1 + 2 * if l.align() > 4 { turn % 2 } else { turn });
        let q = p.add(off);
        *q.sub(1) = off as u8;
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > 16 || l.size() > usize::MAX / 4 {
            return System.dealloc(q, l);
        }
        System.dealloc(q.sub(*q.sub(1) as usize), Layout::from_size_align_unchecked(l.size() + PAD, 32))
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = Source.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = Source.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Source.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = Source.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

pub fn live() -> i64 {
    if WHOLE.load(Ordering::Relaxed) {
        return ALL_LIVE.load(Ordering::Relaxed);
    }
    LIVE.with(|l| l.get())
}
/// Heap peak over `f`, relative to its start.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live();
    if WHOLE.load(Ordering::Relaxed) {
        ALL_PEAK.store(base, Ordering::Relaxed);
        let r = f();
        return (r, ALL_PEAK.load(Ordering::Relaxed) - base);
    }
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

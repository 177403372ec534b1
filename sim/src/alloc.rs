//! The heap the library under test sees: fresh and freed memory is filled with bytes of the
//! run's choosing, and growing storage always moves. Off outside library calls.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static FILL: Cell<u32> = const { Cell::new(0) };
    static FILLED: Cell<u64> = const { Cell::new(0) };
    static MOVED: Cell<u64> = const { Cell::new(0) };
}

const LIMIT: usize = 4 << 20;

pub const PATTERNS: &[&[u8]] = &[
    &[0],
    &[0xff],
    b"\n",
    b"A",
    &[0xcc, 0x81],
    &[0x80],
    b"\r\n",
    &[0xe2],
    &[0xf0, 0x9f],
];

pub struct Heap;

/// 0 switches the filling off; k > 0 selects PATTERNS[k - 1].
pub fn set_fill(k: u32) -> u32 {
    FILL.try_with(|f| f.replace(k)).unwrap_or(0)
}
pub fn counters() -> (u64, u64) {
    (FILLED.with(|f| f.replace(0)), MOVED.with(|f| f.replace(0)))
}

fn current() -> u32 {
    FILL.try_with(|f| f.get()).unwrap_or(0)
}

unsafe fn fill(p: *mut u8, from: usize, to: usize, k: u32) {
    let pat = PATTERNS[(k as usize - 1) % PATTERNS.len()];
    if pat.len() == 1 {
        std::ptr::write_bytes(p.add(from), pat[0], to - from);
    } else {
        for i in from..to {
            *p.add(i) = pat[i % pat.len()];
        }
    }
}

/// No machine has this much memory.
const TOO_MUCH: usize = 1 << 38;

thread_local! {
    /// the run this thread executes, and whether the library (and not the simulator) is at work
    static RUN: Cell<u64> = const { Cell::new(0) };
    static LIB: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
static RUNS: AtomicU64 = AtomicU64::new(1);

/// A new run begins: from here on its blocks are counted.
pub fn begin() {
    RUN.with(|r| r.set(RUNS.fetch_add(1, Ordering::Relaxed)));
    BLOCKS.with(|b| b.set(0));
    BYTES.with(|b| b.set(0));
}
pub fn in_library(on: bool) -> bool {
    LIB.try_with(|l| l.replace(on)).unwrap_or(false)
}
/// Blocks and bytes the library took in this run and has not given back.
pub fn held() -> (i64, i64) {
    (BLOCKS.with(|b| b.get()), BYTES.with(|b| b.get()))
}

/// In front of every block stands the run that took it.
const fn room(l: Layout) -> usize {
    if l.align() > 16 {
        l.align()
    } else {
        16
    }
}
unsafe fn outer(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + room(l), room(l))
}
unsafe fn tag(p: *mut u8) -> *mut u64 {
    p.sub(8) as *mut u64
}
unsafe fn took(p: *mut u8, size: usize) {
    let mut run = 0;
    if LIB.try_with(|l| l.get()).unwrap_or(false) {
        run = RUN.try_with(|r| r.get()).unwrap_or(0);
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        let _ = BYTES.try_with(|b| b.set(b.get() + size as i64));
    }
    *tag(p) = run;
}
unsafe fn gave(p: *mut u8, size: usize) {
    let run = *tag(p);
    if run != 0 && run == RUN.try_with(|r| r.get()).unwrap_or(0) {
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        let _ = BYTES.try_with(|b| b.set(b.get() - size as i64));
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > TOO_MUCH {
            return std::ptr::null_mut();
        }
        let p = System.alloc(outer(l));
        if p.is_null() {
            return p;
        }
        let p = p.add(room(l));
        took(p, l.size());
        let k = current();
        if k != 0 && l.size() <= LIMIT {
            fill(p, 0, l.size(), k);
            let _ = FILLED.try_with(|f| f.set(f.get() + 1));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > TOO_MUCH {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(outer(l));
        if p.is_null() {
            return p;
        }
        let p = p.add(room(l));
        took(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(p, l.size());
        let k = current();
        if k != 0 && l.size() <= LIMIT {
            fill(p, 0, l.size(), k);
        }
        System.dealloc(p.sub(room(l)), outer(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > TOO_MUCH {
            return std::ptr::null_mut();
        }
        let k = current();
        if k == 0 || new > LIMIT {
            let q = System.realloc(p.sub(room(l)), outer(l), new + room(l));
            if q.is_null() {
                return q;
            }
            let q = q.add(room(l));
            gave(q, l.size());
            took(q, new);
            return q;
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
            let _ = MOVED.try_with(|f| f.set(f.get() + 1));
        }
        q
    }
}

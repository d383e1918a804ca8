//! Global allocator owned by the harness: poisons fresh memory (so reads of uninitialised memory are
//! reproducible and visible), guards both ends of every block (checked build), counts allocations and
//! fails a chosen one.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering};

pub struct Guard;

pub static POISON: AtomicU8 = AtomicU8::new(0xA5);

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static USE: Cell<Use> = const { Cell::new(Use { bytes: 0, blocks: 0, peak: 0, total: 0 }) };
    static HOOK: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
}

/// What the scheduler wants to be told allocations for (inside library calls of a scheduled task).
pub fn set_hook(y: Option<*const ()>) -> Option<*const ()> {
    let was = HOOK.with(|h| h.replace(y.unwrap_or(std::ptr::null())));
    (!was.is_null()).then_some(was)
}

/// Heap memory as seen by this thread.
#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// in use now
    pub bytes: i64,
    pub blocks: i64,
    /// most in use since the last `restart`
    pub peak: i64,
    /// asked for altogether
    pub total: u64,
}

pub fn in_use() -> Use {
    USE.with(|u| u.get())
}

/// Lets the peak start from what is in use now.
pub fn restart() {
    USE.with(|u| {
        let mut v = u.get();
        v.peak = v.bytes;
        u.set(v);
    })
}

#[inline]
fn used(from: usize, to: usize, blocks: i64) {
    let _ = USE.try_with(|u| {
        let mut v = u.get();
        v.bytes += to as i64 - from as i64;
        v.blocks += blocks;
        v.peak = v.peak.max(v.bytes);
        v.total += to as u64;
        u.set(v);
    });
}

/// At the start of every allocator call: a scheduling point, and no single-stepping inside.
struct Entry(bool);

impl Entry {
    #[inline]
    fn new() -> Entry {
        let h = HOOK.try_with(|h| h.get()).unwrap_or(std::ptr::null());
        if !h.is_null() {
            crate::sched::at_allocation(h);
        }
        Entry(crate::sched::step_off())
    }
}

impl Drop for Entry {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            crate::sched::step_on();
        }
    }
}

const GUARD: usize = if cfg!(debug_assertions) { 32 } else { 0 };
const CANARY: u8 = 0xC7;

/// Runs `f` failing its `nth` allocation (0-based; u64::MAX: none). Returns result, number of allocations
/// attempted and whether one was failed.
pub fn with_failing<R>(nth: u64, f: impl FnOnce() -> R) -> (R, u64, bool) {
    COUNT.with(|c| c.set(0));
    FAILED.with(|c| c.set(false));
    FAIL_AT.with(|c| c.set(nth));
    ARMED.with(|c| c.set(true));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.with(|c| c.set(false));
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, COUNT.with(|c| c.get()), FAILED.with(|c| c.get()))
}

/// Suspends failure injection inside `f` (for the harness's own bookkeeping).
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let was = ARMED.with(|c| c.replace(false));
    let r = f();
    ARMED.with(|c| c.set(was));
    r
}

#[inline]
fn should_fail() -> bool {
    ARMED
        .try_with(|a| {
            if !a.get() {
                return false;
            }
            let n = COUNT.with(|c| {
                let n = c.get();
                c.set(n + 1);
                n
            });
            if n == FAIL_AT.with(|c| c.get()) {
                FAILED.with(|c| c.set(true));
                return true;
            }
            false
        })
        .unwrap_or(false)
}

fn die(msg: &str) -> ! {
    unsafe {
        crate::sys::write(2, msg.as_ptr().cast(), msg.len());
    }
    std::process::abort()
}

/// How much of a fresh block is poisoned: of large blocks only the start, enough to see stale bytes without
/// touching every page.
fn poisoned(size: usize) -> usize {
    if size > 1 << 24 {
        4096
    } else {
        size.min(1 << 16)
    }
}

/// Blocks so large are not guarded at their end.
fn open_ended(size: usize) -> bool {
    size > 1 << 24
}

impl Guard {
    #[inline]
    fn front(layout: &Layout) -> usize {
        if GUARD == 0 {
            0
        } else {
            GUARD.max(layout.align())
        }
    }
    #[inline]
    unsafe fn raw_alloc(&self, layout: Layout) -> *mut u8 {
        if GUARD == 0 {
            return System.alloc(layout);
        }
        let f = Self::front(&layout);
        let Some(total) = layout.size().checked_add(f + GUARD) else { return std::ptr::null_mut() };
        let Ok(l) = Layout::from_size_align(total, layout.align()) else { return std::ptr::null_mut() };
        let p = System.alloc(l);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, CANARY, f);
        if !open_ended(layout.size()) {
            std::ptr::write_bytes(p.add(f + layout.size()), CANARY, GUARD);
        }
        p.add(f)
    }
    unsafe fn raw_dealloc(&self, p: *mut u8, layout: Layout) {
        if GUARD == 0 {
            return System.dealloc(p, layout);
        }
        let f = Self::front(&layout);
        let base = p.sub(f);
        for i in 0..f {
            if *base.add(i) != CANARY {
                die("ymc: memory before a heap block was overwritten\n");
            }
        }
        for i in 0..if open_ended(layout.size()) { 0 } else { GUARD } {
            if *p.add(layout.size() + i) != CANARY {
                die("ymc: memory after a heap block was overwritten\n");
            }
        }
        let l = Layout::from_size_align_unchecked(layout.size() + f + GUARD, layout.align());
        System.dealloc(base, l)
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _entry = Entry::new();
        if should_fail() {
            return std::ptr::null_mut();
        }
        let p = self.raw_alloc(layout);
        if !p.is_null() {
            used(0, layout.size(), 1);
            std::ptr::write_bytes(p, POISON.load(Ordering::Relaxed), poisoned(layout.size()));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _entry = Entry::new();
        used(layout.size(), 0, -1);
        self.raw_dealloc(p, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let _entry = Entry::new();
        if should_fail() {
            return std::ptr::null_mut();
        }
        if GUARD == 0 {
            let p = System.alloc_zeroed(layout);
            if !p.is_null() {
                used(0, layout.size(), 1);
            }
            return p;
        }
        let p = self.raw_alloc(layout);
        if !p.is_null() {
            used(0, layout.size(), 1);
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let _entry = Entry::new();
        if should_fail() {
            return std::ptr::null_mut();
        }
        if GUARD == 0 {
            let q = System.realloc(p, layout, new_size);
            if !q.is_null() {
                used(layout.size(), new_size, 0);
            }
            if !q.is_null() && new_size > layout.size() {
                let n = poisoned(new_size - layout.size());
                std::ptr::write_bytes(q.add(layout.size()), POISON.load(Ordering::Relaxed), n);
            }
            return q;
        }
        if open_ended(layout.size()) && new_size > layout.size() {
            // moved by remapping, without touching its pages
            let f = Self::front(&layout);
            let Some(total) = new_size.checked_add(f + GUARD) else { return std::ptr::null_mut() };
            let old = Layout::from_size_align_unchecked(layout.size() + f + GUARD, layout.align());
            let q = System.realloc(p.sub(f), old, total);
            if q.is_null() {
                return q;
            }
            used(layout.size(), new_size, 0);
            return q.add(f);
        }
        let nl = Layout::from_size_align_unchecked(new_size, layout.align());
        let q = self.raw_alloc(nl);
        if q.is_null() {
            return q;
        }
        used(layout.size(), new_size, 0);
        let keep = layout.size().min(new_size);
        std::ptr::copy_nonoverlapping(p, q, keep);
        if new_size > keep {
            std::ptr::write_bytes(q.add(keep), POISON.load(Ordering::Relaxed), poisoned(new_size - keep));
        }
        self.raw_dealloc(p, layout);
        q
    }
}

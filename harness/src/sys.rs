//! The few libc calls the harness needs (no libc crate in the dependency set of /repo).
use std::os::raw::{c_int, c_long, c_void};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}

extern "C" {
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn setrlimit(r: c_int, l: *const RLimit) -> c_int;
}

/// Maps the first 4096 bytes of `f` shared.
pub fn map_shared(f: &std::fs::File) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u64
}

pub fn limit_memory(bytes: u64) {
    let l = RLimit { cur: bytes, max: bytes };
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        let z = RLimit { cur: 0, max: 0 };
        setrlimit(4, &z); // RLIMIT_CORE
    }
}

/// A string of `len` zero bytes in untouched memory (made once per length, never freed).
pub fn zeros_str(len: usize) -> &'static str {
    use std::sync::Mutex;
    static MADE: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
    if len == 0 {
        return "";
    }
    let mut made = MADE.lock().unwrap_or_else(|e| e.into_inner());
    let p = match made.iter().find(|m| m.0 == len) {
        Some(m) => m.1,
        None => {
            let p = unsafe { mmap(std::ptr::null_mut(), len, 1, 0x22 | 0x4000, -1, 0) } as usize;
            assert!(p as isize != -1, "mmap failed");
            made.push((len, p));
            p
        }
    };
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, len)) }
}

extern "C" {
    fn sched_yield() -> c_int;
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
}

pub fn yield_now() {
    unsafe {
        sched_yield();
    }
}

/// A stack of `len` bytes with an inaccessible page below it (never freed; reused by the caller).
pub fn map_stack(len: usize) -> usize {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len + 4096, 0, 0x22 | 0x4000, -1, 0) as usize;
        assert!(p as isize != -1, "mmap failed");
        let q = mmap((p + 4096) as *mut c_void, len, 3, 0x22 | 0x10, -1, 0) as usize;
        assert!(q == p + 4096, "mmap failed");
        q
    }
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

static TRAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

extern "C" fn trap(_sig: c_int, _info: *mut c_void, context: *mut c_void) {
    let f = TRAP.load(std::sync::atomic::Ordering::Relaxed);
    if f != 0 {
        let f: extern "C" fn(u64) -> bool = unsafe { std::mem::transmute(f) };
        let at = unsafe { *(context.cast::<u8>().add(40 + 16 * 8).cast::<u64>()) };
        if !f(at) {
            // the flags register in the interrupted context
            unsafe { *(context.cast::<u8>().add(40 + 17 * 8).cast::<u64>()) &= !0x100 };
        }
    }
}

/// Calls `f` with the place of the next instruction after every instruction of a thread whose trap flag is set (SIGTRAP), until it says false.
pub fn on_trap(f: extern "C" fn(u64) -> bool) {
    TRAP.store(f as usize, std::sync::atomic::Ordering::Relaxed);
    let h = trap as extern "C" fn(c_int, *mut c_void, *mut c_void) as usize;
    let a = SigAction { handler: h, mask: [0; 16], flags: 4, restorer: 0 };
    unsafe {
        sigaction(5, &a, std::ptr::null_mut());
    }
}

/// Sets or clears the trap flag of the processor for this thread.
#[inline(never)]
pub fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

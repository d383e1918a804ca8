//! The counted build: every basic block of the crates adds one to a counter (`-sanitizer-coverage-trace-pc`), and the
//! memory functions add one for every 32 bytes (moving bytes up within a buffer is free: that is how offsets are inserted).
#[cfg(ymc_counted)]
mod on {
    pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc",
        ".type __sanitizer_cov_trace_pc,@function",
        "__sanitizer_cov_trace_pc:",
        "inc qword ptr [rip + {c}]",
        "ret",
        ".globl memcpy",
        ".type memcpy,@function",
        ".globl memmove",
        ".type memmove,@function",
        "memcpy:",
        "memmove:",
        "mov rax, rdi",
        "mov rcx, rdx",
        "mov r8, rdi",
        "sub r8, rsi",
        "cmp r8, rdx",
        "jb 2f",
        "shr rcx, 5",
        "add qword ptr [rip + {c}], rcx",
        "mov rcx, rdx",
        "rep movsb",
        "ret",
        "2:",
        "lea rdi, [rdi + rdx - 1]",
        "lea rsi, [rsi + rdx - 1]",
        "std",
        "rep movsb",
        "cld",
        "ret",
        ".globl memset",
        ".type memset,@function",
        "memset:",
        "mov r8, rdi",
        "mov rcx, rdx",
        "shr rcx, 5",
        "add qword ptr [rip + {c}], rcx",
        "mov rcx, rdx",
        "mov eax, esi",
        "rep stosb",
        "mov rax, r8",
        "ret",
        ".globl memcmp",
        ".type memcmp,@function",
        ".globl bcmp",
        ".type bcmp,@function",
        "memcmp:",
        "bcmp:",
        "xor ecx, ecx",
        "3:",
        "cmp rcx, rdx",
        "jae 4f",
        "movzx eax, byte ptr [rdi + rcx]",
        "movzx r8d, byte ptr [rsi + rcx]",
        "inc rcx",
        "sub eax, r8d",
        "jz 3b",
        "shr rcx, 5",
        "add qword ptr [rip + {c}], rcx",
        "ret",
        "4:",
        "shr rcx, 5",
        "add qword ptr [rip + {c}], rcx",
        "xor eax, eax",
        "ret",
        c = sym COUNT,
    );
}

pub const COUNTED: bool = cfg!(ymc_counted);

/// Runs `f` counting the blocks it runs through. `None` in other builds.
#[cfg(ymc_counted)]
pub fn blocks<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let read = || on::COUNT.load(std::sync::atomic::Ordering::Relaxed);
    let from = read();
    let r = std::hint::black_box(f());
    (r, read() - from)
}

#[cfg(not(ymc_counted))]
pub fn blocks<T>(_: impl FnOnce() -> T) -> (T, u64) {
    unreachable!("only in the counted build")
}

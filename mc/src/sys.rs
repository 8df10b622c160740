//! The few libc calls the explorers need, declared by hand (x86_64 Linux, glibc) so that the harness has no
//! dependencies besides raki.
use std::ffi::c_void;

pub const SIGILL: i32 = 4;
pub const SIGTRAP: i32 = 5;
pub const SIGABRT: i32 = 6;
pub const SIGBUS: i32 = 7;
pub const SIGFPE: i32 = 8;
pub const SIGKILL: i32 = 9;
pub const SIGSEGV: i32 = 11;
pub const SIG_DFL: usize = 0;
const SA_SIGINFO: i32 = 4;
const SA_ONSTACK: i32 = 0x0800_0000;
const SA_NODEFER: i32 = 0x4000_0000;
pub const PROT_NONE: i32 = 0;
pub const PROT_READ: i32 = 1;
pub const PROT_WRITE: i32 = 2;
const MAP_SHARED: i32 = 1;
const MAP_PRIVATE: i32 = 2;
const MAP_NORESERVE: i32 = 0x4000;
const MAP_ANONYMOUS: i32 = 0x20;
const RLIMIT_AS: i32 = 9;

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> i32;
    pub fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    pub fn write(fd: i32, buf: *const c_void, n: usize) -> isize;
    pub fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    pub fn sched_yield() -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub type Handler = extern "C" fn(i32, *mut u8, *mut u8);

pub fn on_signal(sig: i32, h: Handler) {
    let a = SigAction { handler: h as usize, mask: [0; 16], flags: SA_SIGINFO | SA_ONSTACK | SA_NODEFER, restorer: 0 };
    assert_eq!(unsafe { sigaction(sig, &a, std::ptr::null_mut()) }, 0);
}
/// As `on_signal`, but the handler runs on the stack that is in use.
pub fn on_signal_here(sig: i32, h: Handler) {
    let a = SigAction { handler: h as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
    assert_eq!(unsafe { sigaction(sig, &a, std::ptr::null_mut()) }, 0);
}
pub fn default_signal(sig: i32) {
    let a = SigAction { handler: SIG_DFL, mask: [0; 16], flags: 0, restorer: 0 };
    unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
}

/// Saved registers in a ucontext: RIP and EFLAGS.
pub fn ctx_rip(uc: *mut u8) -> *mut i64 {
    unsafe { (uc.add(40) as *mut i64).add(16) }
}
pub fn ctx_eflags(uc: *mut u8) -> *mut i64 {
    unsafe { (uc.add(40) as *mut i64).add(17) }
}
/// Whether a page fault was a write.
pub fn ctx_wrote(uc: *mut u8) -> bool {
    unsafe { *(uc.add(40) as *mut i64).add(19) & 2 != 0 }
}
pub fn fault_addr(info: *mut u8) -> usize {
    unsafe { *(info.add(16) as *const usize) }
}

/// Zeroed memory, not shared with forked processes.
pub fn private_mem(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}

/// Zeroed memory that stays shared across fork.
pub fn shared_mem(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}

pub fn unmap(p: *mut u8, len: usize) {
    unsafe { munmap(p as *mut _, len) };
}

pub fn limit_memory(bytes: u64) {
    unsafe { setrlimit(RLIMIT_AS, &[bytes, bytes]) };
}

/// Run `f` in a forked child; the child must end through the returned code.
pub fn spawn(f: impl FnOnce() -> i32) -> i32 {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
        let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(99);
        unsafe { _exit(code) }
    }
    pid
}

/// Exit code of a child (128+signal if it was killed).
pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            return if st & 0x7f == 0 { (st >> 8) & 0xff } else { 128 + (st & 0x7f) };
        }
        assert!(std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted, "waitpid");
    }
}
/// None while the child still runs.
pub fn poll(pid: i32) -> Option<i32> {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == pid {
        Some(if st & 0x7f == 0 { (st >> 8) & 0xff } else { 128 + (st & 0x7f) })
    } else {
        None
    }
}

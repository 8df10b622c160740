//! The memory a library without heap or operating system can keep state in: the writable statics of this
//! executable (raki is linked into it) and its thread-local block. Seen, reset and write-protected here.
use crate::sys;
use std::cell::Cell;

#[derive(Clone, Copy, Debug)]
pub struct Region {
    pub lo: usize,
    pub hi: usize,
}
impl Region {
    pub fn len(&self) -> usize {
        self.hi - self.lo
    }
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.lo as *const u8, self.len()) }
    }
}

/// .data and .bss: the writable mapping(s) of the executable and the anonymous one that directly follows.
pub fn statics() -> Vec<Region> {
    let exe = std::fs::read_link("/proc/self/exe").expect("exe");
    let exe = exe.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let mut out: Vec<Region> = vec![];
    let mut end_of_exe = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (lo, hi) = f[0].split_once('-').expect("range");
        let (lo, hi) = (usize::from_str_radix(lo, 16).unwrap(), usize::from_str_radix(hi, 16).unwrap());
        let ours = f.len() > 5 && l.ends_with(&exe);
        let follows = f.len() == 5 && lo == end_of_exe;
        if (ours || follows) && f[1].starts_with("rw") {
            match out.last_mut() {
                Some(r) if r.hi == lo => r.hi = hi,
                _ => out.push(Region { lo, hi }),
            }
        }
        if ours || follows {
            end_of_exe = hi;
        }
    }
    assert!(!out.is_empty(), "no writable statics found");
    out
}

/// The executable's thread-local block of the calling thread.
pub fn thread_locals() -> Option<Region> {
    extern "C" {
        fn getauxval(what: u64) -> u64;
    }
    unsafe {
        let (phdr, num) = (getauxval(3) as *const u8, getauxval(5) as usize);
        for i in 0..num {
            let p = phdr.add(i * 56);
            if *(p as *const u32) == 7 {
                let (size, align) = (*(p.add(40) as *const usize), (*(p.add(48) as *const usize)).max(1));
                let fs: usize;
                std::arch::asm!("mov {}, fs:0", out(reg) fs);
                return Some(Region { lo: fs - size.next_multiple_of(align), hi: fs });
            }
        }
    }
    None
}

/// A copy of the statics from before any call was made.
pub struct Pristine {
    pub regions: Vec<Region>,
    copy: Vec<Vec<u8>>,
}
impl Pristine {
    pub fn take() -> Pristine {
        let regions = statics();
        let copy = regions.iter().map(|r| r.bytes().to_vec()).collect();
        Pristine { regions, copy }
    }
    /// Put every static back. Only in a worker process with a single thread.
    #[inline]
    pub fn restore(&self) {
        for (r, c) in self.regions.iter().zip(&self.copy) {
            unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), r.lo as *mut u8, c.len()) };
        }
    }
    /// Calls `f` with the number of every word of eight bytes that is not as it was.
    pub fn changed(&self, mut f: impl FnMut(usize)) {
        let mut before = 0;
        for (r, c) in self.regions.iter().zip(&self.copy) {
            for (i, (a, b)) in r.bytes().chunks_exact(8).zip(c.chunks_exact(8)).enumerate() {
                if a != b {
                    f(before + i);
                }
            }
            before += r.len() / 8;
        }
    }
    pub fn protect(&self, prot: i32) {
        for r in &self.regions {
            unsafe { sys::mprotect(r.lo as *mut _, r.len(), prot) };
        }
    }
    pub fn holds(&self, addr: usize) -> bool {
        self.regions.iter().any(|r| (r.lo..r.hi).contains(&addr))
    }
}

/// First write to protected statics since it was last cleared.
pub struct Tripwire {
    pub memory: Pristine,
    /// the instruction that wrote; set by the signal handler, so always accessed as volatile
    rip: std::cell::UnsafeCell<usize>,
}
thread_local! {
    static WIRE: Cell<*const Tripwire> = const { Cell::new(std::ptr::null()) };
}
extern "C" fn tripped(sig: i32, info: *mut u8, uc: *mut u8) {
    let wire = WIRE.with(|w| w.get());
    let addr = sys::fault_addr(info);
    unsafe {
        if wire.is_null() || !(*wire).memory.holds(addr) {
            sys::default_signal(sig);
            return;
        }
        (*wire).memory.protect(sys::PROT_READ | sys::PROT_WRITE);
        (*wire).set(*sys::ctx_rip(uc) as usize);
    }
}
impl Tripwire {
    pub fn new() -> Tripwire {
        Tripwire { memory: Pristine::take(), rip: std::cell::UnsafeCell::new(0) }
    }
    fn set(&self, rip: usize) {
        unsafe { self.rip.get().write_volatile(rip) };
    }
    /// Where a static was written since the wire was last armed; 0 if nowhere.
    #[inline(always)]
    pub fn hit(&self) -> usize {
        unsafe { self.rip.get().read_volatile() }
    }
    pub fn clear(&self) {
        self.set(0);
    }
    /// From now on (in this process) the first write to a static is recorded and lifts the protection.
    pub fn arm(&'static self) {
        self.set(0);
        WIRE.with(|w| w.set(self));
        sys::on_signal(sys::SIGSEGV, tripped);
        self.memory.protect(sys::PROT_READ);
    }
    pub fn rearm(&self) {
        self.set(0);
        self.memory.protect(sys::PROT_READ);
    }
    pub fn disarm(&self) {
        self.memory.protect(sys::PROT_READ | sys::PROT_WRITE);
    }
}

//! Memory for calls whose execution is controlled. Such a call may be left inside the allocator while another one
//! enters it; on threads of their own that is harmless, but not on the one thread that plays them all here. So
//! they are served by an allocator that can be left and entered at every instruction.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const SIZE: usize = 64 << 20;
/// Start of the memory handed out; the bytes in use are counted in its first word.
#[derive(Clone, Copy)]
pub struct Heap(*mut AtomicUsize);
thread_local! {
    static MINE: Cell<Heap> = const { Cell::new(Heap(std::ptr::null_mut())) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
impl Heap {
    /// The heap of this process.
    pub fn get() -> Heap {
        let mut h = MINE.get();
        if h.0.is_null() {
            h = Heap(crate::sys::private_mem(SIZE) as *mut AtomicUsize);
            MINE.set(h);
            h.clear();
        }
        h
    }
    fn used(&self) -> &AtomicUsize {
        unsafe { &*self.0 }
    }
    pub fn clear(&self) {
        self.used().store(64, Relaxed);
    }
    /// Has anything been allocated since it was cleared?
    pub fn touched(&self) -> bool {
        self.used().load(Relaxed) > 64
    }
    /// From now on allocations are made here, or again from the system.
    pub fn switch(on: bool) {
        ON.set(on);
    }
}
pub struct Either;
unsafe impl GlobalAlloc for Either {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.get() {
            return System.alloc(l);
        }
        let h = MINE.get();
        let at = h.used().fetch_add(l.size() + l.align(), Relaxed);
        if at + l.size() + l.align() > SIZE {
            return std::ptr::null_mut();
        }
        ((h.0 as usize + at + l.align() - 1) & !(l.align() - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = MINE.get().0 as usize;
        if h == 0 || !(h..h + SIZE).contains(&(p as usize)) {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let h = MINE.get().0 as usize;
        if !ON.get() && (h == 0 || !(h..h + SIZE).contains(&(p as usize))) {
            return System.realloc(p, l, size);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static HEAP: Either = Either;

//! A global allocator that shows what one freed allocation held. It lives in a crate of its own so that (without LTO)
//! the optimizer sees an opaque allocator when it compiles the code under test, as in a normal program.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static WATCH: Cell<(usize, usize, *mut u8)> = const { Cell::new((0, 0, std::ptr::null_mut())) };
}

/// Copies the contents of one watched allocation when it is freed: the optimizer may drop stores to memory
/// that is about to be freed, and this sees what really remains.
struct Spy;
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Ok((a, n, to)) = WATCH.try_with(Cell::get) {
            if a == p as usize && n > 0 {
                for i in 0..n {
                    unsafe { to.add(i).write_volatile(p.add(i).read_volatile()) };
                }
                WATCH.with(|w| w.set((0, 0, std::ptr::null_mut())));
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static SPY: Spy = Spy;


/// Copy the contents of the allocation at `addr` to `to` when this thread frees it.
#[inline(never)]
pub fn watch(addr: usize, n: usize, to: *mut u8) {
    WATCH.with(|w| w.set((addr, n, to)));
}

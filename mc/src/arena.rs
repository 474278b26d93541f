//! Memory between two inaccessible pages: an access outside the slice handed out either faults (beyond
//! the arena) or changes a canary byte (inside it).
use libc::{MAP_ANONYMOUS, MAP_FAILED, MAP_PRIVATE, PROT_NONE, PROT_READ, PROT_WRITE, mmap, mprotect, munmap};

pub const CANARY: u8 = 0xa5;
const PAGE: usize = 4096;

pub struct Arena {
    base: *mut u8,
    pub len: usize,
}
unsafe impl Send for Arena {}

impl Arena {
    /// An arena of at least `len` bytes (whole pages), filled with `f(index)`.
    pub fn new(len: usize, f: impl Fn(usize) -> u8) -> Arena {
        let len = len.div_ceil(PAGE).max(1) * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), len + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            assert!(p != MAP_FAILED, "mmap");
            let base = p.cast::<u8>().add(PAGE);
            assert_eq!(mprotect(base.cast(), len, PROT_READ | PROT_WRITE), 0);
            for i in 0..len {
                base.add(i).write(f(i));
            }
            Arena { base, len }
        }
    }
    pub fn read_only(&mut self) {
        unsafe { assert_eq!(mprotect(self.base.cast(), self.len, PROT_READ), 0) }
    }
    pub fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    pub fn at(&self, off: usize, n: usize) -> &[u8] {
        &self.all()[off..off + n]
    }
    pub fn at_mut(&mut self, off: usize, n: usize) -> &mut [u8] {
        assert!(off + n <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(off), n) }
    }
    /// First index outside `off..off + n` that is not the canary.
    pub fn damaged(&self, off: usize, n: usize) -> Option<usize> {
        let a = self.all();
        let bad = |s: &[u8]| s.iter().any(|&x| x != CANARY);
        if bad(&a[..off]) || bad(&a[off + n..]) {
            return (0..a.len()).find(|&i| (i < off || i >= off + n) && a[i] != CANARY);
        }
        None
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base.sub(PAGE).cast(), self.len + 2 * PAGE);
        }
    }
}

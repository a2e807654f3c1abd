//! A buffer which ends at an inaccessible page.
use std::os::raw::{c_int, c_long, c_void};
extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
    fn munmap(a: *mut c_void, l: usize) -> c_int;
    fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
}
pub struct Guarded {
    base: *mut u8,
    len: usize,
    pub n: usize,
}
const PAGE: usize = 4096;
const CANARY: u8 = 0xa5;
impl Guarded {
    pub fn new() -> Self {
        let len = 2 * PAGE;
        let base = unsafe {
            let p = mmap(std::ptr::null_mut(), len + PAGE, 3, 0x22, -1, 0) as *mut u8;
            if p as isize == -1 || mprotect(p.add(len) as *mut c_void, PAGE, 0) != 0 {
                crate::json::tool_error("mmap failed");
            }
            p
        };
        Guarded { base, len, n: 0 }
    }
    /// Loads data, followed by the end of accessible memory.
    pub fn load(&mut self, b: &[u8]) {
        self.n = b.len();
        self.all().iter_mut().for_each(|b| *b = CANARY);
        self.data().copy_from_slice(b);
    }
    fn all(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    pub fn start(&self) -> usize {
        self.len - self.n
    }
    pub fn data(&mut self) -> &mut [u8] {
        let (s, n) = (self.start(), self.n);
        &mut self.all()[s..s + n]
    }
    /// Bytes outside of the data are unchanged.
    pub fn intact(&mut self) -> bool {
        let (s, n) = (self.start(), self.n);
        let a = self.all();
        a[..s].iter().chain(a[s + n..].iter()).all(|b| *b == CANARY)
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { munmap(self.base as *mut c_void, self.len + PAGE) };
    }
}

/// A buffer of which only the last bytes are of interest, which ends at an inaccessible page.
pub struct FarBuf {
    base: *mut u8,
    len: usize,
    before: usize,
    n: usize,
}
impl FarBuf {
    pub fn new(before: usize, b: &[u8]) -> Self {
        let len = (before + b.len() + 2 * PAGE) & !(PAGE - 1);
        let base = unsafe {
            // only the first and the last pages can be written, and use memory
            let p = mmap(std::ptr::null_mut(), len + PAGE, 1, 0x4022, -1, 0) as *mut u8;
            let tail = (len.min(4 * PAGE), len.min(4 * PAGE));
            if p as isize == -1
                || mprotect(p.add(len) as *mut c_void, PAGE, 0) != 0
                || mprotect(p.add(len - tail.0) as *mut c_void, tail.0, 3) != 0
                || mprotect(p as *mut c_void, tail.1, 3) != 0
            {
                crate::json::tool_error("mmap failed");
            }
            p
        };
        let mut r = FarBuf { base, len, before, n: b.len() };
        r.before_window().iter_mut().for_each(|b| *b = CANARY);
        r.first().iter_mut().for_each(|b| *b = CANARY);
        let before = r.before;
        r.data()[before..].copy_from_slice(b);
        r
    }
    fn at(&self, pos: usize, n: usize) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(pos), n) }
    }
    fn first(&self) -> &'static mut [u8] {
        self.at(self.len - self.n - self.before, PAGE.min(self.before))
    }
    fn before_window(&self) -> &'static mut [u8] {
        let n = PAGE.min(self.before);
        self.at(self.len - self.n - n, n)
    }
    pub fn data(&mut self) -> &'static mut [u8] {
        let n = self.before + self.n;
        self.at(self.len - n, n)
    }
    pub fn window(&mut self) -> &'static mut [u8] {
        self.at(self.len - self.n, self.n)
    }
    /// Bytes right before the window and in the beginning are unchanged.
    pub fn intact(&mut self) -> bool {
        self.first().iter().chain(self.before_window().iter()).all(|b| *b == CANARY)
    }
}
impl Drop for FarBuf {
    fn drop(&mut self) {
        unsafe { munmap(self.base as *mut c_void, self.len + PAGE) };
    }
}

/// Memory of any size which is zero but for a few bytes; it is never freed.
pub struct WideBuf {
    base: *mut u8,
    len: usize,
}
impl WideBuf {
    pub fn new(len: usize) -> Self {
        // read-only and not reserved: only pages which are written use memory
        let base = unsafe { mmap(std::ptr::null_mut(), (len + 2 * PAGE) & !(PAGE - 1), 1, 0x4022, -1, 0) as *mut u8 };
        if base as isize == -1 {
            crate::json::tool_error("mmap failed");
        }
        WideBuf { base, len }
    }
    pub fn put(&mut self, pos: usize, b: &[u8]) {
        if pos + b.len() > self.len {
            crate::json::tool_error("position beyond the end");
        }
        for (k, x) in b.iter().enumerate().filter(|(_, x)| **x != 0) {
            unsafe {
                let p = self.base.add(pos + k);
                let page = (p as usize & !(PAGE - 1)) as *mut c_void;
                if mprotect(page, PAGE, 3) != 0 {
                    crate::json::tool_error("mprotect failed");
                }
                *p = *x;
                mprotect(page, PAGE, 1);
            }
        }
    }
    pub fn get(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    /// Gives the memory back, when nothing refers to it any more
    pub fn free(&mut self) {
        unsafe { munmap(self.base as *mut c_void, (self.len + 2 * PAGE) & !(PAGE - 1)) };
    }
}

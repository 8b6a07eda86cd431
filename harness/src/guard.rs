//! Buffers with canary-filled surroundings, and buffers flush against inaccessible pages.
use crate::num::Real;

/// `len` elements at element offset `off` behind a canary pad, with a canary pad after them.
pub struct Padded<T> {
    all: Vec<T>,
    start: usize,
    len: usize,
    pad: T,
}
impl<T: Real> Padded<T> {
    pub fn new(data: &[T], off: usize, pad: f64) -> Self {
        let pre = data.len() + 64 + off;
        let post = data.len() + 64;
        let mut all = vec![T::of(pad); pre + data.len() + post];
        all[pre..pre + data.len()].copy_from_slice(data);
        Padded { all, start: pre, len: data.len(), pad: T::of(pad) }
    }
    pub fn get(&mut self) -> &mut [T] {
        &mut self.all[self.start..self.start + self.len]
    }
    pub fn view(&self) -> &[T] {
        &self.all[self.start..self.start + self.len]
    }
    /// offset (relative to the slice) of the first pad element that changed
    pub fn damaged(&self) -> Option<isize> {
        (0..self.all.len())
            .filter(|i| *i < self.start || *i >= self.start + self.len)
            .find(|i| self.all[*i].bits() != self.pad.bits())
            .map(|i| i as isize - self.start as isize)
    }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;

/// Elements placed so that the slice ends (or starts) exactly at an inaccessible page:
/// any access past that side is a segmentation fault.
pub struct Fenced<T> {
    base: *mut u8,
    total: usize,
    ptr: *mut T,
    len: usize,
}
impl<T: Real> Fenced<T> {
    pub fn new(data: &[T], at_end: bool) -> Self {
        let sz = std::mem::size_of::<T>();
        let bytes = data.len() * sz;
        let pages = (bytes + PAGE - 1) / PAGE;
        let inner = pages.max(1) * PAGE;
        let total = inner + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 0, 0x22, -1, 0);
            assert!(base as isize != -1, "HARNESS: mmap failed");
            assert!(mprotect(base.add(PAGE), inner, 3) == 0, "HARNESS: mprotect failed");
            let p = if at_end { base.add(PAGE + inner - bytes) } else { base.add(PAGE) } as *mut T;
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            Fenced { base, total, ptr: p, len: data.len() }
        }
    }
    pub fn get(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    pub fn view(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    /// from now on any write to the slice is a segmentation fault
    pub fn read_only(&mut self) {
        unsafe {
            assert!(mprotect(self.base.add(PAGE), self.total - 2 * PAGE, 1) == 0, "HARNESS: mprotect failed");
        }
    }
}
impl<T> Drop for Fenced<T> {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.total);
        }
    }
}

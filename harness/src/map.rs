//! Address space without memory behind it, for buffers of more than 4 GiB of which little is touched.
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> c_int;
}

pub struct Mapped {
    p: *mut c_void,
    len: usize,
}

impl Mapped {
    /// `len` bytes of zeros, or None where the system has no such room.
    pub fn new(len: usize) -> Option<Mapped> {
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        Some(Mapped { p, len })
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut u8, self.len) }
    }
    pub fn words(&mut self) -> &mut [i16] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut i16, self.len / 2) }
    }
}

impl Drop for Mapped {
    fn drop(&mut self) {
        unsafe { munmap(self.p, self.len) };
    }
}

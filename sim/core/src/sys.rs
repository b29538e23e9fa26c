//! The few system calls the simulator needs, declared by hand (no libc crate).
#![allow(non_camel_case_types)]
pub type c_int = i32;
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn mmap(addr: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    pub fn munmap(addr: *mut u8, len: usize) -> c_int;
    pub fn mprotect(addr: *mut u8, len: usize, prot: c_int) -> c_int;
    pub fn setitimer(which: c_int, new: *const itimerval, old: *mut itimerval) -> c_int;
    pub fn signal(sig: c_int, h: usize) -> usize;
    pub fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}
#[repr(C)]
pub struct itimerval {
    pub interval: [i64; 2],
    pub value: [i64; 2],
}
pub const PROT_NONE: c_int = 0;
pub const PROT_READ: c_int = 1;
pub const PROT_WRITE: c_int = 2;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const WNOHANG: c_int = 1;
pub const ITIMER_VIRTUAL: c_int = 1;

/// Arm (or with 0 disarm) a CPU-time watchdog: SIGVTALRM kills the process.
pub fn watchdog(secs: i64) {
    unsafe {
        setitimer(ITIMER_VIRTUAL, &itimerval { interval: [0, 0], value: [secs, 0] }, core::ptr::null_mut());
    }
}

pub fn shared_map(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(core::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANON, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p
    }
}

/// An anonymous mapping with an inaccessible page before and after it.
pub struct Guarded {
    base: *mut u8,
    total: usize,
    len: usize,
}

pub const PAGE: usize = 4096;

impl Guarded {
    pub fn new(len: usize) -> Self {
        let len = len.div_ceil(PAGE).max(1) * PAGE;
        let total = len + 2 * PAGE;
        unsafe {
            let base = mmap(core::ptr::null_mut(), total, PROT_NONE, MAP_PRIVATE | MAP_ANON, -1, 0);
            assert!(base as isize != -1, "mmap failed");
            assert_eq!(mprotect(base.add(PAGE), len, PROT_READ | PROT_WRITE), 0);
            Guarded { base, total, len }
        }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn start(&self) -> *mut u8 {
        unsafe { self.base.add(PAGE) }
    }
    /// Copy `data` so that it ends exactly at the upper guard page.
    pub fn place_end<'a>(&'a mut self, data: &[u8]) -> &'a mut [u8] {
        assert!(data.len() <= self.len);
        unsafe {
            let p = self.start().add(self.len - data.len());
            core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            core::slice::from_raw_parts_mut(p, data.len())
        }
    }
    /// Copy `data` so that it starts exactly after the lower guard page.
    pub fn place_start<'a>(&'a mut self, data: &[u8]) -> &'a mut [u8] {
        assert!(data.len() <= self.len);
        unsafe {
            let p = self.start();
            core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            core::slice::from_raw_parts_mut(p, data.len())
        }
    }
    pub fn slice(&mut self, off: usize, len: usize) -> &mut [u8] {
        assert!(off + len <= self.len);
        unsafe { core::slice::from_raw_parts_mut(self.start().add(off), len) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.total);
        }
    }
}

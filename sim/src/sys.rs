//! Raw system interface: only what the simulator itself needs, by number, so
//! that the libc symbols the crate under test uses can be taken over.
#![allow(dead_code)]
use std::arch::asm;

pub type Pthread = usize;

#[inline]
pub unsafe fn raw6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

extern "C" {
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    pub fn mincore(a: *mut u8, len: usize, vec: *mut u8) -> i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn alarm(s: u32) -> u32;
    pub fn signal(sig: i32, h: usize) -> usize;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const i8, fl: i32, ...) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    pub fn pthread_attr_init(a: *mut [u64; 8]) -> i32;
    pub fn pthread_attr_getstacksize(a: *const [u64; 8], size: *mut usize) -> i32;
    pub fn pthread_attr_setguardsize(a: *mut [u64; 8], size: usize) -> i32;
    pub fn pthread_attr_setstack(a: *mut [u64; 8], addr: *mut u8, size: usize) -> i32;
    pub fn pthread_key_create(k: *mut u32, d: Option<unsafe extern "C" fn(*mut u8)>) -> i32;
    pub fn pthread_setspecific(k: u32, v: *const u8) -> i32;
    #[link_name = "__errno_location"]
    pub fn errno_location() -> *mut i32;
    #[link_name = "__data_start"]
    pub static DATA_START: u8;
    #[link_name = "_end"]
    pub static DATA_END: u8;
}

pub const PROT_RW: i32 = 3;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_SHARED: i32 = 1;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x10_0000;

pub unsafe fn map(addr: usize, len: usize, shared: bool) -> *mut u8 {
    let mut fl = MAP_ANON | MAP_NORESERVE | if shared { MAP_SHARED } else { MAP_PRIVATE };
    if addr != 0 {
        fl |= MAP_FIXED_NOREPLACE;
    }
    let p = mmap(addr as *mut u8, len, PROT_RW, fl, -1, 0);
    if p as isize == -1 || (addr != 0 && p as usize != addr) {
        eprintln!("simulator: cannot map {len} bytes at {addr:#x}");
        _exit(2);
    }
    p
}

pub const FUTEX_PRIVATE: u64 = 128;
pub unsafe fn futex_wait(a: *const u32, v: u32) {
    raw6(202, a as u64, FUTEX_PRIVATE, u64::from(v), 0, 0, 0);
}
pub unsafe fn futex_wake(a: *const u32) {
    raw6(202, a as u64, 1 | FUTEX_PRIVATE, 1, 0, 0, 0);
}
pub unsafe fn set_errno(e: i32) {
    *errno_location() = e;
}

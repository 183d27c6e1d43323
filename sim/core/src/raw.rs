//! Raw system calls: the way out of the simulator to the real kernel.
#![allow(clippy::missing_safety_doc, clippy::too_many_arguments)]
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

#[inline(always)]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
#[inline(always)]
pub unsafe fn sys3(n: i64, a: usize, b: usize, c: usize) -> isize {
    sys6(n, a, b, c, 0, 0, 0)
}
#[inline(always)]
pub unsafe fn sys4(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    sys6(n, a, b, c, d, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Kernel convention to libc convention.
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        sys3(libc::SYS_exit_group, code as usize, 0, 0);
    }
    unreachable!()
}
pub fn futex_wait(w: &AtomicU32, val: u32) {
    unsafe {
        sys4(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize, val as usize, 0);
    }
}
pub fn futex_wait_timeout(w: &AtomicU32, val: u32, ms: u64) {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe {
        sys4(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize, val as usize, &ts as *const _ as usize);
    }
}
pub fn futex_wake(w: &AtomicU32) {
    unsafe {
        sys3(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize, 64);
    }
}
pub fn wait_word(w: &AtomicU32) {
    while w.swap(0, Ordering::SeqCst) == 0 {
        futex_wait(w, 0);
    }
}
pub fn post_word(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    futex_wake(w);
}
pub fn now_real() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sys3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

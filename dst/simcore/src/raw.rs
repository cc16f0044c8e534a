//! Raw system calls (never interposed) and the few libc symbols we need the real version of.
use core::arch::asm;
use std::sync::atomic::AtomicU32;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub unsafe fn ret_errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
pub unsafe fn sem_wait(s: &AtomicU32) {
    use std::sync::atomic::Ordering::*;
    loop {
        if s.compare_exchange(1, 0, Acquire, Relaxed).is_ok() {
            return;
        }
        sc6(libc::SYS_futex, s as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}
pub unsafe fn sem_post(s: &AtomicU32) {
    use std::sync::atomic::Ordering::*;
    s.store(1, Release);
    sc6(libc::SYS_futex, s as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
}
pub unsafe fn write_fd(fd: i32, b: &[u8]) {
    sc6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
}
pub unsafe fn mmap(addr: usize, len: usize, prot: i32, flags: i32) -> usize {
    let r = sc6(libc::SYS_mmap, addr, len, prot as usize, flags as usize, usize::MAX, 0);
    if r < 0 {
        write_fd(2, b"simcore: mmap failed\n");
        exit_group(99);
    }
    r as usize
}
pub fn real_now_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = core::mem::zeroed();
        sc6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

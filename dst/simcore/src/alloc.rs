//! Deterministic allocator: two fixed-address arenas. Arena A serves the orchestrating process, arena B
//! is switched to when a simulated run starts, so that every run (in whatever process, after whatever
//! history) sees the same heap addresses.
use crate::raw;
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const A_BASE: usize = 0x1000_0000_0000;
const B_BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 24 << 30;
const SMALL: usize = 64; // 16..1024 step 16
const NCLASS: usize = SMALL + 32;

struct Arena {
    base: usize,
    next: usize,
    mapped: bool,
    free: [usize; NCLASS],
}
static mut ARENAS: [Arena; 2] = [
    Arena { base: A_BASE, next: 0, mapped: false, free: [0; NCLASS] },
    Arena { base: B_BASE, next: 0, mapped: false, free: [0; NCLASS] },
];
static WHICH: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);

pub fn switch_to_sim() {
    WHICH.store(1, Ordering::SeqCst);
}
pub fn sim_bytes() -> usize {
    unsafe { ARENAS[1].next.saturating_sub(B_BASE) }
}
fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = size.div_ceil(16).max(1);
        (c - 1, c * 16)
    } else {
        let p = size.next_power_of_two();
        (SMALL + p.trailing_zeros() as usize - 11, p)
    }
}
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        core::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}
pub struct DetAlloc;
unsafe impl GlobalAlloc for DetAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        // class sizes are aligned to 16 (small) or to their power of two; larger alignments use the class of max(size,align)
        let want = if align > 16 { l.size().max(align).max(1025) } else { l.size().max(1) };
        let (c, sz) = class(want);
        lock();
        let a = &mut *core::ptr::addr_of_mut!(ARENAS[WHICH.load(Ordering::Relaxed)]);
        if !a.mapped {
            a.mapped = true;
            raw::mmap(a.base, SIZE, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE);
            a.next = a.base;
        }
        let p = a.free[c];
        let r = if p != 0 {
            a.free[c] = *(p as *const usize);
            p
        } else {
            let al = if c >= SMALL { sz.min(4096).max(align) } else { 16 };
            let s = (a.next + al - 1) & !(al - 1);
            a.next = s + sz;
            if a.next > a.base + SIZE {
                unlock();
                raw::write_fd(2, b"simcore: arena exhausted\n");
                raw::exit_group(98);
            }
            s
        };
        unlock();
        r as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let align = l.align().max(16);
        let want = if align > 16 { l.size().max(align).max(1025) } else { l.size().max(1) };
        let (c, _) = class(want);
        lock();
        let i = if (p as usize) >= B_BASE { 1 } else { 0 };
        let a = &mut *core::ptr::addr_of_mut!(ARENAS[i]);
        *(p as *mut usize) = a.free[c];
        a.free[c] = p as usize;
        unlock();
    }
}

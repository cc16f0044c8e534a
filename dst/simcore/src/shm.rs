//! Memory shared between a worker process and the simulated processes it forks.
use crate::raw;

pub const HIST_CAP: usize = 1 << 20; // words
pub const DEC_CAP: usize = 1 << 19;
pub const COV_CAP: usize = 1 << 20;
pub const IMG_CAP: usize = 256 << 20;
pub const NSTAT: usize = 512;
pub const MSG_CAP: usize = 8192;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Dec {
    pub kind: u32, // DK_*
    pub tid: u32,
    pub n: u64,
    pub val: u64,
}
pub const DK_SWITCH: u32 = 1; // at the n-th synchronisation point of tid run val
pub const DK_PREEMPT: u32 = 2; // at the n-th basic block of tid run val
pub const DK_WAKE: u32 = 3; // at the n-th wake of tid pick waiter index val
pub const DK_SPUR: u32 = 4; // the n-th futex wait of tid returns spuriously
pub const DK_JUMP: u32 = 5; // at the n-th synchronisation point of tid let the clock reach the next deadline

// outcomes
pub const OUT_NONE: u32 = 0;
pub const OUT_OK: u32 = 1;
pub const OUT_VIOLATION: u32 = 2;
pub const OUT_CRASHED: u32 = 3;
pub const OUT_DEADLOCK: u32 = 4;
pub const OUT_BUDGET: u32 = 5;
pub const OUT_TIME: u32 = 6;
pub const OUT_ABORT: u32 = 7; // SIGSEGV, SIGABRT ... inside the simulated process
pub const OUT_HARNESS: u32 = 8;

#[repr(C)]
pub struct Shm {
    pub outcome: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub panic_len: u32,
    pub npanics: u32,
    pub pad: u32,
    pub nhist: u64,
    pub ndec: u64,
    pub img_len: u64,
    pub trace: u64,
    pub nlog: u64,
    pub stats: [u64; NSTAT],
    pub class: [u8; 256],
    pub msg: [u8; MSG_CAP],
    pub panic: [u8; MSG_CAP],
    pub log: [u8; 1 << 20],
    pub cov: [u8; COV_CAP],
    pub dec: [Dec; DEC_CAP],
    pub hist: [u64; HIST_CAP],
    pub img: [u8; IMG_CAP],
}

// stat indices
pub const ST_POINTS: usize = 0;
pub const ST_SWITCHES: usize = 1;
pub const ST_PREEMPTS: usize = 2;
pub const ST_BB: usize = 3;
pub const ST_TIME: usize = 4;
pub const ST_THREADS: usize = 5;
pub const ST_SPURIOUS: usize = 6;
pub const ST_JUMPS: usize = 7;
pub const ST_FORCED: usize = 8;
pub const ST_CRASH: usize = 9;
pub const ST_EIO_R: usize = 10;
pub const ST_EIO_W: usize = 11;
pub const ST_EIO_S: usize = 12;
pub const ST_ENOSPC: usize = 13;
pub const ST_SHORT_R: usize = 14;
pub const ST_SHORT_W: usize = 15;
pub const ST_EINTR: usize = 16;
pub const ST_LAT: usize = 17;
pub const ST_TORN: usize = 18;
pub const ST_LOST: usize = 19;
pub const ST_KEPT: usize = 20;
pub const ST_OPEN_FAIL: usize = 21;
pub const ST_CLOCKJUMP: usize = 22;
pub const ST_STALL: usize = 23;
pub const ST_BITROT: usize = 24;
pub const ST_VFS_BASE: usize = 32; // per-op counters: open read write sync other
pub const ST_PROBE: usize = 64; // probes 64..512

pub static mut SHM: *mut Shm = core::ptr::null_mut();

pub fn create() {
    unsafe {
        let p = raw::mmap(
            0x3000_0000_0000,
            core::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        );
        SHM = p as *mut Shm;
        crate::sched::COV = core::ptr::addr_of_mut!((*SHM).cov) as *mut u8;
    }
}
#[allow(clippy::mut_from_ref)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
/// Forget the results of the previous run (`keep_history` between the phases of one run).
pub fn reset(keep_history: bool) {
    let s = shm();
    s.outcome = OUT_NONE;
    s.class_len = 0;
    s.msg_len = 0;
    if !keep_history {
        s.panic_len = 0;
        s.npanics = 0;
        s.nhist = 0;
        s.img_len = 0;
        s.ndec = 0;
        s.trace = 0;
        s.nlog = 0;
        s.stats = [0; NSTAT];
    }
}
pub fn stat(i: usize, by: u64) {
    let s = shm();
    s.stats[i] = s.stats[i].wrapping_add(by);
}
pub fn text(b: &[u8], len: u32) -> String {
    String::from_utf8_lossy(&b[..len as usize]).into_owned()
}
pub fn logline(s: &str) {
    let h = shm();
    let n = h.nlog as usize;
    if n + s.len() + 1 < h.log.len() {
        h.log[n..n + s.len()].copy_from_slice(s.as_bytes());
        h.log[n + s.len()] = b'\n';
        h.nlog = (n + s.len() + 1) as u64;
    }
}

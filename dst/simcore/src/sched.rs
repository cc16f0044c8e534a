//! Baton scheduler: real threads, exactly one of which runs; who runs next, when a running thread is
//! preempted, which waiter a wake reaches and how time passes is decided here, from one seed.
use crate::plan::SchedP;
use crate::raw;
use crate::rng::Rng;
use crate::shm::*;
use core::ptr::addr_of_mut;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::AtomicU32;

pub const MAXT: usize = 4096;
const STACK_BASE: usize = 0x4000_0000_0000;
const STACK_SIZE: usize = 4 << 20;
pub const NEVER: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Runnable,
    Blocked, // on addr and/or deadline
    Done,
}
pub struct Th {
    sem: AtomicU32,
    st: St,
    addr: usize,
    mask: u32,
    deadline: u64,
    timed_out: bool,
    prio: u64,
    bb: u64,
    pts: u64,
    waits: u64,
    wakes: u64,
    real: libc::pthread_t,
    start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    arg: usize,
    dtor_rounds: u32,
}
const TH0: Th = Th {
    sem: AtomicU32::new(0),
    st: St::Free,
    addr: 0,
    mask: 0,
    deadline: NEVER,
    timed_out: false,
    prio: 0,
    bb: 0,
    pts: 0,
    waits: 0,
    wakes: 0,
    real: 0,
    start: None,
    arg: 0,
    dtor_rounds: 0,
};
pub struct Sched {
    pub on: bool,
    pub now: u64,
    pub rt_off: i64,
    rt_reads: u64,
    rt_steps: Vec<(u64, i64)>,
    rt_gran: u64,
    pub p: SchedP,
    pub rng: Rng,
    pub rand: Rng, // getrandom stream
    replay: Option<BTreeMap<(u32, u32, u64), u64>>,
    cur: usize,
    nth: usize,
    live: [u16; MAXT],
    nlive: usize,
    pub bb_total: u64, // basic blocks accounted so far
    loaded: i64,
    next_preempt: u64,
    last_switch_bb: u64,
    spins: u32,
    pts_since_switch: u64,
    jumped: u64,
    pub crash_bb: u64,
    change_pts: Vec<u64>,
    next_min_prio: u64,
    pub points: u64,
    pub seq: u64,
    pub stall: Vec<(u64, u64)>,
}
static mut S: Sched = Sched {
    on: false,
    now: 0,
    rt_off: 0,
    rt_reads: 0,
    rt_steps: Vec::new(),
    rt_gran: 1,
    p: SchedP {
        strategy: 0,
        preempt_mean: 0,
        pct_depth: 0,
        pct_len: 0,
        switch_ppm: 0,
        spurious_ppm: 0,
        jump_ppm: 0,
        lat_ns: 0,
        max_ms: 0,
        max_bb: 0,
        max_points: 0,
    },
    rng: Rng(0),
    rand: Rng(0),
    replay: None,
    cur: 0,
    nth: 1,
    live: [0; MAXT],
    nlive: 0,
    bb_total: 0,
    loaded: 0,
    next_preempt: NEVER,
    last_switch_bb: 0,
    spins: 0,
    pts_since_switch: 0,
    jumped: 0,
    crash_bb: NEVER,
    change_pts: Vec::new(),
    next_min_prio: 0,
    points: 0,
    seq: 0,
    stall: Vec::new(),
};
static mut TH: [Th; MAXT] = [TH0; MAXT];
static mut KEY: libc::pthread_key_t = 0;

pub static mut COUNTDOWN: i64 = i64::MAX / 4;
static mut DUMMY_COV: [u8; COV_CAP] = [0; COV_CAP];
pub static mut COV: *mut u8 = unsafe { addr_of_mut!(DUMMY_COV) as *mut u8 };
pub static mut NGUARDS: u32 = 0;

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
}
#[inline(always)]
pub fn me() -> usize {
    ME.with(|m| m.get()) as usize
}
/// true when the calling thread is a simulated one
#[inline(always)]
pub fn sim() -> bool {
    me() != 0
}
#[allow(static_mut_refs)]
#[inline(always)]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *addr_of_mut!(S) }
}
#[inline(always)]
fn th(i: usize) -> &'static mut Th {
    unsafe { &mut *(addr_of_mut!(TH) as *mut Th).add(i) }
}

// ---------------------------------------------------------------- basic-block hook
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        if NGUARDS + 1 < COV_CAP as u32 {
            NGUARDS += 1;
        }
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    *COV.add(*g as usize) = 1;
    COUNTDOWN -= 1;
    if COUNTDOWN <= 0 {
        bb_slow();
    }
}
fn account() {
    // fold the basic blocks executed since the last load into the totals
    let sc = s();
    unsafe {
        let d = (sc.loaded - COUNTDOWN) as u64;
        sc.bb_total += d;
        sc.now += d;
        th(sc.cur).bb += d;
        sc.loaded = COUNTDOWN;
    }
}
pub fn bb_now() -> u64 {
    let sc = s();
    sc.bb_total + unsafe { (sc.loaded - COUNTDOWN) as u64 }
}
const FORCE_BB: u64 = 30_000;
const FORCE_PTS: u64 = 400;
fn reload() {
    let sc = s();
    let mut next = sc.next_preempt.min(sc.last_switch_bb.saturating_add(FORCE_BB)).min(sc.p.max_bb).min(sc.crash_bb);
    if let Some(c) = sc.change_pts.last() {
        next = next.min(*c);
    }
    if let Some(r) = &sc.replay {
        let t = sc.cur as u32;
        let tb = th(sc.cur).bb;
        if let Some((k, _)) = r.range((DK_PREEMPT, t, tb + 1)..=(DK_PREEMPT, t, u64::MAX)).next() {
            next = next.min(sc.bb_total + (k.2 - tb));
        }
    }
    let d = next.saturating_sub(sc.bb_total).clamp(1, 1 << 40) as i64;
    unsafe {
        COUNTDOWN = d;
    }
    sc.loaded = d;
}
#[cold]
#[inline(never)]
unsafe fn bb_slow() {
    if !sim() {
        COUNTDOWN = i64::MAX / 4;
        return;
    }
    account();
    let sc = s();
    let bb = sc.bb_total;
    if bb >= sc.p.max_bb {
        finish(OUT_BUDGET, "budget", "basic-block budget exhausted");
    }
    if bb >= sc.crash_bb {
        crate::vfs::crash_now();
    }
    let me_ = sc.cur;
    let mut want: Option<usize> = None;
    if sc.replay.is_some() {
        let k = (DK_PREEMPT, me_ as u32, th(me_).bb);
        if let Some(v) = sc.replay.as_ref().unwrap().get(&k) {
            want = Some(*v as usize);
        }
    } else {
        if bb >= sc.next_preempt {
            sc.next_preempt = bb + sc.rng.geo(sc.p.preempt_mean);
            let t = choose(me_, true);
            want = Some(t);
        }
        if let Some(c) = sc.change_pts.last() {
            if bb >= *c {
                sc.change_pts.pop();
                demote(me_);
                want = Some(choose(me_, true));
            }
        }
    }
    if let Some(t) = want {
        if t != me_ && t < sc.nth && th(t).st == St::Runnable {
            dec(DK_PREEMPT, me_, th(me_).bb, t as u64);
            stat(ST_PREEMPTS, 1);
            switch_to(t);
            return;
        }
    }
    if bb >= sc.last_switch_bb + FORCE_BB {
        sc.last_switch_bb = bb;
        stat(ST_FORCED, 1);
        // a long stretch of computation: let time reach sleepers that are due soon and let others in
        demote(me_);
        spin();
        wake_due();
        let t = next_cyclic(me_);
        if t != me_ {
            switch_to(t);
            return;
        }
    }
    reload();
}
/// A long stretch without any thread blocking: computation takes time, and a thread that polls
/// for the end of an operation lets that time pass.
fn spin() {
    let sc = s();
    sc.now += 1_000 << sc.spins.min(9);
    sc.spins += 1;
}
fn demote(t: usize) {
    let sc = s();
    if sc.next_min_prio > 0 {
        sc.next_min_prio -= 1;
    }
    th(t).prio = sc.next_min_prio;
}
fn dec(kind: u32, tid: usize, n: u64, val: u64) {
    let h = shm();
    if (h.ndec as usize) < DEC_CAP {
        h.dec[h.ndec as usize] = Dec { kind, tid: tid as u32, n, val };
        h.ndec += 1;
    }
}
fn trace(v: u64) {
    let h = shm();
    h.trace = (h.trace.rotate_left(7) ^ v).wrapping_mul(0x9e3779b97f4a7c15);
}
pub fn trace_mix(v: u64) {
    if sim() {
        trace(v);
    }
}
fn next_cyclic(t: usize) -> usize {
    let sc = s();
    let mut first = None;
    for i in 0..sc.nlive {
        let l = sc.live[i] as usize;
        if th(l).st == St::Runnable {
            if l > t {
                return l;
            }
            if first.is_none() && l != t {
                first = Some(l);
            }
        }
    }
    match first {
        Some(f) => f,
        None => t,
    }
}
fn runnable(buf: &mut [u16; MAXT]) -> usize {
    let sc = s();
    let mut n = 0;
    for i in 0..sc.nlive {
        if th(sc.live[i] as usize).st == St::Runnable {
            buf[n] = sc.live[i];
            n += 1;
        }
    }
    n
}
static mut BUF: [u16; MAXT] = [0; MAXT];
/// strategy's choice among the runnable threads (`me_` may or may not be one); 0 if none
fn choose(me_: usize, preempt: bool) -> usize {
    let sc = s();
    let buf = unsafe { &mut *addr_of_mut!(BUF) };
    let n = runnable(buf);
    if n == 0 {
        return 0;
    }
    let cur_ok = th(me_).st == St::Runnable;
    match sc.p.strategy {
        1 => buf[sc.rng.below(n as u64) as usize] as usize,
        2 => {
            let mut best = buf[0] as usize;
            for &b in &buf[1..n] {
                if th(b as usize).prio > th(best).prio {
                    best = b as usize;
                }
            }
            best
        }
        3 => next_cyclic(me_),
        _ => {
            if cur_ok && !preempt && !(sc.p.switch_ppm > 0 && sc.rng.below(1_000_000) < sc.p.switch_ppm) {
                me_
            } else {
                buf[sc.rng.below(n as u64) as usize] as usize
            }
        }
    }
}
fn switch_to(t: usize) {
    let sc = s();
    let from = sc.cur;
    if t == from {
        reload();
        return;
    }
    account();
    stat(ST_SWITCHES, 1);
    trace(((t as u64) << 48) ^ th(from).bb);
    sc.cur = t;
    sc.last_switch_bb = sc.bb_total;
    sc.pts_since_switch = 0;
    reload();
    unsafe {
        raw::sem_post(&th(t).sem);
        raw::sem_wait(&th(from).sem);
    }
}
fn wake_due() {
    let sc = s();
    for i in 0..sc.nlive {
        let t = th(sc.live[i] as usize);
        if t.st == St::Blocked && t.deadline <= sc.now {
            t.st = St::Runnable;
            t.timed_out = true;
            t.addr = 0;
            t.deadline = NEVER;
        }
    }
}
fn min_deadline() -> u64 {
    let sc = s();
    let mut m = NEVER;
    for i in 0..sc.nlive {
        let t = th(sc.live[i] as usize);
        if t.st == St::Blocked {
            m = m.min(t.deadline);
        }
    }
    m
}
const JUMP_MAX: u64 = 1_000_000_000;
fn tick(ns: u64) {
    let sc = s();
    account();
    sc.now += ns;
    sc.points += 1;
    th(sc.cur).pts += 1;
    if sc.points >= sc.p.max_points {
        finish(OUT_BUDGET, "budget", "scheduling-point budget exhausted");
    }
    if sc.now - sc.jumped > sc.p.max_ms * 1_000_000 {
        finish(OUT_TIME, "time", "virtual time limit reached");
    }
}
/// A synchronisation point of the current (runnable) thread.
pub fn point(is_yield: bool) {
    if !sim() {
        return;
    }
    tick(100);
    let sc = s();
    let me_ = sc.cur;
    let n = th(me_).pts;
    // early timer expiry: simulated time passes while this thread is between two instructions
    let jump = match &sc.replay {
        Some(r) => r.contains_key(&(DK_JUMP, me_ as u32, n)),
        None => sc.p.jump_ppm > 0 && sc.rng.below(1_000_000) < sc.p.jump_ppm,
    };
    if jump {
        // short timers only (idle-thread keep-alives would otherwise eat the time budget)
        let d = min_deadline();
        if d != NEVER && d > sc.now && d - sc.now <= JUMP_MAX {
            dec(DK_JUMP, me_, n, 0);
            stat(ST_JUMPS, 1);
            sc.jumped += d - sc.now;
            sc.now = d;
        }
    }
    wake_due();
    sc.pts_since_switch += 1;
    let default = if is_yield { next_cyclic(me_) } else { me_ };
    let forced = sc.pts_since_switch > FORCE_PTS;
    let t = if forced {
        stat(ST_FORCED, 1);
        sc.pts_since_switch = 0;
        demote(me_);
        spin();
        wake_due();
        let t = next_cyclic(me_);
        if t == me_ {
            // nobody else to run: a polling loop; let its time pass
            let d = min_deadline();
            if d != NEVER {
                sc.now = sc.now.max(d);
                wake_due();
            }
        }
        next_cyclic(me_)
    } else if let Some(r) = &sc.replay {
        match r.get(&(DK_SWITCH, me_ as u32, n)) {
            Some(v) if (*v as usize) < sc.nth && th(*v as usize).st == St::Runnable => *v as usize,
            _ => default,
        }
    } else {
        if is_yield {
            demote(me_);
        }
        let t = choose(me_, is_yield);
        if t == 0 { me_ } else { t }
    };
    if t != default && !forced {
        dec(DK_SWITCH, me_, n, t as u64);
    }
    if t != me_ {
        switch_to(t);
    } else {
        reload();
    }
}
/// Block the current thread (its `addr`/`deadline` set by the caller) and run somebody else.
/// Returns true if it timed out.
fn block() -> bool {
    let sc = s();
    let me_ = sc.cur;
    th(me_).timed_out = false;
    th(me_).st = St::Blocked;
    s().spins = 0;
    tick(100);
    resched(me_);
    let r = th(me_).timed_out;
    th(me_).timed_out = false;
    r
}
fn resched(me_: usize) {
    let sc = s();
    let n = th(me_).pts;
    wake_due();
    let mut default = if th(me_).st == St::Runnable { me_ } else { next_cyclic(me_) };
    if th(default).st != St::Runnable {
        let d = min_deadline();
        if d == NEVER {
            finish(OUT_DEADLOCK, "deadlock", "every thread is blocked and no timer is pending");
        }
        sc.now = sc.now.max(d);
        if sc.now - sc.jumped > sc.p.max_ms * 1_000_000 {
            finish(OUT_TIME, "time", "virtual time limit reached");
        }
        wake_due();
        default = if th(me_).st == St::Runnable { me_ } else { next_cyclic(me_) };
    }
    let t = if let Some(r) = &sc.replay {
        match r.get(&(DK_SWITCH, me_ as u32, n)) {
            Some(v) if (*v as usize) < sc.nth && th(*v as usize).st == St::Runnable => *v as usize,
            _ => default,
        }
    } else {
        choose(me_, true)
    };
    if t != default {
        dec(DK_SWITCH, me_, n, t as u64);
    }
    if t != me_ {
        switch_to(t);
    } else {
        sc.pts_since_switch = 0;
        reload();
    }
}
// ---------------------------------------------------------------- primitives
pub fn sleep_ns(ns: u64) {
    let sc = s();
    account();
    let me_ = sc.cur;
    th(me_).addr = 0;
    th(me_).deadline = sc.now.saturating_add(ns.max(1));
    block();
}
pub fn sleep_until(t: u64) {
    let sc = s();
    account();
    if t <= sc.now {
        point(true);
        return;
    }
    th(sc.cur).addr = 0;
    th(sc.cur).deadline = t;
    block();
}
/// 0 or negative errno
pub fn futex_wait(addr: usize, val: u32, mask: u32, deadline: u64) -> i64 {
    point(false);
    let sc = s();
    let me_ = sc.cur;
    let cur = unsafe { core::ptr::read_volatile(addr as *const u32) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    if deadline <= sc.now {
        return -(libc::ETIMEDOUT as i64);
    }
    th(me_).waits += 1;
    let w = th(me_).waits;
    let spur = match &sc.replay {
        Some(r) => r.contains_key(&(DK_SPUR, me_ as u32, w)),
        None => sc.p.spurious_ppm > 0 && sc.rng.below(1_000_000) < sc.p.spurious_ppm,
    };
    if spur {
        dec(DK_SPUR, me_, w, 0);
        stat(ST_SPURIOUS, 1);
        return 0;
    }
    th(me_).addr = addr;
    th(me_).mask = mask;
    th(me_).deadline = deadline;
    if block() { -(libc::ETIMEDOUT as i64) } else { 0 }
}
pub fn futex_wake(addr: usize, mut n: u64, mask: u32) -> i64 {
    let mut woken = 0;
    let sc = s();
    let me_ = sc.cur;
    while n > 0 {
        let buf = unsafe { &mut *addr_of_mut!(BUF) };
        let mut k = 0;
        for i in 0..sc.nlive {
            let t = th(sc.live[i] as usize);
            if t.st == St::Blocked && t.addr == addr && (t.mask & mask) != 0 {
                buf[k] = sc.live[i];
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        th(me_).wakes += 1;
        let w = th(me_).wakes;
        let pick = if n as usize >= k || k == 1 {
            0
        } else {
            let v = match &sc.replay {
                Some(r) => *r.get(&(DK_WAKE, me_ as u32, w)).unwrap_or(&0),
                None => sc.rng.below(k as u64),
            };
            if v != 0 {
                dec(DK_WAKE, me_, w, v);
            }
            (v as usize) % k
        };
        let t = th(buf[pick] as usize);
        t.st = St::Runnable;
        t.addr = 0;
        t.deadline = NEVER;
        t.timed_out = false;
        woken += 1;
        n -= 1;
    }
    point(false);
    woken
}
// ---------------------------------------------------------------- threads
extern "C" fn tramp(a: *mut libc::c_void) -> *mut libc::c_void {
    let id = a as usize;
    ME.with(|m| m.set(id as u32));
    unsafe {
        libc::pthread_setspecific(KEY, id as *const _);
        raw::sem_wait(&th(id).sem);
    }
    (th(id).start.unwrap())(th(id).arg as *mut _)
}
extern "C" fn on_exit(v: *mut libc::c_void) {
    let id = v as usize;
    if me() != id {
        return;
    }
    // run last: after other thread-specific destructors
    if th(id).dtor_rounds < 2 {
        th(id).dtor_rounds += 1;
        unsafe { libc::pthread_setspecific(KEY, v) };
        return;
    }
    account();
    let sc = s();
    th(id).st = St::Done;
    // wake joiners
    let key = joinkey(id);
    for i in 0..sc.nlive {
        let t = th(sc.live[i] as usize);
        if t.st == St::Blocked && t.addr == key {
            t.st = St::Runnable;
            t.addr = 0;
            t.deadline = NEVER;
        }
    }
    let mut w = 0;
    for i in 0..sc.nlive {
        if sc.live[i] as usize != id {
            sc.live[w] = sc.live[i];
            w += 1;
        }
    }
    sc.nlive = w;
    tick(100);
    // hand the baton over without waiting for it again
    let n = th(id).pts;
    wake_due();
    let mut default = next_cyclic(id);
    if th(default).st != St::Runnable {
        let d = min_deadline();
        if d == NEVER {
            finish(OUT_DEADLOCK, "deadlock", "every thread is blocked and no timer is pending");
        }
        sc.now = sc.now.max(d);
        wake_due();
        default = next_cyclic(id);
    }
    let t = if let Some(r) = &sc.replay {
        match r.get(&(DK_SWITCH, id as u32, n)) {
            Some(v) if (*v as usize) < sc.nth && th(*v as usize).st == St::Runnable => *v as usize,
            _ => default,
        }
    } else {
        choose(id, true)
    };
    if t != default {
        dec(DK_SWITCH, id, n, t as u64);
    }
    stat(ST_SWITCHES, 1);
    trace(((t as u64) << 48) ^ 0xdead);
    sc.cur = t;
    sc.last_switch_bb = sc.bb_total;
    sc.pts_since_switch = 0;
    ME.with(|m| m.set(0));
    reload();
    unsafe { raw::sem_post(&th(t).sem) };
}
fn joinkey(id: usize) -> usize {
    0x7000_0000_0000_0000 + id
}
type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

/// Resolve the real libc functions; call once at process start.
pub fn init_process() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        if c.is_null() || j.is_null() {
            raw::write_fd(2, b"simcore: dlsym failed\n");
            raw::exit_group(97);
        }
        REAL_CREATE = Some(core::mem::transmute::<*mut libc::c_void, CreateFn>(c));
        REAL_JOIN = Some(core::mem::transmute::<*mut libc::c_void, JoinFn>(j));
        libc::pthread_key_create(addr_of_mut!(KEY), Some(core::mem::transmute::<extern "C" fn(*mut libc::c_void), unsafe extern "C" fn(*mut libc::c_void)>(on_exit)));
    }
}
unsafe fn spawn_raw(
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> Result<(usize, libc::pthread_t), i32> {
    let sc = s();
    if sc.nth >= MAXT {
        finish(OUT_BUDGET, "budget", "too many threads created");
    }
    let id = sc.nth;
    sc.nth += 1;
    stat(ST_THREADS, 1);
    let base = STACK_BASE + id * (STACK_SIZE + (1 << 20));
    raw::mmap(
        base,
        STACK_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
    );
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    libc::pthread_attr_setstack(&mut attr, base as *mut _, STACK_SIZE);
    let t = th(id);
    *t = TH0;
    t.start = Some(start);
    t.arg = arg as usize;
    t.st = St::Runnable;
    t.prio = 1_000_000 + sc.rng.below(1_000_000);
    let mut real: libc::pthread_t = 0;
    let r = REAL_CREATE.unwrap()(&mut real, &attr, tramp, id as *mut _);
    libc::pthread_attr_destroy(&mut attr);
    if r != 0 {
        t.st = St::Free;
        return Err(r);
    }
    t.real = real;
    sc.live[sc.nlive] = id as u16;
    sc.nlive += 1;
    Ok((id, real))
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> libc::c_int {
    if !sim() {
        return REAL_CREATE.expect("init_process")(t, attr, start, arg);
    }
    match spawn_raw(start, arg) {
        Ok((_, real)) => {
            *t = real;
            point(false);
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    if !sim() {
        return REAL_JOIN.expect("init_process")(t, ret);
    }
    let sc = s();
    let mut id = 0;
    for i in (1..sc.nth).rev() {
        if th(i).real == t {
            id = i;
            break;
        }
    }
    if id != 0 {
        point(false);
        while th(id).st != St::Done {
            let me_ = sc.cur;
            th(me_).addr = joinkey(id);
            th(me_).mask = !0;
            th(me_).deadline = NEVER;
            block();
        }
        th(id).real = 0;
    }
    REAL_JOIN.unwrap()(t, ret)
}
// ---------------------------------------------------------------- run control
pub struct RunCfg {
    pub p: SchedP,
    pub seed: u64,
    pub replay: Option<Vec<(u32, u32, u64, u64)>>,
    pub start_ns: u64,
    pub crash_bb: u64,
    pub clock_step: i64,
    pub rt_steps: Vec<(u64, i64)>,
    pub rt_gran: u64,
}
type RootFn = Box<dyn FnOnce()>;
static mut ROOT: Option<RootFn> = None;
extern "C" fn root_main(_: *mut libc::c_void) -> *mut libc::c_void {
    #[allow(static_mut_refs)]
    let f = unsafe { ROOT.take().unwrap() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        let h = shm();
        let msg = text(&h.panic, h.panic_len);
        finish(OUT_VIOLATION, "panic", &msg);
    }
    finish(OUT_OK, "", "");
}
fn fatal_signal_setup() {
    extern "C" fn h(sig: libc::c_int) {
        let hs = shm();
        if hs.outcome == OUT_NONE {
            set_outcome(OUT_ABORT, "abort", if sig == libc::SIGABRT { "abort" } else { "invalid memory access" });
        }
        unsafe { raw::exit_group(21) }
    }
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = h as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for sg in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(sg, &sa, core::ptr::null_mut());
        }
    }
}
/// Runs `f` as the root thread of a simulation. Called in a freshly forked process; never returns.
pub fn run(cfg: RunCfg, f: RootFn) -> ! {
    unsafe {
        fatal_signal_setup();
        std::panic::set_hook(Box::new(|i| {
            let h = shm();
            h.npanics += 1;
            if h.panic_len == 0 || h.npanics < 6 {
                let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let pl = i
                    .payload()
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| i.payload().downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                let m = format!("{} [{}]\n", pl, loc);
                let st = h.panic_len as usize;
                let n = m.len().min(MSG_CAP - st);
                h.panic[st..st + n].copy_from_slice(&m.as_bytes()[..n]);
                h.panic_len = (st + n) as u32;
            }
        }));
        ROOT = Some(f);
        let sc = s();
        sc.p = cfg.p.clone();
        sc.rng = Rng::stream(cfg.seed, 1);
        sc.rand = Rng::stream(cfg.seed, 2);
        sc.replay = cfg.replay.map(|v| v.into_iter().map(|(k, t, n, val)| ((k, t, n), val)).collect());
        sc.now = cfg.start_ns;
        sc.rt_off = 1_700_000_000_000_000_000i64 + cfg.clock_step;
        sc.rt_steps = cfg.rt_steps;
        sc.rt_gran = cfg.rt_gran.max(1);
        sc.crash_bb = cfg.crash_bb;
        sc.next_min_prio = 1_000_000;
        if sc.replay.is_none() {
            if sc.p.preempt_mean > 0 {
                sc.next_preempt = sc.rng.geo(sc.p.preempt_mean);
            }
            if sc.p.strategy == 2 {
                let mut v: Vec<u64> = (0..sc.p.pct_depth).map(|_| 1 + sc.rng.below(sc.p.pct_len.max(1))).collect();
                v.sort_by(|a, b| b.cmp(a));
                sc.change_pts = v;
            }
        }
        // single CPU: at most one simulated thread runs at a time anyway
        let (id, _) = match spawn_raw(root_main, core::ptr::null_mut()) {
            Ok(x) => x,
            Err(_) => raw::exit_group(96),
        };
        sc.on = true;
        sc.cur = id;
        sc.bb_total = 0;
        crate::alloc::switch_to_sim();
        reload();
        raw::sem_post(&th(id).sem);
        loop {
            raw::sc6(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
        }
    }
}
pub fn set_outcome(code: u32, class: &str, msg: &str) {
    let h = shm();
    if h.outcome != OUT_NONE {
        return;
    }
    h.outcome = code;
    let n = class.len().min(h.class.len());
    h.class[..n].copy_from_slice(&class.as_bytes()[..n]);
    h.class_len = n as u32;
    let n = msg.len().min(MSG_CAP);
    h.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    h.msg_len = n as u32;
}
pub fn finish(code: u32, class: &str, msg: &str) -> ! {
    account();
    set_outcome(code, class, msg);
    stat(ST_POINTS, s().points);
    stat(ST_BB, s().bb_total);
    stat(ST_TIME, s().now);
    unsafe { raw::exit_group(20) }
}
// ---------------------------------------------------------------- interposed symbols
unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    if t.is_null() {
        return NEVER;
    }
    ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if !sim() {
        return raw::ret_errno(raw::sc6(n, a, b, c, d, e, f));
    }
    if n == libc::SYS_futex {
        let op = (b as i32) & 0x7f;
        let rt = (b as i32) & libc::FUTEX_CLOCK_REALTIME != 0;
        let r = match op {
            libc::FUTEX_WAIT => {
                let rel = ts_ns(d as *const libc::timespec);
                account();
                let dl = s().now.saturating_add(rel);
                futex_wait(a, c as u32, !0, dl)
            }
            libc::FUTEX_WAIT_BITSET => {
                let mut abs = ts_ns(d as *const libc::timespec);
                if rt && abs != NEVER {
                    abs = (abs as i64).saturating_sub(s().rt_off).max(0) as u64;
                }
                futex_wait(a, c as u32, f as u32, abs)
            }
            libc::FUTEX_WAKE => futex_wake(a, c as u64, !0),
            libc::FUTEX_WAKE_BITSET => futex_wake(a, c as u64, f as u32),
            _ => {
                raw::write_fd(2, b"simcore: unsupported futex operation\n");
                raw::exit_group(95)
            }
        };
        return raw::ret_errno(r);
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut _, b, 0) as i64;
    }
    raw::ret_errno(raw::sc6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if !sim() {
        return raw::ret_errno(raw::sc6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize;
    }
    let sc = s();
    for i in 0..len {
        *(buf as *mut u8).add(i) = sc.rand.next() as u8;
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> libc::c_int {
    getrandom(buf, len, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if !sim() {
        return raw::sc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32;
    }
    point(true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !sim() {
        return raw::ret_errno(raw::sc6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32;
    }
    sleep_ns(ts_ns(req));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(ck: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !sim() {
        return -(raw::sc6(libc::SYS_clock_nanosleep, ck as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32);
    }
    if flags & libc::TIMER_ABSTIME != 0 {
        let mut t = ts_ns(req);
        if ck == libc::CLOCK_REALTIME {
            t = (t as i64 - s().rt_off).max(0) as u64;
        }
        sleep_until(t);
    } else {
        sleep_ns(ts_ns(req));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> libc::c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, core::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(ck: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !sim() {
        return raw::ret_errno(raw::sc6(libc::SYS_clock_gettime, ck as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    account();
    let sc = s();
    sc.now += 100;
    let t = if ck == libc::CLOCK_REALTIME || ck == libc::CLOCK_REALTIME_COARSE {
        // the wall clock may be stepped forwards or backwards, or stand still between coarse ticks
        sc.rt_reads += 1;
        for (n, d) in &sc.rt_steps {
            if *n == sc.rt_reads {
                sc.rt_off += *d;
                stat(ST_CLOCKJUMP, 1);
            }
        }
        let t = (sc.now as i64 + sc.rt_off).max(0) as u64;
        t - t % sc.rt_gran
    } else {
        sc.now
    };
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut ts: libc::timespec = core::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = core::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: usize, set: *mut libc::cpu_set_t) -> libc::c_int {
    if !sim() {
        let r = raw::sc6(libc::SYS_sched_getaffinity, pid as usize, len, set as usize, 0, 0, 0);
        return if r >= 0 { 0 } else { raw::ret_errno(r) as i32 };
    }
    core::ptr::write_bytes(set as *mut u8, 0, len);
    *(set as *mut u8) = 0xf;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> libc::c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const libc::pthread_attr_t, out: *mut usize) -> libc::c_int {
    // user-provided stacks report no guard; the standard library insists on one
    let _ = a;
    *out = 4096;
    0
}

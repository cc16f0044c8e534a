//! What scenario code (running inside the simulation) uses.
use crate::sched;
use crate::shm::*;

/// Global event sequence number: a total order over everything recorded.
pub fn seq() -> u64 {
    let s = sched::s();
    s.seq += 1;
    s.seq
}
pub fn now_ns() -> u64 {
    sched::s().now
}
pub fn now_ms() -> u64 {
    sched::s().now / 1_000_000
}
/// Append one record to the history: [tag, seq, words...].
pub fn record(tag: u64, w: &[u64]) -> u64 {
    let sq = seq();
    let h = shm();
    let n = h.nhist as usize;
    if n + w.len() + 3 > HIST_CAP {
        sched::finish(OUT_HARNESS, "harness", "history too long");
    }
    h.hist[n] = (w.len() as u64 + 2) | 0xABCD << 48;
    h.hist[n + 1] = tag;
    h.hist[n + 2] = sq;
    h.hist[n + 3..n + 3 + w.len()].copy_from_slice(w);
    h.nhist = (n + 3 + w.len()) as u64;
    sched::trace_mix(tag ^ w.iter().fold(0, |a, b| crate::rng::mix(a ^ *b)));
    sq
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub tag: u64,
    pub seq: u64,
    pub w: Vec<u64>,
}
/// The recorded history (phases of one run are concatenated).
pub fn history() -> Vec<Rec> {
    let h = shm();
    let mut out = vec![];
    let mut i = 0usize;
    while i < h.nhist as usize {
        let n = (h.hist[i] & 0xffff_ffff) as usize;
        out.push(Rec { tag: h.hist[i + 1], seq: h.hist[i + 2], w: h.hist[i + 3..i + 1 + n].to_vec() });
        i += n + 1;
    }
    out
}
/// Report a violation observed during the run and stop the simulation.
pub fn violation(class: &str, msg: &str) -> ! {
    sched::finish(OUT_VIOLATION, class, msg)
}
/// The scenario is complete.
pub fn done() -> ! {
    sched::finish(OUT_OK, "", "")
}
/// Stop this phase as a process crash (losing whatever is not durable, by the plan's crash mode).
pub fn crash() -> ! {
    crate::vfs::crash_now()
}
/// Stop this phase as an orderly process exit: the operating system keeps its cached writes.
pub fn exit_keep() -> ! {
    crate::vfs::save_image(1);
    sched::finish(OUT_CRASHED, "exit", "")
}
/// Note that a rare condition was reached (evidence only).
pub fn probe(i: usize) {
    stat(ST_PROBE + i, 1);
}
pub fn log(s: &str) {
    logline(s);
}
pub fn in_sim() -> bool {
    sched::sim()
}
/// Deterministic per-plan value stream helper for scenario code.
pub fn yield_now() {
    sched::point(true);
}
pub fn faults(on: bool) {
    crate::vfs::v().faults_on = on;
}

/// Debugging aid: writes straight to the real stderr.
pub fn raw_err(s: &str) {
    unsafe {
        let t = format!("{s}\n");
        crate::raw::sc6(libc::SYS_write, 2, t.as_ptr() as usize, t.len(), 0, 0, 0);
    }
}

use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::disk::*;
use scen::util::*;
use simcore::plan::Fault;
use std::collections::BTreeMap;

fn base(r: &mut Rng, p: &mut Plan) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", r.range(1, 4));
    p.set("io_threads", r.range(1, 4));
    p.set("cache", *r.pick(&[0, 1, 2, 4, 8, 16, 64]));
    p.set("hot", *r.pick(&[0, 10, 30, 50]));
    p.set("warm", *r.pick(&[0, 30, 50]));
    p.set("batch", *r.pick(&[1, 2, 4, 8, 64]));
    p.set("thresh", *r.pick(&[1, 2, 4, 16, 128]));
    p.set("interval", *r.pick(&[0, 1, 5, 100, 1000]));
    p.set("wbuf", *r.pick(&[0, 1, 1, 1]));
    p.set("steal", r.range(0, 1));
    p.set("direct", r.range(0, 1));
    p.set("comp", r.range(0, 1));
    p.set("fsync", *r.pick(&[1, 1, 2, 0, 50]));
    p.set("dur", r.range(0, 3));
}
fn workload(r: &mut Rng, p: &mut Plan) {
    let pages = r.range(1, 10);
    p.set("pages", pages);
    let nc = r.range(1, 4) as u32;
    let n = r.range(4, 40);
    let wbias = r.range(20, 70);
    for _ in 0..n {
        let c = r.below(nc as u64) as u32;
        let pg = r.range(0, pages - 1);
        let k = r.range(0, 99);
        if k < wbias {
            if r.below(8) == 0 {
                let len = r.range(1, (pages - pg).min(4));
                p.op(c, "wb", &[pg, len]);
            } else {
                p.op(c, "w", &[pg]);
            }
        } else if k < 88 {
            if r.below(8) == 0 {
                let len = r.range(1, (pages - pg).min(4));
                p.op(c, "rb", &[pg, len]);
            } else {
                p.op(c, "r", &[pg]);
            }
        } else if k < 95 {
            let m = r.range(0, 2);
            p.op(c, "f", &[m]);
        } else if k < 97 {
            p.op(c, "m", &[*r.pick(&[0, 0, 1, 2, 3, 4])]);
        } else {
            let us = *r.pick(&[10, 1000, 20_000, 150_000]);
            p.op(c, "s", &[us]);
        }
    }
}
fn coherent(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let mut by: BTreeMap<u64, Vec<OpH>> = BTreeMap::new();
    for o in &v {
        if o.kind == K_READ || o.kind == K_WRITE {
            if o.ok() && o.kind == K_READ && o.res[0] == GARBAGE {
                return bad("garbage-read", format!("page {}: read returned bytes that were never written: {o:?}", o.args[0]));
            }
            by.entry(o.args[0]).or_default().push(o.clone());
        }
    }
    let mut nt = false;
    for (pg, h) in &by {
        nt |= overlapping(h) || h.iter().filter(|o| o.kind == K_WRITE).count() > 1;
        match linearizable(&Register { init: ABSENT }, h, 200_000) {
            Ok(true) => {}
            Ok(false) => return bad("stale-read", format!("page {pg}: the reads are not explained by any order of the writes: {}", show(h))),
            Err(()) => return Verdict::Skip,
        }
    }
    Verdict::Ok(nt)
}
pub fn show(h: &[OpH]) -> String {
    h.iter().map(|o| format!("[{}-{} c{} k{} {:?} st{} {:?}]", o.inv, if o.done() { o.ret.to_string() } else { "-".into() }, o.c, o.kind, o.args, o.status, o.res)).collect::<Vec<_>>().join(" ")
}

/// Does a successful flush of this mode promise durability under the run's policy?
fn syncs(p: &Plan, mode: u64) -> bool {
    mode == 1 || p.cfg("fsync") != 0
}
/// After a crash every page holds a version at least as new as the last one a durable flush covered.
fn durable(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    if !res.crashed_somewhere() {
        return Verdict::Ok(false);
    }
    let v = ops(&res.hist);
    let barriers: Vec<&OpH> = v
        .iter()
        .filter(|o| o.ok() && ((o.kind == K_FLUSH && syncs(p, o.args[0])) || o.kind == K_SHUTDOWN))
        .collect();
    let tearing = p.cfg("crash_mode") >= 2 || p.faults.iter().any(|f| f.k == "crash" && f.arg > 1) || p.faults.iter().any(|f| f.k == "short_w");
    let mut seen = 0;
    let mut covered = false;
    for st in res.hist.iter().filter(|r| r.tag == STATE) {
        seen += 1;
        let (pg, s, val) = (st.w[0], st.w[1], st.w[2]);
        let ws: Vec<&OpH> = v.iter().filter(|o| o.kind == K_WRITE && o.args[0] == pg).collect();
        let settled: Vec<&&OpH> = ws.iter().filter(|w| w.ok() && barriers.iter().any(|b| w.ret < b.inv)).collect();
        covered |= !settled.is_empty();
        if s != OK || val == GARBAGE {
            // a page image may only be torn by a write that was not yet covered by a flush
            // (a torn file tail makes the page unreadable under direct I/O)
            let open = ws.iter().any(|w| !settled.iter().any(|x| x.id == w.id));
            if tearing && open {
                continue;
            }
            let cl = if s != OK { "unreadable-after-restart" } else { "garbage-after-crash" };
            return bad(cl, format!("page {pg} is unreadable or holds bytes that were never written to it"));
        }
        if val == ABSENT {
            if let Some(w) = settled.first() {
                return bad("lost-write", format!("page {pg}: write {} was covered by a flush and is gone after the crash", w.args[1]));
            }
            continue;
        }
        let Some(w) = ws.iter().find(|w| w.args[1] == val) else {
            return bad("garbage-after-crash", format!("page {pg} holds value {val} that was never written to it"));
        };
        if let Some(n) = settled.iter().find(|x| w.ret < x.inv) {
            return bad("lost-write", format!("page {pg}: holds {} after the crash although the newer write {} was covered by a flush", w.args[1], n.args[1]));
        }
    }
    if seen == 0 && res.outs.len() > 1 {
        return bad("no-restart", "the storage could not be opened again after the crash".into());
    }
    Verdict::Ok(covered)
}
/// Every operation returned, and none failed without an injected error.
fn live(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let hard = p.faults.iter().any(|f| f.k.starts_with("eio") || f.k == "enospc");
    // reading a page that was never written may report an error (rb_eof)
    for o in ops(&res.hist) {
        if !o.done() {
            return bad("no-return", format!("operation never returned: {o:?}"));
        }
        if !o.ok() && !hard && !(o.kind == K_READ && p.cfg("rb_eof") != 0) {
            return bad("spurious-error", format!("operation failed although no error was injected: {o:?}"));
        }
    }
    Verdict::Ok(p.clients().len() > 1)
}
fn honest(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    for o in ops(&res.hist) {
        if o.c >= 97 && o.c <= 99 && o.done() && !o.ok() {
            return bad("not-recovered", format!("operation fails although the faults have stopped: {o:?}"));
        }
    }
    match coherent(p, res) {
        Verdict::Ok(_) => {}
        x => return x,
    }
    match durable(p, res) {
        Verdict::Ok(_) => Verdict::Ok(true),
        x => x,
    }
}
fn crashes(r: &mut Rng, p: &mut Plan) {
    p.set("crash_mode", *r.pick(&[0, 0, 1, 2, 2, 3]));
    if r.below(5) == 0 {
        p.set("endcrash", 1);
    } else if r.below(5) == 0 {
        p.faults.push(Fault { k: "crash_bb".into(), n: r.range(1000, 300_000) as u64, ..Default::default() });
    } else {
        p.faults.push(Fault { k: "crash".into(), n: r.range(1, 40) as u64, arg: *r.pick(&[0, 1, 20, 60]), file: "t.db".into(), phase: 0 });
    }
}
fn io_faults(r: &mut Rng, p: &mut Plan, hard: bool) {
    let n = r.range(1, 5);
    for _ in 0..n {
        let k = if hard {
            *r.pick(&["eio_r", "eio_w", "eio_s", "enospc", "short_r", "short_w", "eintr", "lat"])
        } else {
            *r.pick(&["short_r", "short_w", "eintr", "lat"])
        };
        let arg = match k {
            "lat" => *r.pick(&[1, 5, 50, 500]),
            "eio_r" | "eio_w" => r.range(1, 3),
            "enospc" => r.range(1, 6),
            "short_r" | "short_w" => r.range(1, 99),
            _ => 0,
        };
        p.faults.push(Fault { k: k.into(), n: r.range(1, 40) as u64, arg, file: "t.db".into(), phase: 0 });
    }
}
const REAL: &str = "AsyncDiskManager, CacheManager and its three tiers, WriteManager, staging buffer, coalescing engine, flush coordinator, durability manager, AsyncIOEngine (queue, workers, executor, completion tracker), work-stealing scheduler, direct I/O helpers, tokio runtime and its blocking pool";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    let assume = vec![
        "a failed fsync leaves the dirty data in the page cache (it is retried by the next fsync)",
        "sector writes of 512 bytes are atomic; larger writes may tear at sector boundaries in the tearing modes",
    ];
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check {
        prop,
        scns,
        findings: vec![],
        rule,
        real: REAL,
        stub: STUB,
        assumptions: assume.clone(),
        probes: &[],
    };
    vec![
        c("D01", "two operations of different clients on one page overlapped, or one page was written more than once", vec![
            Scn { name: "coherence", run: "disk", weight: 1, phases: 1, gen: |r, p, _| { base(r, p); workload(r, p); }, judge: coherent },
        ]),
        c("D02", "at least one page write was covered by a successful flush before the crash", vec![
            Scn { name: "crash", run: "disk", weight: 3, phases: 2, gen: |r, p, _| { base(r, p); workload(r, p); crashes(r, p); }, judge: durable },
            Scn { name: "shutdown", run: "disk", weight: 1, phases: 2, gen: |r, p, _| { base(r, p); workload(r, p); p.set("shutdown", 2); p.set("crash_mode", r.range(0, 3)); }, judge: durable },
        ]),
        c("D03", "an I/O fault was injected", vec![
            Scn { name: "faults", run: "disk", weight: 1, phases: 2, gen: |r, p, _| { base(r, p); workload(r, p); io_faults(r, p, true); p.set("endflush", 1); p.set("endcrash", 1); p.set("crash_mode", 0); }, judge: honest },
        ]),
        c("D04", "more than one client was active", vec![
            Scn { name: "progress", run: "disk", weight: 2, phases: 1, gen: |r, p, _| { base(r, p); workload(r, p); io_faults(r, p, false); p.set("rb_eof", 1); p.set("shutdown", r.range(0, 1)); }, judge: live },
            Scn { name: "progress-errors", run: "disk", weight: 1, phases: 1, gen: |r, p, _| { base(r, p); workload(r, p); io_faults(r, p, true); p.set("rb_eof", 1); p.set("shutdown", r.range(0, 1)); }, judge: live },
        ]),
    ]
}

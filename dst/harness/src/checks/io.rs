use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::io::*;
use scen::util::*;
use simcore::plan::Fault;
use std::collections::{BTreeMap, BTreeSet};

fn gen(r: &mut Rng, p: &mut Plan, hard: bool, cancel: bool, crash: bool) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", r.range(1, 4));
    p.set("workers", r.range(1, 5));
    p.set("direct", r.range(0, 2));
    let pages = r.range(1, 6);
    p.set("pages", pages);
    let nc = r.range(1, 5);
    let n = r.range(5, 45);
    let prio = r.below(2) == 0;
    for _ in 0..n {
        let c = r.below(nc as u64) as u32;
        let s = if r.below(3) == 0 { 1000 + r.range(0, 3) } else { r.range(0, pages - 1) };
        let pr = if prio { r.range(0, 12) } else { 0 };
        match r.range(0, 99) {
            0..=29 => p.op(c, "w", &[s, pr]),
            30..=33 if cancel => {
                let us = *r.pick(&[1, 300, 900, 1500, 4000]);
                p.op(c, "wt", &[s, pr, us])
            }
            30..=57 => p.op(c, "r", &[s, pr]),
            58..=75 => {
                let (len, direct) = (*r.pick(&[8, 24, 100, 512, 5000]), (r.below(3) == 0) as i64);
                p.op(c, "a", &[len, direct])
            }
            76..=80 => {
                let i = r.range(0, 9);
                p.op(c, "b", &[i])
            }
            81..=90 => {
                let k = r.range(0, 2);
                p.op(c, "y", &[k])
            }
            91..=94 if cancel => {
                let k = r.range(0, 1);
                p.op(c, "x", &[k])
            }
            _ => {
                let us = *r.pick(&[1, 200, 1000, 3000]);
                p.op(c, "s", &[us])
            }
        }
    }
    let soft = ["short_r", "short_w", "eintr", "lat"];
    let all = ["eio_r", "eio_w", "eio_s", "enospc", "short_r", "short_w", "eintr", "lat"];
    if hard || r.below(3) == 0 {
        for _ in 0..r.range(1, 5) {
            let k = if hard { *r.pick(&all) } else { *r.pick(&soft) };
            let arg = match k {
                "lat" => *r.pick(&[1, 5, 50, 500]),
                "eio_r" | "eio_w" => r.range(1, 3),
                "enospc" => r.range(1, 6),
                "short_r" | "short_w" => r.range(1, 99),
                _ => 0,
            };
            let file = *r.pick(&["t.db", "t.log"]);
            p.faults.push(Fault { k: k.into(), n: r.range(1, 40) as u64, arg, file: file.into(), phase: 0 });
        }
    }
    if crash {
        p.set("crash_mode", *r.pick(&[0, 0, 1, 2, 2, 3]));
        if r.below(4) == 0 {
            p.set("endcrash", 1);
        } else {
            let file = *r.pick(&["t.db", "t.log"]);
            p.faults.push(Fault { k: "crash".into(), n: r.range(1, 40) as u64, arg: *r.pick(&[0, 1, 20, 60]), file: file.into(), phase: 0 });
        }
    }
}
fn is_hard(p: &Plan) -> bool {
    p.faults.iter().any(|f| f.k.starts_with("eio") || f.k == "enospc")
}
fn engine(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let crashed = res.crashed_somewhere();
    let hard = is_hard(p);
    let cancels: Vec<&OpH> = v.iter().filter(|o| o.kind == O_CANCEL).collect();
    // one outcome each, and an error only for a reason
    let mut failed = 0;
    let mut given_up = 0;
    for o in &v {
        if !o.done() {
            if !crashed {
                return bad("no-return", format!("operation never returned: {o:?}"));
            }
            continue;
        }
        given_up += (o.status == NONE) as u64;
        if o.status == ERR {
            failed += 1;
            if !hard && !cancels.iter().any(|x| x.inv < o.ret && o.inv < x.ret) {
                return bad("spurious-error", format!("an operation failed although nothing was injected and nobody cancelled it: {o:?}"));
            }
            if o.c == 98 {
                return bad("spurious-error", format!("an operation failed after the faults had stopped: {o:?}"));
            }
        }
    }
    if !hard && !crashed {
        let told: u64 = cancels.iter().map(|o| o.res[0]).sum();
        if told < failed || told > failed + given_up {
            return bad("cancel-count", format!("{told} operations were reported cancelled, {failed} operations failed and {given_up} were abandoned"));
        }
    }
    // each page and slot is a register
    let mut by: BTreeMap<u64, Vec<OpH>> = BTreeMap::new();
    for o in v.iter().filter(|o| matches!(o.kind, O_READ | O_WRITE)) {
        if o.ok() && o.kind == O_READ && o.res[0] == GARBAGE {
            let torn = hard && v.iter().any(|w| w.kind == O_WRITE && w.args[0] == o.args[0] && !w.ok() && w.inv < o.ret);
            if torn {
                continue;
            }
            return bad("garbage-read", format!("a read returned bytes that were never written: {o:?}"));
        }
        by.entry(o.args[0]).or_default().push(o.clone());
    }
    let mut nt = false;
    for (s, h) in &by {
        nt |= overlapping(h);
        if hard && h.iter().any(|o| o.kind == O_WRITE && !o.ok()) {
            continue; // a failed write may have changed part of it
        }
        if let Ok(false) = linearizable(&Register { init: ABSENT }, h, 200_000) {
            return bad("stale-read", format!("slot {s}: the reads are not explained by any order of the writes: {}", super::disk::show(h)));
        }
    }
    // appended records: places of their own, in order, intact
    let app: Vec<&OpH> = v.iter().filter(|o| o.kind == O_APPEND && o.ok()).collect();
    for (i, a) in app.iter().enumerate() {
        if a.res[0] < 4 * 4096 {
            return bad("append-place", format!("a record was appended over the existing log: {a:?}"));
        }
        for b in &app[i + 1..] {
            let (x, y) = (a.res[0], b.res[0]);
            if x < y + b.args[0] && y < x + a.args[0] {
                return bad("append-place", format!("two appended records overlap: {a:?} {b:?}"));
            }
            if (a.ret < b.inv && x > y) || (b.ret < a.inv && y > x) {
                return bad("append-order", format!("a record appended later lies before an earlier one: {a:?} {b:?}"));
            }
        }
    }
    if let Some(o) = v.iter().find(|o| o.kind == O_BACK && o.ok() && o.res[0] != 1) {
        return bad("append-lost", format!("an appended record reads back differently: {o:?}"));
    }
    if crashed {
        return after(p, res, &v);
    }
    Verdict::Ok(nt || v.iter().any(|o| o.status == ERR))
}
/// What was written before a successful sync began is there after the crash.
fn after(p: &Plan, res: &Res, v: &[OpH]) -> Verdict {
    let tearing = p.cfg("crash_mode") >= 2 || p.faults.iter().any(|f| f.k == "crash" && f.arg > 1 || f.k == "short_w") || is_hard(p);
    let safe = |o: &OpH, log: bool| o.ok() && v.iter().any(|s| s.kind == O_SYNC && s.ok() && (s.args[0] > 0) == log && o.ret < s.inv);
    let mut nt = false;
    for st in res.hist.iter().filter(|r| r.tag == STATE && r.w[0] == O_READ) {
        let (s, val) = (st.w[1], st.w[2]);
        let ws: Vec<&OpH> = v.iter().filter(|o| o.kind == O_WRITE && o.args[0] == s).collect();
        let settled: Vec<&&OpH> = ws.iter().filter(|w| safe(w, s >= 1000)).collect();
        nt |= !settled.is_empty();
        if val == GARBAGE {
            if tearing && settled.len() < ws.len() {
                continue;
            }
            return bad("garbage-after-crash", format!("slot {s} holds bytes that were never written to it"));
        }
        if val == ABSENT {
            if let Some(w) = settled.first() {
                return bad("lost-write", format!("slot {s}: a synced write is gone after the crash: {w:?}"));
            }
            continue;
        }
        let Some(w) = ws.iter().find(|w| w.args[1] == val) else {
            return bad("garbage-after-crash", format!("slot {s} holds value {val}, never written to it"));
        };
        // (a write that was cancelled or abandoned may take effect late)
        if let Some(n) = settled.iter().find(|x| w.ok() && w.ret < x.inv) {
            return bad("lost-write", format!("slot {s}: holds {w:?} after the crash although the newer write {n:?} was synced"));
        }
    }
    for st in res.hist.iter().filter(|r| r.tag == STATE && r.w[0] == O_BACK) {
        let Some(a) = v.iter().find(|o| o.kind == O_APPEND && o.id == st.w[1]) else { continue };
        if safe(a, true) {
            nt = true;
            if st.w[2] != a.res[0] {
                return bad("lost-append", format!("a synced record is not where it was appended: {a:?}, found at {}", st.w[2] as i64));
            }
        }
    }
    Verdict::Ok(nt)
}
fn gen_track(r: &mut Rng, p: &mut Plan, _: &str) {
    p.set("rt_workers", r.range(1, 3));
    p.set("workers", 1);
    p.set("pages", 1);
    let n = r.range(1, 8);
    let due = *r.pick(&[0, 0, 1, 500, 3000]);
    let delay = |r: &mut Rng| *r.pick(&[0, 0, 0, 1, 500, 1000, 3000]);
    for _ in 0..n {
        let d = if r.below(2) == 0 { due } else { 0 };
        p.op(0, "t", &[d]);
    }
    for t in 0..n {
        for _ in 0..r.range(1, 3) {
            let (us, mode) = (delay(r), *r.pick(&[0, 0, 1, 2]));
            p.op(0, "act", &[us, t, mode]);
        }
        for _ in 0..r.range(0, 3) {
            let us = delay(r);
            p.op(0, "wait", &[us, t]);
        }
    }
    for _ in 0..r.range(0, 2) {
        let us = delay(r);
        let mut v = vec![us];
        v.extend((0..n).filter(|_| r.below(3) > 0));
        if v.len() > 1 {
            p.op(0, "waitall", &v);
        }
    }
    if due > 0 {
        for _ in 0..r.range(1, 3) {
            let us = delay(r);
            p.op(0, "expire", &[us]);
        }
    }
    if r.below(8) == 0 {
        let us = delay(r);
        p.op(0, "storm", &[us, 1300]);
    }
    // the plan lists started operations first; who runs first is up to the scheduler
}
fn tracker(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let mut out: BTreeMap<u64, u64> = BTreeMap::new();
    let mut nt = false;
    for o in v.iter().filter(|o| o.kind == O_OWNER) {
        let acts: Vec<&OpH> = v.iter().filter(|a| a.kind == O_ACT && a.args[0] == o.args[0]).collect();
        let won: Vec<&&OpH> = acts.iter().filter(|a| a.res.first() == Some(&1)).collect();
        nt |= acts.len() > 1;
        let timed = o.res[0] == 300;
        if won.len() + timed as usize != 1 {
            return bad("settled-twice", format!("operation {} was settled {} times (timed out: {timed})", o.args[0], won.len()));
        }
        // cancelling closes the owner's channel, without saying who did it
        let want = won.first().map(|a| [100, 200, 400][a.args[2] as usize] + if a.args[2] < 2 { a.args[1] } else { 0 });
        if let Some(w) = want {
            if o.res[0] != w {
                return bad("wrong-outcome", format!("operation {} was settled by {:?} and its owner was told {}", o.args[0], won[0], o.res[0]));
            }
        }
        out.insert(o.args[0], won.first().map(|a| [100, 200, 400][a.args[2] as usize] + a.args[1]).unwrap_or(300));
    }
    if v.iter().any(|o| (o.kind == O_WAIT || o.kind == O_WAITALL) && o.args.iter().take(if o.kind == O_WAIT { 1 } else { 99 }).any(|x| !out.contains_key(x))) {
        return Verdict::Skip; // not a plan that was generated
    }
    for o in v.iter().filter(|o| o.kind == O_WAIT) {
        if o.res[0] != out[&o.args[0]] {
            return bad("waiter", format!("operation {} ended as {} and a waiter was told {}", o.args[0], out[&o.args[0]], o.res[0]));
        }
    }
    for o in v.iter().filter(|o| o.kind == O_WAITALL) {
        if !o.ok() {
            return bad("waiter", format!("a waiter for several operations was told {:?}", o.res));
        }
        let got: BTreeMap<u64, u64> = o.res.chunks(2).map(|x| (x[0], x[1])).collect();
        let want: BTreeMap<u64, u64> = o.args.iter().map(|x| (*x, out[x])).collect();
        if got != want || o.res.len() / 2 != o.args.iter().collect::<BTreeSet<_>>().len() {
            return bad("waiter", format!("a waiter for several operations was told {got:?} instead of {want:?}"));
        }
    }
    let told: u64 = v.iter().filter(|o| o.kind == O_EXPIRE).map(|o| o.res[0]).sum();
    let timed = out.values().filter(|x| **x == 300).count() as u64;
    // (the tracker's own housekeeping may time an operation out as well)
    if told > timed {
        return bad("timeout-count", format!("{told} operations were reported timed out, {timed} were"));
    }
    if res.hist.iter().any(|r| r.tag == STATE && r.w[0] == O_OWNER && r.w[1] != 0) {
        return bad("left-pending", "an operation is pending after every owner has its outcome".into());
    }
    let _ = p;
    Verdict::Ok(nt)
}
const REAL: &str = "AsyncIOEngine, its priority queue, workers, executor and completion tracker, direct I/O helpers, tokio runtime and its blocking pool";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    fn plain(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, false, false, false);
    }
    fn cancel(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, false, true, false);
    }
    fn faults(r: &mut Rng, p: &mut Plan, _: &str) {
        let c = r.below(2) == 0;
        gen(r, p, true, c, false);
    }
    fn crash(r: &mut Rng, p: &mut Plan, _: &str) {
        let c = r.below(4) == 0;
        gen(r, p, false, c, true);
    }
    let s = |name: &'static str, run: &'static str, weight: u32, phases: u32, gen: fn(&mut Rng, &mut Plan, &str), judge: fn(&Plan, &Res) -> Verdict| Scn { name, run, weight, phases, gen, judge };
    let assume = vec!["sector writes of 512 bytes are atomic; larger writes may tear at sector boundaries in the tearing modes", "no operation waits 30 s for its turn, after which the engine may give it up"];
    vec![Check {
        prop: "O01",
        rule: "operations on one place overlapped or one failed, synced data was examined after a crash, or several parties raced to settle one operation",
        scns: vec![s("io-plain", "io", 2, 1, plain, engine), s("io-cancel", "io", 2, 1, cancel, engine), s("io-faults", "io", 2, 1, faults, engine), s("io-crash", "io", 2, 2, crash, engine), s("tracker", "iotrack", 3, 1, gen_track, tracker)],
        findings: vec![],
        real: REAL,
        stub: STUB,
        assumptions: assume,
        probes: &[],
    }]
}

use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::util::*;
use scen::wal::*;
use simcore::plan::Fault;
use std::collections::{BTreeMap, HashMap, HashSet};

fn base(r: &mut Rng, p: &mut Plan) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", r.range(2, 4));
    p.set("io_threads", r.range(1, 2));
    p.set("cache", *r.pick(&[0, 2, 16]));
    p.set("direct", r.range(0, 1));
    p.set("fsync", *r.pick(&[1, 1, 2, 50]));
    p.set("dur", r.range(0, 3));
    p.set("frames", r.range(2, 6));
}
/// Transactions of `nc` clients of phase `ph`, interleaved.
fn txns(r: &mut Rng, p: &mut Plan, ph: u32, max: i64) {
    let nc = r.range(1, 4) as u32;
    let n = r.range(3, max);
    let mut cur = vec![(0i64, 0u32); 4];
    let small = r.below(3) == 0;
    for _ in 0..n {
        let ci = r.below(nc as u64) as usize;
        let c = ph * 10 + ci as u32;
        let (t, st) = cur[ci];
        if st == 0 {
            p.op(c, "b", &[t]);
            cur[ci].1 = 1;
            continue;
        }
        let size = if small { r.range(0, 30) } else { *r.pick(&[0, 3, 60, 118, 200, 500, 1500]) };
        let pg = r.range(0, 3);
        match r.range(0, 99) {
            0..=24 => p.op(c, "i", &[t, size, pg]),
            25..=39 => p.op(c, "u", &[t, size, pg]),
            40..=49 => p.op(c, "d", &[t, size, pg]),
            50..=52 => p.op(c, "n", &[t]),
            53..=77 => {
                p.op(c, "c", &[t]);
                cur[ci] = (t + 1, 0);
            }
            78..=83 => {
                p.op(c, "a", &[t]);
                cur[ci] = (t + 1, 0);
            }
            84..=91 => p.op(c, "p", &[]),
            _ => {
                let us = *r.pick(&[10, 900, 5_000, 30_000]);
                p.op(c, "s", &[us]);
            }
        }
    }
}
fn crash_log(r: &mut Rng, p: &mut Plan, phase: u32) {
    if r.below(3) == 0 {
        p.faults.push(Fault { k: "crash_bb".into(), n: r.range(500, 60_000) as u64, phase, ..Default::default() });
    } else {
        p.faults.push(Fault { k: "crash".into(), n: r.range(1, 30) as u64, arg: *r.pick(&[0, 1, 20, 60]), file: "t.log".into(), phase });
    }
}
fn log_faults(r: &mut Rng, p: &mut Plan, hard: bool) {
    for _ in 0..r.range(1, 3) {
        let k = if hard { *r.pick(&["eio_w", "eio_s", "eio_s", "enospc", "short_w", "eintr", "lat"]) } else { *r.pick(&["short_w", "short_r", "eintr", "lat"]) };
        let arg = match k {
            "lat" => *r.pick(&[1_000_000, 20_000_000]),
            "eio_w" => r.range(1, 2),
            "enospc" => r.range(1, 6),
            "short_w" | "short_r" => r.range(1, 99),
            _ => 0,
        };
        p.faults.push(Fault { k: k.into(), n: r.range(1, 20) as u64, arg, file: "t.log".into(), phase: 0 });
    }
}
struct App {
    o: OpH,
    ph: u64,
    key: (u64, u64, u64, u64), // type txn prev fp
}
impl App {
    fn lsn(&self) -> Option<u64> {
        if self.o.ok() { Some(self.o.res[0]) } else { None }
    }
}
struct H {
    apps: Vec<App>,
    ops: Vec<OpH>,
    reads: BTreeMap<u64, (u64, Vec<[u64; 5]>, bool)>, // phase*10(+5) -> (seq, records(lsn,key), complete)
}
fn parse(res: &Res) -> H {
    let v = ops(&res.hist);
    let apps = v.iter().filter(|o| o.kind == K_APP).map(|o| App { o: o.clone(), ph: o.c / 10, key: (o.args[0], o.args[1], o.args[2], o.args[3]) }).collect();
    let mut reads: BTreeMap<u64, (u64, Vec<[u64; 5]>, bool)> = BTreeMap::new();
    for r in &res.hist {
        if r.tag == STATE {
            reads.entry(r.w[0]).or_insert((r.seq, vec![], false)).1.push([r.w[2], r.w[3], r.w[4], r.w[5], r.w[6]]);
        } else if r.tag == NOTE && r.w[0] == 10 {
            reads.entry(r.w[1]).or_insert((r.seq, vec![], false)).2 = true;
        }
    }
    H { apps, ops: v, reads }
}
impl H {
    /// Whether recovery may have written this record, which ends the transaction whose last record precedes it.
    fn rollback(&self, r: &[u64; 5], rs: &[[u64; 5]], seq: u64) -> bool {
        let last = rs.iter().take_while(|x| *x != r).filter(|x| x[2] == r[2]).last();
        let plain = self.apps.iter().find(|a| a.key.0 == T_BEGIN).map(|a| a.key.3);
        self.ops.iter().any(|o| o.kind == K_RECOVER && o.inv < seq)
            && r[1] == T_ABORT
            && plain.is_none_or(|f| f == r[4])
            && last.is_some_and(|x| x[0] == r[3] && x[1] != T_COMMIT)
    }
}
fn key(r: &[u64; 5]) -> (u64, u64, u64, u64) {
    (r[1], r[2], r[3], r[4])
}
/// Every record delivered was appended, at the position it was given, and none is delivered twice.
fn genuine(h: &H) -> Option<Verdict> {
    for (g, (seq, rs, _)) in &h.reads {
        let mut seen = HashSet::new();
        for r in rs {
            let m: Vec<&App> = h.apps.iter().filter(|a| a.key == key(r) && a.o.inv < *seq && a.lsn().is_none_or(|l| l == r[0])).collect();
            if m.is_empty() && !h.rollback(r, rs, *seq) {
                return Some(bad("phantom-record", format!("read {g}: delivers {r:?}, which was never appended")));
            }
            if !seen.insert(*r) {
                return Some(bad("repeated-record", format!("read {g}: delivers {r:?} twice")));
            }
        }
        if rs.len() > 2000 {
            return Some(bad("endless-log", format!("read {g} does not end")));
        }
    }
    None
}
fn has(rs: &[[u64; 5]], a: &App) -> bool {
    rs.iter().any(|r| key(r) == a.key && a.lsn().is_none_or(|l| l == r[0]))
}
fn durable(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = parse(res);
    if p.cfg("fsync") == 0 {
        return Verdict::Ok(false);
    }
    let mut nt = false;
    // of an earlier phase only what its crash left behind is owed
    let kept = |a: &App, ph: u64| a.ph == ph || h.reads.get(&(ph * 10)).is_some_and(|r| has(&r.1, a));
    for (g, (seq, rs, full)) in &h.reads {
        if !full {
            continue;
        }
        // what was promised before this point
        for c in h.apps.iter().filter(|a| a.key.0 == T_COMMIT && a.o.ok() && a.o.ret < *seq) {
            nt = true;
            if !has(rs, c) {
                return bad("lost-commit", format!("read {g}: the acknowledged commit {:?} is not in the log", c.o));
            }
            if let Some(a) = h.apps.iter().find(|a| a.o.ok() && a.o.ret < c.o.inv && kept(a, c.ph) && !has(rs, a)) {
                return bad("lost-record", format!("read {g}: {:?} was appended before the acknowledged commit {:?} and is not in the log", a.o, c.o));
            }
        }
        for o in h.ops.iter().filter(|o| (o.kind == K_PERSIST || (o.kind == K_CLOSE)) && o.ok() && o.ret < *seq && o.res[0] != INVALID) {
            let ph = if o.kind == K_CLOSE { o.id & 0xff } else { o.c / 10 };
            if let Some(a) = h.apps.iter().find(|a| a.ph == ph && a.o.ok() && a.o.ret < o.inv && a.o.res[0] <= o.res[0] && !has(rs, a)) {
                return bad("persistent-ahead", format!("read {g}: position {} was reported persistent but {:?} is not in the log", o.res[0], a.o));
            }
        }
    }
    Verdict::Ok(nt && (res.crashed_somewhere() || p.faults.len() > 0))
}
fn prefix(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = parse(res);
    if let Some(v) = genuine(&h) {
        return v;
    }
    let mut nt = false;
    let mut prev: Option<(&u64, &Vec<[u64; 5]>)> = None;
    for (g, (_, rs, full)) in &h.reads {
        nt |= !rs.is_empty() && *g >= 10;
        for ph in 0..3u64 {
            // recovery ends a transaction with the very record that its client may have lost
            let old = |r: &[u64; 5]| g / 10 <= ph || h.reads.get(&(ph * 10 + 10)).is_none_or(|x| x.1.contains(r));
            let of = |r: &[u64; 5]| old(r) && h.apps.iter().any(|a| a.ph == ph && a.key == key(r));
            let max = rs.iter().filter(|r| of(r)).map(|r| r[0]).max();
            if let Some(m) = max {
                if let Some(a) = h.apps.iter().find(|a| a.ph == ph && a.lsn().is_some_and(|l| l < m) && !has(rs, a)) {
                    return bad("gap", format!("read {g}: a record at position {m} is delivered but the earlier {:?} is not", a.o));
                }
            }
        }
        if let Some((pg, prs)) = prev {
            // what one reading delivered stays readable (it came from the disk, or was closed cleanly)
            if *full && g / 10 > pg / 10 && pg % 10 == 0 {
                if let Some(r) = prs.iter().find(|r| !rs.contains(r)) {
                    return bad("vanished-record", format!("{r:?} was read in {pg} but no longer in {g}"));
                }
            }
        }
        prev = Some((g, rs));
    }
    if res.outs.len() > 1 && !h.reads.values().any(|r| r.2) {
        return bad("no-restart", "the log could not be read after the crash".into());
    }
    Verdict::Ok(nt)
}
fn order(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = parse(res);
    let rec = p.cfg("recover") != 0;
    let hard = p.faults.iter().any(|f| f.k.starts_with("eio") || f.k == "enospc");
    let mut by: HashMap<u64, &App> = HashMap::new();
    // the position of a record that a crash took with it may be given out again
    let gone = |a: &App, ph: u64| (a.ph + 1..=ph).any(|k| h.reads.get(&(k * 10)).is_none_or(|r| !has(&r.1, a)));
    for a in &h.apps {
        if a.o.done() && !a.o.ok() && !hard {
            return bad("spurious-error", format!("append fails although no error was injected: {:?}", a.o));
        }
        if let Some(l) = a.lsn() {
            if let Some(b) = by.get(&l) {
                if (rec && !gone(b, a.ph)) || a.ph == b.ph {
                    return bad("duplicate-position", format!("position {l} was given to {:?} and to {:?}", b.o, a.o));
                }
            }
            by.insert(l, a);
        }
    }
    for a in &h.apps {
        for b in &h.apps {
            if a.o.ok() && b.o.ok() && a.o.ret < b.o.inv && ((rec && !gone(a, b.ph)) || a.ph == b.ph) && a.lsn() >= b.lsn() {
                return bad("position-order", format!("{:?} was appended after {:?} but its position is not greater", b.o, a.o));
            }
        }
    }
    if let Some(v) = genuine(&h) {
        return v;
    }
    for (g, (_, rs, _)) in &h.reads {
        for w in rs.windows(2) {
            if (rec || *g < 10) && w[0][0] >= w[1][0] {
                return bad("log-order", format!("read {g}: position {} is followed by {}", w[0][0], w[1][0]));
            }
        }
    }
    // after an orderly close without errors the log holds everything
    if !hard {
        for (g, (seq, rs, full)) in &h.reads {
            if g % 10 == 5 && *full {
                if let Some(a) = h.apps.iter().find(|a| a.ph == g / 10 && a.o.ok() && a.o.ret < *seq && !has(rs, a)) {
                    return bad("missing-record", format!("read {g}: after closing the log {:?} is not in it", a.o));
                }
            }
        }
    }
    Verdict::Ok(p.clients().len() > 1)
}
const REAL: &str = "LogManager and its flush task, WALManager, LogRecord encoding, LogIterator, LogRecoveryManager with a small buffer pool, AsyncDiskManager and its I/O engine, tokio runtime and blocking pool";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    let assume = vec![
        "a log file loses a suffix of its unsynced writes in a crash, cut at any byte; the lost part is absent, not zero-filled",
        "durability is promised only under a policy other than FsyncPolicy::Never",
    ];
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: assume.clone(), probes: &[] };
    fn gen(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        if r.below(4) == 0 {
            // clients on the runtime's own workers; each blocked one needs a thread of the blocking pool
            p.set("tasks", 1);
            p.set("rt_blocking", 16);
        }
        p.set("crash_mode", *r.pick(&[0, 1, 2, 2, 2]));
        txns(r, p, 0, 40);
    }
    fn crash2(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        p.set("phases", 2);
        if r.below(4) == 0 { p.set("endcrash", 1) } else { crash_log(r, p, 0) }
    }
    fn crash3(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        txns(r, p, 1, 20);
        p.set("phases", 3);
        p.set("recover", 1);
        match r.below(4) {
            0 => p.set("endcrash", 1),
            1 => {}
            _ => crash_log(r, p, 0),
        }
        if r.below(2) == 0 { crash_log(r, p, 1) }
        if r.below(4) == 0 {
            // the log cannot be read for a moment during recovery
            p.faults.push(Fault { k: "eio_r".into(), n: r.range(0, 60) as u64, arg: r.range(1, 2), file: "t.log".into(), phase: 1 });
        }
    }
    fn clean(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        p.set("phases", 2);
        if r.below(2) == 0 { log_faults(r, p, false) }
    }
    fn errors(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        p.set("phases", 2);
        p.set("endcrash", 1);
        p.set("close", r.range(0, 1));
        log_faults(r, p, true)
    }
    vec![
        c("W01", "a commit was acknowledged before the crash or the fault", vec![
            Scn { name: "crash", run: "wal", weight: 3, phases: 2, gen: |r, p, _| crash2(r, p), judge: durable },
            Scn { name: "reuse", run: "wal", weight: 2, phases: 3, gen: |r, p, _| crash3(r, p), judge: durable },
            Scn { name: "errors", run: "wal", weight: 2, phases: 2, gen: |r, p, _| errors(r, p), judge: durable },
        ]),
        c("W02", "more than one client appended", vec![
            Scn { name: "clean", run: "wal", weight: 3, phases: 2, gen: |r, p, _| clean(r, p), judge: order },
            Scn { name: "reuse", run: "wal", weight: 2, phases: 3, gen: |r, p, _| crash3(r, p), judge: order },
        ]),
        c("W03", "a log that was cut by a crash was read", vec![
            Scn { name: "torn", run: "wal", weight: 3, phases: 2, gen: |r, p, _| crash2(r, p), judge: prefix },
            Scn { name: "reuse", run: "wal", weight: 3, phases: 3, gen: |r, p, _| crash3(r, p), judge: prefix },
            Scn { name: "errors", run: "wal", weight: 1, phases: 2, gen: |r, p, _| errors(r, p), judge: prefix },
        ]),
    ]
}

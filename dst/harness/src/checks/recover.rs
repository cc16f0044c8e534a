use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::recover::*;
use scen::util::*;
use simcore::plan::Fault;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

fn base(r: &mut Rng, p: &mut Plan) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", 16);
    p.set("io_threads", r.range(1, 3));
    p.set("cache", *r.pick(&[0, 2, 16]));
    p.set("direct", r.range(0, 1));
    p.set("fsync", *r.pick(&[1, 1, 2, 50]));
    p.set("dur", r.range(0, 3));
    p.set("batch", *r.pick(&[1, 4, 8]));
    p.set("interval", *r.pick(&[1, 100, 1000]));
    p.set("wbuf", *r.pick(&[0, 1, 1]));
    p.set("thresh", *r.pick(&[1, 2, 16]));
    p.set("frames", r.range(5, 8));
    p.set("pages", r.range(1, 3));
    p.set("cap", *r.pick(&[20, 100, 200, 700, 1500]));
    p.set("tasks", (r.below(4) == 0) as i64);
    p.set("reuse", r.range(0, 1));
    p.set("flushfirst", r.range(0, 1));
    p.set("again", (r.below(3) == 0) as i64);
    p.set("crash_mode", *r.pick(&[0, 1, 5, 5, 5]));
}
fn txns(r: &mut Rng, p: &mut Plan, ph: u32, max: i64) {
    let nc = r.range(1, 3);
    let n = r.range(4, max);
    let cap = p.cfg("cap");
    let mut cur = [(0i64, 0u32); 3];
    let fl = *r.pick(&[2, 8, 20]);
    for _ in 0..n {
        let ci = r.below(nc as u64) as usize;
        let c = ph * 10 + ci as u32;
        let (t, st) = cur[ci];
        if st == 0 {
            p.op(c, "b", &[t]);
            cur[ci].1 = 1;
            continue;
        }
        let size = if r.below(3) == 0 { cap } else { r.range(0, cap) };
        match r.range(0, 99 + fl) {
            0..=29 => {
                let pg = r.range(0, 3);
                p.op(c, "i", &[pg, size])
            }
            30..=54 => {
                let k = r.range(0, 9);
                p.op(c, "u", &[k, size])
            }
            55..=66 => {
                let (k, w) = (r.range(0, 9), r.range(0, 1));
                p.op(c, "d", &[k, w])
            }
            67..=68 => {
                let l = r.range(0, 1);
                p.op(c, "n", &[l])
            }
            69..=84 => {
                p.op(c, "c", &[]);
                cur[ci] = (t + 1, 0);
            }
            85..=94 => {
                let clr = (r.below(4) == 0) as i64;
                p.op(c, "a", &[clr]);
                cur[ci] = (t + 1, 0);
            }
            95..=99 => {
                let us = *r.pick(&[10, 900, 5_000, 30_000]);
                p.op(c, "s", &[us]);
            }
            _ => {
                let (m, k) = (r.range(0, 3), r.range(0, 3));
                p.op(c, "f", &[m, k])
            }
        }
    }
}
fn crash(r: &mut Rng, p: &mut Plan, phase: u32, recovering: bool) {
    let bb = if recovering { r.range(200, 120_000) } else { r.range(2_000, 400_000) };
    match r.below(5) {
        0 | 1 => p.faults.push(Fault { k: "crash_bb".into(), n: bb as u64, phase, ..Default::default() }),
        2 => p.faults.push(Fault { k: "crash".into(), n: r.range(1, 40) as u64, arg: *r.pick(&[0, 1, 20, 60]), file: "t.log".into(), phase }),
        3 => p.faults.push(Fault { k: "crash".into(), n: r.range(1, 30) as u64, file: "t.db".into(), phase, ..Default::default() }),
        _ => {}
    }
}
fn judge(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let mut logs: BTreeMap<u64, (bool, Vec<[u64; 3]>)> = BTreeMap::new(); // life -> lsn, type, txn
    let mut rows: BTreeMap<(u64, u64), (bool, u64, BTreeMap<u64, [u64; 3]>)> = BTreeMap::new(); // life, attempt -> rid -> fp, deleted, committed
    for r in &res.hist {
        match (r.tag, r.w[0]) {
            (STATE, S_LOG) => logs.entry(r.w[1]).or_default().1.push([r.w[2], r.w[3], r.w[4]]),
            (NOTE, N_LOG) => logs.entry(r.w[1]).or_default().0 = true,
            (STATE, S_ROW) => drop(rows.entry((r.w[1], r.w[2])).or_default().2.insert(r.w[3], [r.w[4], r.w[5], r.w[6]])),
            (NOTE, N_ROWS) => {
                let e = rows.entry((r.w[1], r.w[2])).or_default();
                e.0 = true;
                e.1 = r.seq;
            }
            _ => {}
        }
    }
    logs.retain(|_, x| x.0);
    rows.retain(|_, x| x.0);
    // the commits whose record survived, and the life they belong to
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut committed: HashSet<(u64, u64)> = HashSet::new(); // life, txn
    let mut known: BTreeMap<u64, HashSet<(u64, u64)>> = BTreeMap::new();
    for (life, (_, log)) in &logs {
        for [lsn, ty, txn] in log {
            if *ty == scen::wal::T_COMMIT && seen.insert((*lsn, *txn)) {
                let l = v.iter().filter(|o| o.kind == R_COMMIT && o.args[0] == *txn && o.args[1] < *life).map(|o| o.args[1]).max();
                match l {
                    Some(l) => drop(committed.insert((l, *txn))),
                    None => return bad("phantom-commit", format!("the log read in life {life} holds a commit of transaction {txn}, which never asked for it")),
                }
            }
        }
        known.insert(*life, committed.clone());
        if p.cfg("fsync") != 0 {
            if let Some(o) = v.iter().find(|o| o.kind == R_COMMIT && o.ok() && o.args[1] < *life && !committed.contains(&(o.args[1], o.args[0]))) {
                return bad("lost-commit", format!("life {life}: the acknowledged commit {o:?} is not in the log"));
            }
        }
    }
    for o in v.iter().filter(|o| o.kind == R_REC && o.done() && !o.ok()) {
        if !p.faults.iter().any(|f| f.phase as u64 == o.args[0] && f.k.starts_with("eio")) {
            return bad("recovery-fails", format!("recovery {o:?} fails although no error was injected"));
        }
    }
    let mut nt = false;
    for ((life, attempt), (_, _, got)) in &rows {
        let com = &known[life];
        let mut want: HashMap<u64, (u64, bool)> = HashMap::new();
        let mut touched: BTreeSet<u64> = BTreeSet::new();
        for o in v.iter().filter(|o| o.kind == R_CH && o.args[1] < *life) {
            touched.insert(o.args[3]);
            nt |= !com.contains(&(o.args[1], o.args[0]));
            if com.contains(&(o.args[1], o.args[0])) {
                want.insert(o.args[3], (o.args[4], o.args[5] != 0));
            }
        }
        let at = |w: u64| format!("row {}/{} after recovery {attempt} of life {life}", w >> 20, w & 0xfffff);
        for (w, (f, del)) in &want {
            match got.get(w) {
                None if *del => {}
                None => return bad("lost-row", format!("{}: committed but absent", at(*w))),
                Some([_, d, _]) if (*d != 0) != *del => {
                    return bad(if *del { "undeleted-row" } else { "deleted-row" }, format!("{}: deleted is {d}, the last committed version says {del}", at(*w)))
                }
                Some([g, _, c]) if !*del => {
                    if g != f {
                        return bad("wrong-row", format!("{}: content {g:x}, the last committed version has {f:x}", at(*w)));
                    }
                    if *c == 0 {
                        return bad("invisible-row", format!("{}: its version counts as uncommitted", at(*w)));
                    }
                }
                _ => {}
            }
        }
        for (w, [f, d, _]) in got {
            if *d == 0 && !want.contains_key(w) {
                return bad("uncommitted-row", format!("{}: holds {f:x}, but no committed transaction {}", at(*w), if touched.contains(w) { "made it" } else { "ever used this slot" }));
            }
        }
    }
    Verdict::Ok(nt && !rows.is_empty())
}
const REAL: &str = "LogRecoveryManager, LogManager and its flush task, WALManager, LogIterator, TablePage, BufferPoolManager (few frames, evicting), AsyncDiskManager and its I/O engine, tokio";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling; the executor: a client logs each change before making it";
pub fn checks() -> Vec<Check> {
    let assume = vec![
        "a page write is atomic in a crash (there are neither page checksums nor full-page log images)",
        "a page id is logged or reached by a logged row before rows of it are committed; a row belongs to one transaction at a time (strict two-phase locking)",
        "the log loses a suffix of its unsynced bytes in a crash",
    ];
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: assume.clone(), probes: &[] };
    fn single(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        p.set("phases", 2);
        txns(r, p, 0, 60);
        p.set("close", (r.below(6) == 0) as i64);
        crash(r, p, 0, false);
    }
    fn errors(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        p.set("phases", 3);
        txns(r, p, 0, 40);
        crash(r, p, 0, false);
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&["eio_r", "eio_r", "short_r", "lat", "eintr"]);
            let file = *r.pick(&["t.log", "t.db"]);
            p.faults.push(Fault { k: k.into(), n: r.range(0, 40) as u64, arg: r.range(1, 3), file: file.into(), phase: 1 });
        }
    }
    fn again(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        let n = r.range(3, 4);
        p.set("phases", n);
        txns(r, p, 0, 40);
        crash(r, p, 0, false);
        for ph in 1..n as u32 - 1 {
            match r.below(3) {
                0 => crash(r, p, ph, true),
                1 => {
                    txns(r, p, ph, 25);
                    crash(r, p, ph, false);
                }
                _ => txns(r, p, ph, 25),
            }
        }
    }
    vec![
        c("R01", "a transaction without a surviving commit had changed rows before a recovery", vec![
            Scn { name: "crash", run: "recover", weight: 4, phases: 2, gen: |r, p, _| single(r, p), judge },
            Scn { name: "errors", run: "recover", weight: 1, phases: 3, gen: |r, p, _| errors(r, p), judge },
        ]),
        c("R02", "a transaction without a surviving commit had changed rows before a recovery", vec![
            Scn { name: "again", run: "recover", weight: 1, phases: 4, gen: |r, p, _| again(r, p), judge },
        ]),
    ]
}

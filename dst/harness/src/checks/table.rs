use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::table::*;
use scen::util::*;
use std::collections::{BTreeMap, BTreeSet};

fn base(r: &mut Rng, p: &mut Plan) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", 16);
    p.set("io_threads", r.range(1, 3));
    p.set("cache", *r.pick(&[0, 1, 2, 16]));
    p.set("hot", *r.pick(&[0, 10, 50]));
    p.set("warm", *r.pick(&[0, 30, 50]));
    p.set("batch", *r.pick(&[1, 4, 8]));
    p.set("thresh", *r.pick(&[1, 2, 16]));
    p.set("interval", *r.pick(&[1, 100, 1000]));
    p.set("wbuf", *r.pick(&[0, 1, 1]));
    p.set("comp", r.range(0, 1));
    p.set("dur", r.range(0, 3));
    p.set("tasks", r.range(0, 1));
    p.set("crash_mode", *r.pick(&[0, 2, 3]));
}
fn size(r: &mut Rng, style: u64) -> i64 {
    match style {
        0 => r.range(0, 40),
        1 => *r.pick(&[1, 100, 300, 301, 302, 600]),
        2 => *r.pick(&[0, 10, 900, 1300, 1900, 3400, 3480, 3500, 3600, 4000]),
        _ => r.range(0, 500),
    }
}
fn page_ops(r: &mut Rng, p: &mut Plan, ph: u32, n: i64, nc: u64) {
    let pages = p.cfg("pages");
    let style = r.below(4);
    let slots = *r.pick(&[2, 6, 12, 40]);
    for _ in 0..n {
        let c = ph * 10 + r.below(nc) as u32;
        let pg = r.range(0, pages - 1);
        let slot = r.range(0, slots);
        let del = (r.below(5) == 0) as i64;
        let sz = size(r, style);
        match r.range(0, 99) {
            0..=34 => {
                let w = r.range(0, 1);
                p.op(c, "i", &[pg, sz, w, 0])
            }
            35..=54 => p.op(c, "u", &[pg, slot, sz, del]),
            55..=64 => p.op(c, "m", &[pg, slot, r.range(0, 1)]),
            65..=84 => {
                let d = r.range(0, 1);
                p.op(c, "g", &[pg, slot, d])
            }
            85..=87 => {
                let x = r.range(0, 1000);
                p.op(c, "l", &[pg, x])
            }
            88..=94 => p.op(c, "a", &[pg]),
            95..=97 => {
                let m = r.range(0, 3);
                p.op(c, "f", &[m, pg])
            }
            _ => {
                let us = *r.pick(&[10, 500, 3000]);
                p.op(c, "s", &[us])
            }
        }
    }
}
fn heap_ops(r: &mut Rng, p: &mut Plan, ph: u32, n: i64, nc: u64) {
    let heaps = p.cfg("heaps");
    let style = r.below(4);
    // plan operations that insert, of this and earlier phases
    let mut ins: Vec<i64> = p.ops.iter().enumerate().filter(|(_, o)| o.k == "hi").map(|(i, _)| i as i64).collect();
    for _ in 0..n {
        let c = ph * 10 + r.below(nc) as u32;
        let tb = r.range(0, heaps - 1);
        let sz = size(r, style);
        let k = if ins.is_empty() { 0 } else { r.range(0, 99) };
        let t = if ins.is_empty() { 0 } else { *r.pick(&ins) };
        match k {
            0..=44 => {
                ins.push(p.ops.len() as i64);
                p.op(c, "hi", &[tb, sz]);
            }
            45..=59 => p.op(c, "hu", &[t, sz]),
            60..=67 => p.op(c, "hd", &[t]),
            68..=81 => p.op(c, "hg", &[t]),
            82..=93 => p.op(c, "hs", &[tb]),
            94..=96 => {
                let m = r.range(1, 3);
                p.op(c, "f", &[m, 1])
            }
            _ => {
                let us = *r.pick(&[10, 500, 3000]);
                p.op(c, "s", &[us])
            }
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct Pg {
    rows: Vec<(u64, u64, bool, u64)>, // tuple, meta, deleted, bytes
    next: u64,
    used: u64, // most bytes ever taken from the page
}
struct PageModel;
impl PageModel {
    fn ample(s: &Pg, bytes: u64) -> bool {
        bytes < 3400 && s.used + bytes + 40 * (s.rows.len() as u64 + 1) + 60 < 4096
    }
}
impl Model for PageModel {
    type S = Pg;
    fn init(&self) -> Pg {
        Pg { rows: vec![], next: u64::MAX, used: 0 }
    }
    fn step(&self, s: &Pg, o: &OpH) -> Option<Pg> {
        let a = &o.args;
        if o.done() && o.status == NOFRAME {
            return Some(s.clone());
        }
        let mut n = s.clone();
        let ok = o.ok();
        match o.kind {
            P_INS => {
                if ok {
                    if o.res[0] != s.rows.len() as u64 || a[4] > 4096 {
                        return None;
                    }
                    n.rows.push((a[1], a[2], a[3] != 0, a[4]));
                    n.used += a[4];
                } else if Self::ample(s, a[4]) {
                    return None;
                }
            }
            P_UPD => {
                let i = a[1] as usize;
                if ok {
                    let r = s.rows.get(i)?;
                    if a[5] > r.3 {
                        n.used += a[5];
                    }
                    n.rows[i] = (a[2], a[3], a[4] != 0, a[5]);
                } else if i < s.rows.len() && (a[5] <= s.rows[i].3 || Self::ample(s, a[5])) {
                    return None;
                }
            }
            P_META => {
                let i = a[1] as usize;
                if ok != (i < s.rows.len()) {
                    return None;
                }
                if ok {
                    n.rows[i].1 = a[2];
                    n.rows[i].2 = a[3] != 0;
                }
            }
            P_GET => {
                let want = s.rows.get(a[1] as usize).filter(|r| a[2] != 0 || !r.2);
                match (want, ok) {
                    (Some(r), true) if o.res[0] == r.0 && o.res[1] == r.1 => {}
                    (None, false) => {}
                    _ => return None,
                }
            }
            P_LINK => n.next = a[1],
            P_ALL => {
                let d = s.rows.iter().filter(|r| r.2).count() as u64;
                let h = all_hash(s.rows.iter().map(|r| (r.0, r.1)));
                if o.res[..] != [s.rows.len() as u64, d, s.next, h] {
                    return None;
                }
            }
            _ => {}
        }
        Some(n)
    }
    fn optional(&self, o: &OpH) -> bool {
        !o.done()
    }
    fn unbounded(&self, o: &OpH) -> bool {
        !o.done()
    }
}
fn pages(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let mut nt = false;
    if let Some(o) = v.iter().find(|o| (P_INS..=P_ALL).contains(&o.kind) && o.done() && o.status == NOFRAME) {
        return bad("unreadable", format!("the page could not be fetched although there are frames to spare and no error was injected: {o:?}"));
    }
    for pg in 0..p.cfg("pages") as u64 {
        let h: Vec<OpH> = v.iter().filter(|o| (P_INS..=P_ALL).contains(&o.kind) && o.args[0] == pg).cloned().collect();
        let n = h.iter().filter(|o| o.ok() && matches!(o.kind, P_UPD | P_INS)).count();
        nt |= n > 2 && h.iter().any(|o| o.ok() && o.kind == P_GET);
        match linearizable(&PageModel, &h, 300_000) {
            Ok(false) => {
                let t: Vec<String> = h.iter().map(|o| format!("{}@{}..{} {}{:?} -> {} {:?}", o.c, o.inv, o.ret, ["ins", "upd", "meta", "get", "link", "all"][(o.kind - P_INS) as usize], o.args, o.status, o.res)).collect();
                return bad("rows-changed", format!("page {pg}: no order of the operations explains the results: {}", t.join("; ")));
            }
            _ => {}
        }
    }
    Verdict::Ok(nt)
}
/// One row address: None not inserted, Some(0) deleted, Some(t) content.
struct Row {
    /// frames are scarce and I/O fails: a call may be refused for no other reason, without an effect
    tight: bool,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct RowS {
    t: Option<u64>,
    bytes: u64,
}
impl Model for Row {
    type S = RowS;
    fn init(&self) -> RowS {
        RowS { t: None, bytes: 0 }
    }
    fn step(&self, s: &RowS, o: &OpH) -> Option<RowS> {
        let live = s.t.is_some_and(|t| t != 0);
        if self.tight && o.done() && !o.ok() && o.c < 90 {
            return Some(s.clone());
        }
        match o.kind {
            H_INS if o.ok() => s.t.is_none().then(|| RowS { t: Some(o.args[1]), bytes: o.args[2] }),
            H_UPD if o.ok() => live.then(|| RowS { t: Some(o.args[2]), bytes: o.args[3] }),
            // refused: deleted, or the row would grow
            H_UPD if o.done() => (!live || o.args[3] > s.bytes).then(|| s.clone()),
            H_DEL if o.ok() => live.then_some(RowS { t: Some(0), bytes: s.bytes }),
            H_DEL if o.done() => (!live).then(|| s.clone()),
            H_GET if o.ok() => (live && s.t == Some(o.res[0])).then(|| s.clone()),
            H_GET if o.done() => (!live).then(|| s.clone()),
            _ => Some(s.clone()),
        }
    }
    fn optional(&self, o: &OpH) -> bool {
        !o.done()
    }
    fn unbounded(&self, o: &OpH) -> bool {
        !o.done()
    }
}
fn heaps(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let tight = p.cfg("tight") != 0;
    let mut rows: BTreeMap<u64, Vec<OpH>> = BTreeMap::new();
    let mut table: BTreeMap<u64, u64> = BTreeMap::new();
    for o in &v {
        if o.kind == H_INS && o.ok() {
            if let Some(x) = rows.insert(o.res[0], vec![o.clone()]) {
                return bad("address-reused", format!("two rows were given one address: {x:?} and {o:?}"));
            }
            table.insert(o.res[0], o.args[0]);
        } else if o.kind == H_INS && o.done() && o.args[2] < 3400 && !tight {
            return bad("insert-refused", format!("a row of {} bytes was refused: {o:?}", o.args[2]));
        }
    }
    for o in v.iter().filter(|o| matches!(o.kind, H_UPD | H_DEL | H_GET)) {
        rows.entry(o.args[1]).or_default().push(o.clone());
    }
    let mut nt = v.iter().any(|o| o.kind == H_SCAN && v.iter().any(|x| x.kind == H_INS && x.inv < o.ret && x.ret > o.inv));
    for o in v.iter().filter(|o| o.kind == H_SCAN && o.done()) {
        let seen: Vec<(u64, u64, u64)> = res.hist.iter().filter(|r| r.tag == STATE && r.w[0] == 64 && r.w[1] == o.id && r.seq > o.inv && r.seq < o.ret).map(|r| (r.w[2], r.w[3], r.w[4])).collect();
        let mut at = BTreeSet::new();
        for (rid, trid, f) in &seen {
            if rid != trid {
                return bad("scan-address", format!("a scan names address {rid:x} for the row at {trid:x}: {o:?}"));
            }
            if !at.insert(*rid) {
                return bad("scan-twice", format!("a scan returned the row at {rid:x} twice: {o:?} {seen:x?}"));
            }
            if table.get(rid) != Some(&o.args[0]) && !v.iter().any(|x| x.kind == H_INS && !x.done()) {
                return bad("scan-stranger", format!("a scan returned a row at {rid:x} that was never inserted into its table: {o:?}"));
            }
            let g = OpH { kind: H_GET, args: vec![o.args[0], *rid], res: vec![*f], status: OK, c: o.c + 1000, ..o.clone() };
            rows.entry(*rid).or_default().push(g);
        }
        for (rid, tb) in &table {
            if *tb == o.args[0] && !at.contains(rid) && rows[rid][0].ret < o.inv && (!tight || o.c >= 90) {
                // not returned: it must have been deleted at some moment of the scan
                let g = OpH { kind: H_GET, args: vec![*tb, *rid], res: vec![], status: ERR, c: o.c + 1000, ..o.clone() };
                rows.get_mut(rid).unwrap().push(g);
            }
        }
    }
    for (rid, h) in &rows {
        nt |= overlapping(h);
        match linearizable(&Row { tight }, h, 100_000) {
            Ok(false) => {
                let t: Vec<String> = h.iter().map(|o| format!("{}@{}..{} {}{:?} -> {} {:?}", o.c, o.inv, o.ret, ["insert", "update", "delete", "get", "scan"][(o.kind - H_INS) as usize], o.args, o.status, o.res)).collect();
                return bad("row-history", format!("row {rid:x}: no order of the operations explains the results (a client above 1000 is a scan): {}", t.join("; ")));
            }
            _ => {}
        }
    }
    for o in v.iter().filter(|o| o.kind == H_COUNT && o.done()) {
        let n = v.iter().filter(|x| x.kind == H_INS && x.ok() && x.args[0] == o.args[0] && x.ret < o.inv).count() as u64;
        if n != o.res[0] {
            return bad("row-count", format!("table {} has {n} rows, and counts {}", o.args[0], o.res[0]));
        }
    }
    if tight {
        nt = v.iter().any(|o| !o.ok() && o.done() && o.c < 90) && v.iter().any(|o| o.kind == H_INS && o.ok());
    }
    Verdict::Ok(nt)
}
const REAL: &str = "TablePage, Tuple, TableHeap, TableScanIterator, BufferPoolManager, LRUKReplacer, AsyncDiskManager and I/O engine, tokio runtime";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>, a: &'static str| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: vec![a], probes: &[] };
    fn page(r: &mut Rng, p: &mut Plan, n: i64) {
        base(r, p);
        let nc = r.range(1, 3);
        p.set("pages", r.range(1, 4));
        p.set("frames", r.range(nc, 5));
        page_ops(r, p, 0, n, nc as u64);
    }
    /// One or two pages filled to the last byte, written out and read back.
    fn page_fill(r: &mut Rng, p: &mut Plan, _: &str) {
        base(r, p);
        p.set("pages", r.range(1, 2));
        p.set("frames", r.range(1, 3));
        p.set("meta", (r.below(3) > 0) as i64);
        let (lo, hi) = *r.pick(&[(0, 12), (0, 40), (100, 400), (280, 320)]);
        let n = 9000 / (75 + (lo + hi) / 2) * p.cfg("pages") / 2;
        let slots = 4096 / (75 + lo);
        for i in 0..n {
            let pg = r.range(0, p.cfg("pages") - 1);
            p.op(0, "i", &[pg, r.range(lo, hi), r.range(0, 1), 0]);
            match r.below(if i < n * 3 / 4 { 24 } else { 6 }) {
                0 => p.op(0, "g", &[pg, r.range(0, slots), 1]),
                1 => p.op(0, "m", &[pg, r.range(0, slots), r.range(0, 1)]),
                2 => p.op(0, "u", &[pg, r.range(0, slots), r.range(0, hi), 0]),
                3 => p.op(0, "f", &[r.range(0, 3), pg]),
                4 => p.op(0, "a", &[pg]),
                _ => {}
            }
        }
    }
    fn page_restart(r: &mut Rng, p: &mut Plan, _: &str) {
        page(r, p, 40);
        p.set("phases", 3);
        let nc = r.range(1, p.cfg("frames").min(3));
        page_ops(r, p, 1, 25, nc as u64);
    }
    fn heap(r: &mut Rng, p: &mut Plan, n: i64) {
        base(r, p);
        let nc = r.range(1, 3);
        p.set("heaps", r.range(1, 2));
        p.set("frames", nc * 3 + r.range(0, 3));
        let m = r.range(10, n);
        heap_ops(r, p, 0, m, nc as u64);
    }
    fn heap_tight(r: &mut Rng, p: &mut Plan, _: &str) {
        base(r, p);
        let nc = r.range(1, 3);
        p.set("tight", 1);
        p.set("heaps", r.range(1, 2));
        p.set("frames", r.range(1, 4));
        let m = r.range(10, 60);
        heap_ops(r, p, 0, m, nc as u64);
        for _ in 0..r.range(if nc == 1 { 1 } else { 0 }, 4) {
            let k = *r.pick(&["eio_r", "eio_r", "eio_w", "enospc", "short_r", "short_w", "lat"]);
            let arg = match k {
                "lat" => r.range(100_000, 5_000_000),
                "short_r" | "short_w" => r.range(1, 99),
                _ => r.range(1, 4),
            };
            p.faults.push(simcore::plan::Fault { k: k.into(), n: r.range(1, 60) as u64, arg, file: "t.db".into(), phase: 0 });
        }
    }
    fn heap_restart(r: &mut Rng, p: &mut Plan, _: &str) {
        heap(r, p, 50);
        p.set("phases", 3);
        let nc = p.cfg("frames") / 3;
        heap_ops(r, p, 1, 25, nc as u64);
    }
    vec![
        c("H02", "rows were inserted and updated on one page and read back", vec![
            Scn { name: "pages", run: "table", weight: 4, phases: 1, gen: |r, p, _| { let n = r.range(8, 90); page(r, p, n) }, judge: pages },
            Scn { name: "restart", run: "table", weight: 2, phases: 3, gen: page_restart, judge: pages },
            Scn { name: "fill", run: "table", weight: 2, phases: 1, gen: page_fill, judge: pages },
        ], "clients change a page only under its guard's write lock, as the library does"),
        c("H01", "two clients used one row, or a scan ran beside an insert", vec![
            Scn { name: "heap", run: "table", weight: 4, phases: 1, gen: |r, p, _| heap(r, p, 90), judge: heaps },
            Scn { name: "restart", run: "table", weight: 2, phases: 3, gen: heap_restart, judge: heaps },
            Scn { name: "tight", run: "table", weight: 2, phases: 1, gen: |r, p, _| heap_tight(r, p, ""), judge: heaps },
        ], "where frames run out or I/O fails (scenario tight), only a scan made afterwards must find every row: a scan has no way to report that it could not get a page"),
    ]
}

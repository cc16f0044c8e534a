use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::txn::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn gen(r: &mut Rng, p: &mut Plan, style: u64) {
    p.set("frames", *r.pick(&[8, 10, 16, 64]));
    p.set("tables", r.range(1, 2));
    p.set("rows", r.range(1, 6));
    p.set("size", *r.pick(&[5, 40, 300, 1200]));
    p.set("vs", (r.below(4) == 0) as i64);
    p.set("via", (r.below(3) == 0) as i64);
    p.set("wal", (r.below(4) == 0) as i64);
    p.set("tasks", (r.below(4) == 0) as i64);
    p.set("rt_blocking", 16);
    p.set("meta0", r.range(0, 1));
    p.set("poll", *r.pick(&[300, 3000, 20_000]));
    let nc = r.range(2, 4);
    let lv = if r.below(2) == 0 { r.range(0, 4) } else { -1 };
    let n = r.range(8, 60);
    let hot = r.below(3) != 0;
    let gc = style == 5 || r.below(3) == 0;
    let locks = style == 1 && r.below(3) == 0;
    let mut open = [false; 4];
    let mut level = [0i64; 4];
    for _ in 0..n {
        let ci = r.below(nc as u64) as usize;
        let c = ci as u32;
        if !open[ci] {
            level[ci] = if lv >= 0 { lv } else if style == 3 { r.range(2, 4) } else { r.range(0, 4) };
            p.op(c, "b", &[level[ci]]);
            open[ci] = true;
            continue;
        }
        let h = (hot && r.below(3) != 0) as i64;
        let row = if r.below(5) == 0 { 1000 + r.range(0, 2) } else { r.range(0, 7) };
        let quit = (r.below(4) != 0) as i64;
        let k = r.range(0, 99);
        let (w, ab): (i64, i64) = match style {
            1 => (50, 18),
            3 => (30, 4),
            4 => (50, 6),
            5 => (30, 10),
            _ => (40, 8),
        };
        if k < w {
            match r.range(0, 9) {
                0..=1 => p.op(c, "i", &[r.range(0, 1), 0, r.range(0, 1)]),
                2..=5 => p.op(c, "u", &[row, h, quit]),
                6..=7 => p.op(c, "gu", &[row, h, quit]),
                _ => p.op(c, if locks && level[ci] != 4 { "l" } else { "d" }, &[row, h, quit]),
            }
        } else if k < 70 {
            if r.below(6) == 0 { p.op(c, "sc", &[r.range(0, 1)]) } else { p.op(c, "g", &[row, h]) }
        } else if k < 88 {
            p.op(c, if r.range(0, 17) < ab { "a" } else { "c" }, &[]);
            open[ci] = false;
        } else if k < 94 && gc {
            p.op(c, if r.below(2) == 0 || style != 5 { "gc" } else { "w" }, &[]);
        } else if style == 5 {
            p.op(c, "w", &[]);
        } else {
            let us = *r.pick(&[10, 500, 20_000]);
            p.op(c, "s", &[us]);
        }
    }
}
type Key = (u64, u64);
struct W {
    inv: u64,
    ret: u64,
    key: Key,
    fp: u64,
    ok: bool,
}
struct T {
    lv: u64,
    snap: u64,
    b: (u64, u64),
    e: (u64, u64), // the end, u64::MAX while it runs
    want: bool,
    done: bool,
    ts: u64,
    w: Vec<W>,
}
#[derive(Clone, Debug)]
struct V {
    ts: u64,
    fp: u64,
    txn: u64,
    e: (u64, u64),
}
struct H {
    t: BTreeMap<u64, T>,
    v: HashMap<Key, Vec<V>>,
    keys: BTreeSet<Key>,
    o: Vec<OpH>,
    wrote: HashMap<(Key, u64), u64>, // who wrote this content
    end: u64,
}
fn history(res: &Res) -> H {
    let o = ops(&res.hist);
    let mut t: BTreeMap<u64, T> = BTreeMap::new();
    let mut wrote = HashMap::new();
    let mut keys = BTreeSet::new();
    for x in &o {
        match x.kind {
            X_BEGIN if x.ok() => drop(t.insert(x.res[0], T { lv: x.args[0], snap: x.res[1], b: (x.inv, x.ret), e: (u64::MAX, u64::MAX), want: false, done: false, ts: 0, w: vec![] })),
            X_END => {
                if let Some(t) = t.get_mut(&x.args[0]) {
                    t.e = (x.inv, x.ret);
                    t.want = x.args[1] == 1;
                    t.done = x.ok() && x.res[0] == 1;
                    t.ts = if t.done { x.res[1] } else { 0 };
                }
            }
            X_W => {
                let key = (x.args[2], if x.args[1] == 0 && x.ok() { x.res[0] } else { x.args[3] });
                if let (true, Some(t)) = (x.args[1] != 0 || x.ok(), t.get_mut(&x.args[0])) {
                    t.w.push(W { inv: x.inv, ret: x.ret, key, fp: x.args[4], ok: x.ok() });
                    if x.ok() {
                        wrote.insert((key, x.args[4]), x.args[0]);
                        keys.insert(key);
                    }
                }
            }
            _ => {}
        }
    }
    let mut v: HashMap<Key, Vec<V>> = HashMap::new();
    for (id, t) in t.iter().filter(|t| t.1.done) {
        let mut last: BTreeMap<Key, u64> = BTreeMap::new();
        for w in t.w.iter().filter(|w| w.ok) {
            last.insert(w.key, w.fp);
        }
        for (k, fp) in last {
            v.entry(k).or_default().push(V { ts: t.ts, fp, txn: *id, e: t.e });
        }
    }
    v.values_mut().for_each(|x| x.sort_by_key(|v| v.ts));
    let end = res.hist.iter().find(|x| x.tag == scen::util::STATE && x.w[0] == 90).map(|x| x.seq).unwrap_or(u64::MAX);
    H { t, v, keys, o, wrote, end }
}
struct Read<'a> {
    t: &'a T,
    id: u64,
    key: Key,
    fp: u64,
    inv: u64,
    ret: u64,
    scan: bool,
}
impl Read<'_> {
    fn say(&self, h: &H, what: &str) -> String {
        let by = match h.wrote.get(&(self.key, self.fp)) {
            Some(_) if self.fp == 0 => "nothing".into(),
            Some(t) => format!("what transaction {t} wrote"),
            None if self.fp == 0 => "nothing".into(),
            None => "a content nobody wrote".into(),
        };
        format!(
            "transaction {} (level {}, snapshot {}) {} row {:?} at {}..{} and got {by}; {what}; committed versions {:?}; own writes {:?}",
            self.id,
            self.t.lv,
            self.t.snap,
            if self.scan { "scanned" } else { "read" },
            self.key,
            self.inv,
            self.ret,
            h.v.get(&self.key).map(|v| v.iter().map(|v| format!("txn {} at ts {} ({}..{}){}", v.txn, v.ts, v.e.0, v.e.1, if v.fp == 0 { " delete" } else { "" })).collect::<Vec<_>>()),
            self.t.w.iter().filter(|w| w.key == self.key && w.ok && w.ret < self.inv).count()
        )
    }
}
impl H {
    fn reads(&self) -> Result<Vec<Read<'_>>, Verdict> {
        let mut out = vec![];
        for x in self.o.iter().filter(|x| x.done() && matches!(x.kind, X_R | X_SCAN)) {
            let id = x.args[0];
            let t = &self.t[&id];
            if x.kind == X_R {
                if !x.ok() {
                    return Err(bad("read-failed", format!("{x:?}")));
                }
                out.push(Read { t, id, key: (x.args[1], x.args[2]), fp: x.res[0], inv: x.inv, ret: x.ret, scan: false });
                continue;
            }
            let mut m: BTreeMap<Key, u64> = BTreeMap::new();
            for w in x.res.chunks(2) {
                if m.insert((x.args[1], w[0]), w[1]).is_some() {
                    return Err(bad("scanned-twice", format!("row {} of {x:?}", w[0])));
                }
            }
            for k in self.keys.iter().filter(|k| k.0 == x.args[1]) {
                out.push(Read { t, id, key: *k, fp: m.remove(k).unwrap_or(0), inv: x.inv, ret: x.ret, scan: true });
            }
            if let Some((k, f)) = m.into_iter().next() {
                return Err(bad("unknown-row", format!("scan of transaction {id} returned {k:?} with {f}, which nobody inserted")));
            }
        }
        Ok(out)
    }
    fn own(&self, r: &Read) -> Option<u64> {
        r.t.w.iter().filter(|w| w.ok && w.key == r.key && w.ret < r.inv).last().map(|w| w.fp)
    }
    fn vs(&self, k: &Key) -> &[V] {
        self.v.get(k).map(|v| v.as_slice()).unwrap_or(&[])
    }
    /// contents that were the latest committed one at some moment of inv..ret
    fn committed(&self, k: &Key, inv: u64, ret: u64) -> Vec<u64> {
        let v = self.vs(k);
        let mut out = vec![];
        if !v.iter().any(|x| x.e.1 < inv) {
            out.push(0);
        }
        for (i, x) in v.iter().enumerate() {
            if x.e.0 <= ret && !v[i + 1..].iter().any(|y| y.e.1 < inv) {
                out.push(x.fp);
            }
        }
        out
    }
    fn dirty(&self, k: &Key, not: u64, inv: u64, ret: u64) -> Vec<u64> {
        let mut out = vec![];
        for (id, t) in &self.t {
            if *id != not && t.e.1 >= inv {
                out.extend(t.w.iter().filter(|w| w.key == *k && w.inv <= ret).map(|w| w.fp));
            }
        }
        out
    }
    fn settled(&self, r: &Read) -> Option<Verdict> {
        if r.inv < self.end {
            return None;
        }
        let want = self.own(r).unwrap_or(self.vs(&r.key).last().map(|v| v.fp).unwrap_or(0));
        (r.fp != want).then(|| {
            let ab = self.t.values().any(|t| !t.done && t.w.iter().any(|w| w.key == r.key));
            bad(if ab { "abort-left-effect" } else { "final-state" }, r.say(self, "every other transaction had ended"))
        })
    }
}
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(v) => return v,
        }
    };
}
fn busy(h: &H) -> bool {
    h.t.iter().any(|(a, x)| x.w.iter().any(|w| w.ok && h.t.iter().any(|(b, y)| a != b && y.b.0 < x.e.1 && x.b.0 < y.e.1 && y.w.iter().any(|z| z.key == w.key))))
}
/// T01
fn aborts(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(res);
    for r in &tri!(h.reads()) {
        if let Some(v) = h.settled(r) {
            return v;
        }
        if r.fp != 0 {
            // what an aborted transaction wrote is gone once the abort has returned
            if let Some(t) = h.wrote.get(&(r.key, r.fp)).filter(|t| **t != r.id).map(|t| &h.t[t]) {
                if !t.done && t.e.1 < r.inv {
                    return bad("aborted-value", r.say(&h, "its writer had aborted"));
                }
            } else if !h.wrote.contains_key(&(r.key, r.fp)) {
                return bad("garbage", r.say(&h, "no such content exists"));
            }
        } else if r.t.lv == 0 && h.own(r).is_none() && !h.committed(&r.key, r.inv, r.ret).contains(&0) && !h.dirty(&r.key, r.id, r.inv, r.ret).contains(&0) {
            return bad("abort-left-effect", r.say(&h, "only an aborted transaction can have removed it"));
        }
    }
    for (id, t) in &h.t {
        if t.want && !t.done && t.e.1 != u64::MAX && p.ops.iter().all(|o| o.k != "l") {
            return bad("commit-refused", format!("transaction {id} could not commit"));
        }
    }
    Verdict::Ok(h.t.values().any(|t| !t.done && t.w.iter().any(|w| w.ok)))
}
/// T02
fn commits(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(res);
    for r in &tri!(h.reads()) {
        if r.t.lv == 0 || h.own(r).is_some() {
            continue;
        }
        if r.fp != 0 {
            match h.wrote.get(&(r.key, r.fp)) {
                None => return bad("garbage", r.say(&h, "no such content exists")),
                Some(t) if !h.t[t].done || h.t[t].e.0 > r.ret => return bad("dirty-read", r.say(&h, "its writer had not committed")),
                // an intermediate version of a transaction that committed another
                Some(t) if !h.vs(&r.key).iter().any(|v| v.txn == *t && v.fp == r.fp) => return bad("intermediate-read", r.say(&h, "its writer replaced it before it committed")),
                _ => {}
            }
        }
        if r.t.lv == 1 {
            if !h.committed(&r.key, r.inv, r.ret).contains(&r.fp) {
                return bad("not-latest-committed", r.say(&h, "that was never the latest committed content during the read"));
            }
        } else {
            // commits that had returned before the reader began are in its snapshot
            let v = h.vs(&r.key);
            let Some(min) = v.iter().rposition(|v| v.e.1 < r.t.b.0) else { continue };
            if !v[min..].iter().any(|v| v.fp == r.fp) {
                return bad("missed-commit", r.say(&h, &format!("the reader began at {}", r.t.b.0)));
            }
        }
    }
    Verdict::Ok(busy(&h))
}
/// T03
fn snapshots(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(res);
    for r in &tri!(h.reads()) {
        if let Some(f) = h.own(r) {
            if f != r.fp {
                return bad("own-write", r.say(&h, "it had written something else itself"));
            }
            continue;
        }
        if r.t.lv < 2 {
            continue;
        }
        let want = h.vs(&r.key).iter().filter(|v| v.ts < r.t.snap).last().map(|v| v.fp).unwrap_or(0);
        if r.fp != want {
            return bad("snapshot", r.say(&h, "its snapshot holds another version"));
        }
    }
    Verdict::Ok(busy(&h))
}
/// T04
fn updates(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(res);
    for (a, x) in &h.t {
        for w in &x.w {
            if !w.ok {
                let own = x.w.iter().filter(|z| z.ok && z.key == w.key && z.ret < w.inv).last();
                let conflict = h.t.iter().any(|(b, y)| a != b && y.e.1 >= w.inv && y.w.iter().any(|z| z.key == w.key && z.inv <= w.ret));
                let newer = x.lv >= 2 && h.vs(&w.key).iter().any(|v| v.ts > x.snap && v.e.0 <= w.ret);
                let gone = match own {
                    Some(o) => o.fp == 0,
                    None => h.committed(&w.key, w.inv, w.ret).contains(&0),
                };
                // a row that grows may find no room on its page
                let room = p.cfg("vs") != 0 && w.fp != 0;
                if !conflict && !newer && !gone && !room {
                    return bad("refused", format!("transaction {a} (level {}, snapshot {}) could not change row {:?} at {}..{} although nobody else was changing it", x.lv, x.snap, w.key, w.inv, w.ret));
                }
                continue;
            }
            for (b, y) in h.t.iter().filter(|y| *y.0 != *a) {
                if y.w.iter().any(|z| z.ok && z.key == w.key && z.ret < w.inv && y.e.0 > w.ret) {
                    return bad("dirty-write", format!("transaction {a} changed row {:?} at {}..{} while transaction {b} had an unfinished change there", w.key, w.inv, w.ret));
                }
                if x.done && y.done && x.lv >= 2 && y.ts > x.snap && y.ts < x.ts && y.w.iter().any(|z| z.ok && z.key == w.key) {
                    return bad("lost-update", format!("transaction {a} (level {}, snapshot {}, committed at {}) replaced row {:?}, which transaction {b} had changed at {} after that snapshot", x.lv, x.snap, x.ts, w.key, y.ts));
                }
            }
        }
    }
    for r in &tri!(h.reads()) {
        if let Some(v) = h.settled(r) {
            return v;
        }
    }
    Verdict::Ok(busy(&h))
}
/// T05
fn stamps(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(res);
    let begins = h.o.iter().filter(|o| o.kind == X_BEGIN && o.ok()).count();
    if begins != h.t.len() {
        return bad("id-reused", "two transactions got the same id".to_string());
    }
    // every timestamp: value, earliest and latest moment it was drawn
    let mut s: Vec<(u64, u64, u64, u64)> = vec![];
    for (id, t) in &h.t {
        s.push((t.snap, t.b.0, t.b.1, *id));
        if t.done {
            s.push((t.ts, t.e.0, t.e.1, *id));
        }
    }
    s.sort();
    for w in s.windows(2) {
        if w[0].0 == w[1].0 {
            return bad("timestamp-reused", format!("{:?} and {:?}", w[0], w[1]));
        }
    }
    for (i, a) in s.iter().enumerate() {
        if let Some(b) = s[i + 1..].iter().find(|b| b.2 < a.1) {
            return bad("timestamp-order", format!("timestamp {} of transaction {} was drawn before {} of transaction {} was asked for", b.0, b.3, a.0, a.3));
        }
    }
    for o in h.o.iter().filter(|o| o.kind == X_WM && o.ok()) {
        let w = o.res[0];
        if let Some((id, t)) = h.t.iter().find(|(_, t)| t.b.1 < o.inv && t.e.0 > o.ret && w > t.snap) {
            return bad("watermark-high", format!("watermark {w} while transaction {id} still reads at {}", t.snap));
        }
        // the oldest that may still be running bounds it from below; with none running nothing may hold it back
        let low = h.t.values().filter(|t| t.b.0 < o.ret && t.e.1 > o.inv).map(|t| t.snap).min();
        let last = h.t.values().filter(|t| t.done && t.e.1 < o.inv).map(|t| t.ts).max().unwrap_or(0);
        if w < low.unwrap_or(u64::MAX).min(last) {
            return bad("watermark-low", format!("watermark {w} although the oldest snapshot in use is {low:?} and the latest commit {last}"));
        }
    }
    snapshots(p, res)
}
const REAL: &str = "TransactionManagerFactory, TransactionManager, Watermark, Transaction, TransactionalTableHeap, TableHeap, TablePage, TableIterator, LockManager and its detector thread, WALManager and LogManager (in part of the runs), buffer pool, disk manager, tokio runtime";
const STUB: &str = "kernel: files, clock, sleeping, futex/thread scheduling";
pub fn checks() -> Vec<Check> {
    let assume = vec!["a transaction is used by one client at a time", "no I/O error is injected: what a failed commit leaves behind is decided by the recovery checks"];
    let c = |prop: &'static str, rule: &'static str, gen: fn(&mut Rng, &mut Plan, &str), judge: fn(&Plan, &Res) -> Verdict| Check {
        prop, scns: vec![Scn { name: "txns", run: "txn", weight: 1, phases: 1, gen, judge }], findings: vec![], rule, real: REAL, stub: STUB, assumptions: assume.clone(), probes: &[(2, "deadlock victims")],
    };
    let conc = "two overlapping transactions changed the same row";
    vec![
        c("T01", "a transaction with changes aborted", |r, p, _| gen(r, p, 1), aborts),
        c("T02", conc, |r, p, _| gen(r, p, 2), commits),
        c("T03", conc, |r, p, _| gen(r, p, 3), snapshots),
        c("T04", conc, |r, p, _| gen(r, p, 4), updates),
        c("T05", conc, |r, p, _| gen(r, p, 5), stamps),
    ]
}

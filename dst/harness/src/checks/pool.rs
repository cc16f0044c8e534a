use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::pool::*;
use scen::util::*;
use simcore::plan::Fault;
use std::collections::BTreeMap;

fn base(r: &mut Rng, p: &mut Plan) {
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", 16);
    p.set("io_threads", r.range(1, 3));
    p.set("cache", *r.pick(&[0, 1, 2, 16]));
    p.set("hot", *r.pick(&[0, 10, 50]));
    p.set("warm", *r.pick(&[0, 30, 50]));
    p.set("batch", *r.pick(&[1, 4, 8]));
    p.set("thresh", *r.pick(&[1, 2, 16]));
    p.set("interval", *r.pick(&[1, 100, 1000]));
    p.set("wbuf", *r.pick(&[0, 1, 1]));
    p.set("direct", r.range(0, 1));
    p.set("comp", r.range(0, 1));
    p.set("fsync", *r.pick(&[1, 1, 2]));
    p.set("dur", r.range(0, 3));
    p.set("tasks", r.range(0, 1));
    p.set("k", r.range(1, 3));
    p.set("frames", r.range(1, 5));
}
fn work(r: &mut Rng, p: &mut Plan, ph: u32, max: i64) {
    let slots = p.cfg("slots");
    let made = if ph == 0 { 0 } else { p.cfg("made") };
    let nc = r.range(1, 4) as u32;
    let mut next = made;
    let n = r.range(6, max);
    let held = r.below(3) == 0;
    for i in 0..n {
        let c = ph * 10 + r.below(nc as u64) as u32;
        let k = if next == 0 || (i < 4 && next < slots) { 0 } else { r.range(0, 99) };
        let slot = r.range(0, (next - 1).max(0));
        match k {
            0..=7 if next < slots => {
                p.op(c, "n", &[next]);
                next += 1;
            }
            0..=39 => p.op(c, "r", &[slot]),
            40..=74 => p.op(c, "w", &[slot]),
            75..=79 if held => p.op(c, "h", &[slot]),
            80..=81 if held => p.op(c, "hr", &[slot]),
            82..=84 if held => p.op(c, "hw", &[slot]),
            85..=88 if held => p.op(c, "u", &[slot]),
            75..=88 => p.op(c, "w", &[slot]),
            89 => {
                let mut v: Vec<i64> = (0..r.range(1, 3)).map(|_| r.range(0, (next - 1).max(0))).collect();
                v.dedup();
                p.op(c, "b", &v)
            }
            90..=91 => p.op(c, "d", &[*r.pick(&[0, 0, 100])]),
            92..=96 => {
                let m = r.range(0, 3);
                let x = if m == 0 { slot } else { r.range(0, 4) };
                p.op(c, "f", &[m, x])
            }
            97 => p.op(c, "m", &[r.range(0, 4), r.range(0, 3)]),
            _ => {
                let us = *r.pick(&[10, 500, 3000]);
                p.op(c, "s", &[us]);
            }
        }
    }
    p.set("made", next);
}
struct Page;
impl Model for Page {
    type S = u64;
    fn init(&self) -> u64 {
        ABSENT
    }
    fn step(&self, s: &u64, op: &OpH) -> Option<u64> {
        match op.kind {
            K_NEW => (*s == ABSENT).then_some(op.args[1]),
            K_WRITE => (!op.ok() || op.res[0] == *s).then_some(op.args[1]),
            K_READ => (!op.ok() || op.res[0] == *s).then_some(*s),
            _ => Some(*s),
        }
    }
}
fn phases(res: &Res) -> Vec<u64> {
    res.hist.iter().filter(|r| r.tag == NOTE && r.w[0] == 20).map(|r| r.seq).collect()
}
fn hard(p: &Plan) -> bool {
    p.faults.iter().any(|f| f.k.starts_with("eio") || f.k == "enospc")
}
/// Per page and process life, all guards see one register; the final sweep reads every page.
fn coherent(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let starts = phases(res);
    let mut nt = false;
    let life = |o: &OpH| starts.iter().filter(|s| **s < o.inv).count();
    // page ids of one life are distinct
    let mut ids: BTreeMap<(usize, u64), &OpH> = BTreeMap::new();
    for o in v.iter().filter(|o| o.kind == K_NEW && o.ok()) {
        if let Some(x) = ids.insert((life(o), o.res[0]), o) {
            return bad("page-id-reused", format!("{x:?} and {o:?} were given the same page"));
        }
    }
    for o in &v {
        if o.done() && !o.ok() && o.c == 90 && o.kind == K_READ && life(o) == 1 {
            return bad("unreadable", format!("page of slot {} cannot be fetched although nothing is pinned: {o:?}", o.args[0]));
        }
    }
    let slots: Vec<u64> = (0..p.cfg("slots") as u64).collect();
    for slot in slots {
        // a fetch that failed has not touched the page
        let all: Vec<OpH> = v.iter().filter(|o| matches!(o.kind, K_NEW | K_WRITE | K_READ) && o.args[0] == slot).filter(|o| !(o.done() && !o.ok() && o.kind != K_NEW)).cloned().collect();
        let first: Vec<OpH> = all.iter().filter(|o| life(o) == 1).cloned().collect();
        nt |= overlapping(&first);
        if first.iter().any(|o| o.kind == K_READ && o.ok() && o.res[0] == GARBAGE || o.kind == K_WRITE && o.ok() && o.res[0] == GARBAGE) {
            return bad("garbage", format!("slot {slot}: a guard shows bytes that no guard wrote: {first:?}"));
        }
        match linearizable(&Page, &first, 200_000) {
            Ok(true) => {}
            Ok(false) => return bad("lost-change", format!("slot {slot}: the guards' views fit no order of the changes: {first:?}")),
            Err(()) => {}
        }
        // across a crash: what a durable flush covered is there, or something newer
        let Some(&s1) = starts.get(1) else { continue };
        let ws: Vec<&OpH> = first.iter().filter(|o| o.kind == K_WRITE || o.kind == K_NEW).collect();
        let flushes: Vec<&OpH> = v.iter().filter(|o| o.ok() && life(o) == 1 && (o.kind == K_FLUSH && o.args[0] == 3 || o.kind == K_SHUT)).collect();
        let settled: Vec<&&OpH> = ws.iter().filter(|w| w.ok() && flushes.iter().any(|f| w.ret < f.inv)).collect();
        let open = ws.iter().any(|w| !settled.iter().any(|x| x.id == w.id && x.c == w.c));
        nt |= !settled.is_empty();
        let second: Vec<OpH> = all.iter().filter(|o| life(o) == 2).cloned().collect();
        // the first life's value as found by the second
        let cands: Vec<u64> = ws.iter().filter(|w| !settled.iter().any(|x| w.ret < x.inv)).map(|w| w.args[1]).collect();
        if settled.is_empty() {
            continue; // the page need not exist any more
        }
        for o in v.iter().filter(|o| o.inv > s1 && matches!(o.kind, K_READ | K_WRITE) && o.args[0] == slot && o.c == 90) {
            if o.done() && !o.ok() && !open {
                return bad("lost-page", format!("slot {slot} was flushed durably and cannot be fetched after the restart"));
            }
        }
        if open {
            continue; // may be torn; the disk manager's own check judges this more finely
        }
        let mut ok = false;
        for c in &cands {
            struct From(u64);
            impl Model for From {
                type S = u64;
                fn init(&self) -> u64 {
                    self.0
                }
                fn step(&self, s: &u64, op: &OpH) -> Option<u64> {
                    Page.step(s, op)
                }
            }
            ok |= linearizable(&From(*c), &second, 200_000) != Ok(false);
        }
        if !ok {
            return bad("lost-flush", format!("slot {slot}: flushed durably as one of {cands:?}, but after the restart {second:?}"));
        }
    }
    Verdict::Ok(nt)
}
/// Residency, accounting and capacity.
fn frames(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let hold: Vec<&OpH> = v.iter().filter(|o| o.kind == K_HOLD && o.ok()).collect();
    let end = |h: &OpH| v.iter().find(|d| d.kind == K_DROP && d.c == h.c && d.args[1] == h.id);
    for h in &hold {
        if h.res[1] != 1 {
            return bad("not-resident", format!("slot {} is held by a guard but is not in the frame the page table names: {h:?}", h.args[0]));
        }
        let d = end(h);
        if let Some(d) = d {
            if d.done() && (d.res[0] != h.res[0] || d.res[1] != 1) {
                return bad("evicted-while-pinned", format!("slot {} was in frame {} when its guard was made and in {} when it was dropped", h.args[0], h.res[0], d.res[0]));
            }
        }
        for g in &hold {
            let live = |x: &OpH, t: u64| x.ret <= t && end(x).is_none_or(|d| d.inv > t);
            if live(g, h.ret) && (g.args[0] == h.args[0]) != (g.res[0] == h.res[0]) {
                return bad("frame-shared", format!("{g:?} and {h:?} are held at the same time"));
            }
        }
    }
    let n = p.cfg("frames") as usize;
    let mut nt = !hold.is_empty();
    for o in v.iter().filter(|o| o.done() && !o.ok() && o.c < 90 && matches!(o.kind, K_READ | K_WRITE | K_HOLD | K_NEW | K_TEMP)) {
        if hard(p) {
            break;
        }
        // the most frames that the others can have had in use at one moment of this call
        let users: Vec<(u64, u64)> = v
            .iter()
            .filter(|x| !(x.c == o.c && x.id == o.id))
            .filter_map(|x| match x.kind {
                K_READ | K_WRITE | K_NEW | K_TEMP => Some((x.inv, x.ret)),
                K_FLUSH => Some((x.inv, x.ret)),
                K_HOLD => Some((x.inv, if x.ok() { end(x).map(|d| d.ret).unwrap_or(u64::MAX) } else { x.ret })),
                _ => None,
            })
            .filter(|x| x.0 < o.ret && x.1 > o.inv)
            .collect();
        let flush = v.iter().any(|x| x.kind == K_FLUSH && x.inv < o.ret && x.ret > o.inv);
        let most = users.iter().map(|a| users.iter().filter(|b| b.0 <= a.0.max(o.inv) && b.1 >= a.0.max(o.inv)).count()).max().unwrap_or(0);
        nt = true;
        if !flush && most < n {
            return bad("no-frame", format!("{o:?} got no frame although at most {most} of {n} can have been in use"));
        }
    }
    for o in v.iter().filter(|o| o.kind == K_FULL && o.done()) {
        let r = &o.res;
        let (got, want, nf, free, table, tf, fs, wrong, filled) = (r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8]);
        let life = phases(res).iter().filter(|s| **s < o.inv).count();
        if got != want && life == 1 {
            return bad("frames-lost", format!("with no guard alive, only {got} of {want} pages could be pinned in {nf} frames"));
        }
        if table != tf || wrong > 0 || fs != got {
            return bad("frame-confusion", format!("page table has {table} pages in {tf} frames; {got} pinned pages are in {fs} frames, {wrong} not where the page table says"));
        }
        if filled != table || free + table != nf {
            return bad("accounting", format!("{nf} frames: {free} free, {table} in the page table, {filled} holding a page"));
        }
    }
    Verdict::Ok(nt)
}
const REAL: &str = "BufferPoolManager, PageGuard, LRUKReplacer, AsyncDiskManager with caches, staging and I/O engine, tokio runtime and blocking pool";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    let assume = vec!["clients use raw pages (BasicPage) and hold at most two guards each; typed pages are the subject of H02 and the index properties"];
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: assume.clone(), probes: &[] };
    fn gen(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        p.set("slots", r.range(2, 10));
        p.set("late", r.range(0, 1));
        work(r, p, 0, 60);
    }
    fn errors(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(&["eio_w", "eio_w", "eio_r", "eio_s", "short_w", "short_r", "eintr", "lat"]);
            let arg = match k {
                "lat" => *r.pick(&[1_000_000, 20_000_000]),
                "eio_w" | "eio_r" => r.range(1, 3),
                "short_w" | "short_r" => r.range(1, 99),
                _ => 0,
            };
            p.faults.push(Fault { k: k.into(), n: r.range(1, 25) as u64, arg, file: "t.db".into(), phase: 0 });
        }
    }
    fn restart(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        p.set("phases", 3);
        p.set("end", r.range(0, 1));
        p.set("crash_mode", *r.pick(&[0, 2, 2, 3]));
        if r.below(3) == 0 {
            p.set("end", 2);
            p.faults.push(Fault { k: "crash".into(), n: r.range(1, 40) as u64, arg: *r.pick(&[0, 1]), file: "t.db".into(), phase: 0 });
        }
        work(r, p, 1, 20);
    }
    /// Guards of changed pages are still held when everything is flushed and the process dies.
    fn kept(r: &mut Rng, p: &mut Plan) {
        gen(r, p);
        p.set("keep", 1);
        p.set("end", 0);
        p.set("phases", 2);
        p.set("crash_mode", *r.pick(&[0, 2, 2, 3]));
        for c in p.clients() {
            if r.below(2) == 0 {
                p.op(c, "f", &[r.range(1, 3), 4]);
            }
            for _ in 0..r.range(0, 2) {
                let slot = r.range(0, (p.cfg("made") - 1).max(0));
                p.op(c, "h", &[slot]);
                if r.below(3) > 0 {
                    p.op(c, "hw", &[1]);
                }
            }
        }
    }
    /// The process dies right after a durable flush, while others read and so evict changed pages.
    fn sudden(r: &mut Rng, p: &mut Plan) {
        base(r, p);
        p.set("wbuf", *r.pick(&[0, 0, 1]));
        p.set("slots", r.range(2, 4));
        p.set("frames", r.range(1, p.cfg("slots") - 1));
        p.set("phases", 2);
        p.set("end", 2);
        p.set("crash_mode", *r.pick(&[0, 2, 2, 3]));
        let (slots, nc) = (p.cfg("slots"), r.range(2, 4) as u32);
        for i in 0..slots {
            p.op(0, "n", &[i]);
        }
        for _ in 0..r.range(0, 2) {
            p.op(0, "w", &[r.range(0, slots - 1)]);
        }
        if r.below(3) == 0 {
            p.op(0, "s", &[*r.pick(&[10, 100])]);
        }
        p.op(0, "x", &[]);
        p.set("made", slots);
        for c in 1..nc {
            for _ in 0..r.range(3, 15) {
                match r.below(6) {
                    0 => p.op(c, "s", &[*r.pick(&[10, 100, 500])]),
                    1 if r.below(3) == 0 => p.op(c, "w", &[r.range(0, slots - 1)]),
                    _ => p.op(c, "r", &[r.range(0, slots - 1)]),
                }
            }
        }
        for _ in 0..r.range(0, 5) {
            p.faults.push(Fault { k: "lat".into(), n: r.range(1, 20) as u64, arg: *r.pick(&[100_000, 1_000_000, 20_000_000]), file: "t.db".into(), phase: 0 });
        }
    }
    vec![
        c("B01", "two clients used one page at the same time, or a flushed page was read after a restart", vec![
            Scn { name: "guards", run: "pool", weight: 4, phases: 1, gen: |r, p, _| gen(r, p), judge: coherent },
            Scn { name: "errors", run: "pool", weight: 2, phases: 1, gen: |r, p, _| errors(r, p), judge: coherent },
            Scn { name: "restart", run: "pool", weight: 2, phases: 3, gen: |r, p, _| restart(r, p), judge: coherent },
            Scn { name: "kept", run: "pool", weight: 1, phases: 2, gen: |r, p, _| kept(r, p), judge: coherent },
            Scn { name: "sudden", run: "pool", weight: 2, phases: 2, gen: |r, p, _| sudden(r, p), judge: coherent },
        ]),
        c("B02", "a guard was held across other operations, or the pool ran out of frames", vec![
            Scn { name: "guards", run: "pool", weight: 4, phases: 1, gen: |r, p, _| gen(r, p), judge: frames },
            Scn { name: "errors", run: "pool", weight: 2, phases: 1, gen: |r, p, _| errors(r, p), judge: frames },
        ]),
    ]
}

//! Caches (C01) and the frame replacer (C02) against reference models of their policies.
use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::mem::*;
use simcore::plan::Fault;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Ent {
    k: u64,
    v: u64,
    freq: u64,
    st: Vec<u64>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct CS {
    e: Vec<Ent>, // FIFO: insertion order; LRU: least recent first
    t: u64,
}
struct Cache {
    kind: i64,
    cap: usize,
    k: usize,
    keys: u64,
}
fn o1(x: Option<u64>) -> Vec<u64> {
    x.map_or(vec![0], |v| vec![1, v])
}
impl Cache {
    fn lru(&self) -> bool {
        self.kind == LRU || self.kind == CLRU
    }
    fn lfu(&self) -> bool {
        self.kind == LFU || self.kind == HLFU
    }
    /// which entries may the policy name as the next victim?
    fn victims(&self, s: &CS) -> Vec<usize> {
        if s.e.is_empty() {
            return vec![];
        }
        if self.lfu() {
            let m = s.e.iter().map(|e| e.freq).min().unwrap();
            return (0..s.e.len()).filter(|i| s.e[*i].freq == m).collect();
        }
        if self.kind == LRUK {
            return vec![lruk_victim(self.k, s.e.iter().enumerate().map(|(i, e)| (i, &e.st))).unwrap()];
        }
        vec![0]
    }
    fn used(&self, s: &mut CS, i: usize) {
        if self.lru() {
            let e = s.e.remove(i);
            s.e.push(e);
        } else if self.kind == LRUK {
            s.t += 1;
            let t = s.t;
            let e = &mut s.e[i];
            e.st.push(t);
            if e.st.len() > self.k {
                e.st.remove(0);
            }
        }
    }
}
/// fewest accesses first among those with fewer than k (then the earliest first access), else the oldest k-th
fn lruk_victim<'a>(k: usize, it: impl Iterator<Item = (usize, &'a Vec<u64>)>) -> Option<usize> {
    it.min_by_key(|(_, st)| if st.len() < k { (0, st.len(), st.first().copied().unwrap_or(u64::MAX)) } else { (1, 0, st[st.len() - k]) }).map(|x| x.0)
}
impl Model for Cache {
    type S = CS;
    fn init(&self) -> CS {
        CS::default()
    }
    fn step(&self, s: &CS, op: &OpH) -> Option<CS> {
        let mut s = s.clone();
        let (a, b) = (op.args[0], op.args[1]);
        let at = s.e.iter().position(|e| e.k == a);
        if !op.done() {
            return Some(s); // no call is ever cut short
        }
        let mask = *op.res.last().unwrap();
        let res = &op.res[..op.res.len() - 1];
        let want: Vec<u64> = match op.kind {
            INS => match at {
                Some(i) => {
                    let old = std::mem::replace(&mut s.e[i].v, b);
                    self.used(&mut s, i);
                    vec![1, old]
                }
                None if self.cap == 0 => vec![0],
                None => {
                    if s.e.len() >= self.cap {
                        let c = self.victims(&s);
                        let v = c.into_iter().find(|i| mask == NOMASK || s.e[*i].k >= self.keys || mask >> s.e[*i].k & 1 == 0)?;
                        s.e.remove(v);
                    }
                    s.t += 1;
                    let t = s.t;
                    s.e.push(Ent { k: a, v: b, freq: 1, st: if self.kind == LRUK { vec![t] } else { vec![] } });
                    vec![0]
                }
            },
            GET => match at {
                Some(i) => {
                    let v = s.e[i].v;
                    if self.lfu() {
                        s.e[i].freq += 1;
                    }
                    self.used(&mut s, i);
                    vec![1, v]
                }
                None => vec![0],
            },
            PEEK => o1(at.map(|i| s.e[i].v)),
            HAS => vec![at.is_some() as u64],
            LEN if self.kind == CLRU => vec![s.e.len() as u64],
            LEN => vec![s.e.len() as u64, self.cap as u64, s.e.is_empty() as u64],
            CLEAR => {
                s.e.clear();
                vec![]
            }
            REM => o1(at.map(|i| s.e.remove(i).v)),
            POP | PEEKV => {
                let c = self.victims(&s);
                if c.is_empty() {
                    vec![0]
                } else {
                    let i = c.into_iter().find(|i| res == [1, s.e[*i].k, s.e[*i].v])?;
                    if op.kind == POP {
                        s.e.remove(i);
                    }
                    res.to_vec()
                }
            }
            POPN => (0..(a as usize).min(s.e.len())).flat_map(|_| {
                let e = s.e.remove(0);
                [e.k, e.v]
            }).collect(),
            TOUCH if self.lfu() => o1(at.map(|i| {
                s.e[i].freq += 1;
                s.e[i].freq
            })),
            TOUCH => {
                if let Some(i) = at {
                    self.used(&mut s, i);
                }
                vec![at.is_some() as u64]
            }
            RANK => match at {
                None => vec![0],
                Some(i) if self.kind == FIFO => vec![1, i as u64],
                Some(i) if self.lru() => vec![1, (s.e.len() - 1 - i) as u64],
                Some(i) => {
                    let key = |e: &Ent| (e.st.len() >= self.k, e.st[0]);
                    vec![1, s.e.iter().filter(|e| key(e) < key(&s.e[i])).count() as u64]
                }
            },
            FREQ if self.lfu() => o1(at.map(|i| s.e[i].freq)),
            FREQ => o1(at.map(|i| s.e[i].st.len() as u64)),
            RESET => o1(at.map(|i| std::mem::replace(&mut s.e[i].freq, 1))),
            KDIST => vec![at.is_some_and(|i| s.e[i].st.len() >= self.k) as u64],
            _ => return None,
        };
        if want != res || mask != NOMASK && s.e.iter().filter(|e| e.k < self.keys).fold(0, |m, e| m | 1 << e.k) != mask {
            return None;
        }
        Some(s)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct RS {
    f: Vec<(u64, Vec<u64>, bool)>,
    t: u64,
}
struct Repl {
    k: usize,
}
impl Model for Repl {
    type S = RS;
    fn init(&self) -> RS {
        RS::default()
    }
    fn step(&self, s: &RS, op: &OpH) -> Option<RS> {
        let mut s = s.clone();
        let (a, b) = (op.args[0], op.args[1]);
        let at = s.f.iter().position(|e| e.0 == a);
        if !op.done() {
            return Some(s);
        }
        let want = match op.kind {
            R_ACC => {
                s.t += 1;
                let t = s.t;
                let i = at.unwrap_or_else(|| {
                    s.f.push((a, vec![], false));
                    s.f.len() - 1
                });
                s.f[i].1.push(t);
                if s.f[i].1.len() > self.k {
                    s.f[i].1.remove(0);
                }
                vec![]
            }
            R_SET => match at {
                Some(i) if s.f[i].2 != (b != 0) => {
                    s.f[i].2 = b != 0;
                    vec![1]
                }
                _ => vec![0],
            },
            R_EVICT => match lruk_victim(self.k, s.f.iter().enumerate().filter(|x| x.1 .2).map(|(i, e)| (i, &e.1))) {
                Some(i) => {
                    s.f[i].2 = false;
                    vec![1, s.f[i].0]
                }
                None => vec![0],
            },
            R_REM => {
                if let Some(i) = at.filter(|i| s.f[*i].2) {
                    s.f.remove(i);
                }
                vec![]
            }
            R_TOTAL => vec![s.f.len() as u64],
            _ => vec![s.f.iter().filter(|x| x.2).count() as u64],
        };
        (want == op.res).then_some(s)
    }
}
fn fits<M: Model>(m: &M, v: &[OpH]) -> Result<Option<OpH>, ()> {
    if v.iter().all(|o| o.c == v[0].c) {
        let mut s = m.init();
        for o in v {
            match m.step(&s, o) {
                Some(n) => s = n,
                None => return Ok(Some(o.clone())),
            }
        }
        return Ok(None);
    }
    match linearizable(m, v, 100_000) {
        Ok(true) => Ok(None),
        Ok(false) => Ok(Some(v.last().unwrap().clone())),
        Err(()) => Err(()),
    }
}
fn verdict(r: Result<Option<OpH>, ()>, class: &str, what: &str, v: &[OpH], nt: bool) -> Verdict {
    match r {
        Ok(None) => Verdict::Ok(nt),
        Ok(Some(o)) if v.iter().all(|x| x.c == o.c) => {
            let upto: Vec<String> = v.iter().filter(|x| x.inv <= o.inv).map(|x| format!("{}{:?}->{:?}", x.kind, x.args, x.res)).collect();
            bad(class, format!("{what} cannot have answered {:?} to operation {}{:?} after {}", o.res, o.kind, o.args, upto.join(" ")))
        }
        Ok(Some(_)) => bad(class, format!("{what}: no sequential order explains {v:?}")),
        Err(()) => Verdict::Skip,
    }
}
fn cache(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let m = Cache { kind: p.cfg("cache"), cap: p.cfg_or("cap", 3) as usize, k: p.cfg_or("k", 2) as usize, keys: p.cfg_or("keys", 8) as u64 };
    if v.is_empty() {
        return Verdict::Ok(false);
    }
    let nt = v.iter().filter(|o| o.kind == INS).count() > m.cap && (p.clients().len() == 1 || overlapping(&v));
    let name = ["FIFO cache", "LRU cache", "LFU cache", "heap LFU cache", "LRU-K cache", "shared LRU cache"][m.kind as usize];
    verdict(fits(&m, &v), ["fifo", "lru", "lfu", "heap-lfu", "lru-k", "shared-lru"][m.kind as usize], name, &v, nt)
}
/// A cached copy is the newest one: what a read gets was not replaced before the read began, nor
/// seen replaced by a read that ended before it began.
fn manager(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let hit = |o: &&OpH| o.kind == M_GET && o.done() && o.res[0] == 1;
    if let Some(o) = v.iter().find(|o| o.kind == M_GET && o.done() && o.res[0] == 2) {
        return bad("torn-page", format!("the cache answered with something that nobody stored: {o:?}"));
    }
    if let Some(o) = v.iter().find(|o| o.kind == M_MAINT && o.done() && o.res[0] == 0) {
        return bad("over-capacity", format!("a cache tier holds more than its capacity: {o:?}"));
    }
    for g in v.iter().filter(hit) {
        let writes: Vec<&OpH> = v.iter().filter(|o| (o.kind == M_STORE || o.kind == M_INV) && o.args[0] == g.args[0]).collect();
        let at = |x: u64| writes.iter().position(|w| w.kind == M_STORE && w.args[1] == x);
        let Some(i) = at(g.res[1]).filter(|i| writes[*i].inv < g.ret) else {
            return bad("torn-page", format!("the cache answered with something that nobody had stored: {g:?}"));
        };
        // the one writer of a page makes one call after the other
        if let Some(w) = writes[i + 1..].iter().find(|w| w.done() && w.ret < g.inv) {
            return bad("stale-copy", format!("page {}: {w:?} had replaced what {g:?} got from the cache", g.args[0]));
        }
        if let Some(e) = v.iter().filter(hit).find(|e| e.args[0] == g.args[0] && e.ret < g.inv && at(e.res[1]).is_some_and(|j| j > i)) {
            return bad("stale-copy", format!("page {}: {e:?} had seen a newer one than {g:?} got from the cache", g.args[0]));
        }
    }
    Verdict::Ok(overlapping(&v) && v.iter().any(|o| hit(&o)))
}
fn gen_mgr(r: &mut Rng, p: &mut Plan) {
    p.set("cache", MGR);
    p.set("cap", r.range(2, 12));
    p.set("hot_pct", *r.pick(&[10, 30, 50]));
    p.set("warm_pct", *r.pick(&[10, 30, 40]));
    p.set("shared", (r.below(4) == 0) as i64);
    let keys = r.range(1, 5);
    p.set("keys", keys);
    let nc = r.range(2, 4);
    let (n, calm) = (r.range(6, 60), r.below(2) == 0);
    for i in 0..n {
        let page = r.range(0, keys - 1);
        let owner = (page % nc) as u32;
        match r.below(20) {
            0..=5 => p.op(owner, "o", &[M_STORE as i64, page, 100 + i]),
            6 => p.op(owner, "o", &[M_INV as i64, page]),
            7 => p.op(r.below(nc as u64) as u32, "o", &[M_MAINT as i64, page, r.range(0, 4)]),
            _ => p.op(r.below(nc as u64) as u32, "o", &[M_GET as i64, page]),
        }
        if calm && r.below(4) == 0 {
            let c = r.below(nc as u64) as u32;
            p.op(c, "s", &[*r.pick(&[1, 30, 2000])]);
        }
    }
    clock(r, p, n);
}
fn repl(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    if v.is_empty() {
        return Verdict::Ok(false);
    }
    let m = Repl { k: p.cfg_or("k", 2) as usize };
    let nt = v.iter().any(|o| o.kind == R_EVICT && o.res[0] == 1) && (p.clients().len() == 1 || overlapping(&v));
    verdict(fits(&m, &v), "wrong-frame", "the replacer", &v, nt)
}
fn clock(r: &mut Rng, p: &mut Plan, n: i64) {
    if r.below(2) == 0 {
        p.set("clock_gran_us", *r.pick(&[1, 10, 1000]));
    }
    for _ in 0..r.range(0, 3) {
        let arg = *r.pick(&[-3_600_000_000i64, -1000, -5, 1, 1000, 86_400_000_000]);
        p.faults.push(Fault { k: "clock".into(), n: r.range(1, n) as u64, arg, ..Default::default() });
    }
}
fn cache_ops(r: &mut Rng, p: &mut Plan, nc: i64, n: i64) {
    let kind = p.cfg("cache");
    let keys = p.cfg("keys");
    let common = [INS, INS, INS, INS, GET, GET, GET, HAS, LEN, REM, POP, PEEKV];
    let own: &[u64] = match kind {
        FIFO => &[RANK, POPN],
        LRU => &[TOUCH, RANK, PEEK],
        LFU | HLFU => &[TOUCH, FREQ, RESET],
        LRUK => &[TOUCH, FREQ, KDIST, RANK],
        _ => &[TOUCH, PEEK],
    };
    for i in 0..n {
        let c = r.below(nc as u64) as u32;
        let mut k = if r.below(4) == 0 { *r.pick(own) } else { *r.pick(&common) };
        if r.below(120) == 0 {
            k = CLEAR;
        }
        if k == RANK && kind == LRUK && p.cfg("k") > 2 {
            k = GET; // ranks follow the first access only, victims the number of accesses too
        }
        let key = if k == POPN { r.range(0, 3) } else { r.range(0, keys - 1) };
        p.op(c, "o", &[k as i64, key, 100 + i]);
        if r.below(8) == 0 {
            let us = *r.pick(&[1, 30, 2000]);
            p.op(c, "s", &[us]);
        }
    }
}
fn gen_cache(r: &mut Rng, p: &mut Plan, long: bool) {
    p.set("cache", if long { r.range(0, 4) } else { r.range(0, 5) });
    p.set("cap", *r.pick(&[0, 1, 2, 2, 3, 3, 4, 6]));
    p.set("k", r.range(1, 4));
    p.set("keys", r.range(2, 9));
    let (nc, n) = if long { (1, r.range(20, 300)) } else { (r.range(2, 4), r.range(6, 40)) };
    cache_ops(r, p, nc, n);
    clock(r, p, n);
}
fn gen_repl(r: &mut Rng, p: &mut Plan, long: bool) {
    p.set("replacer", 1);
    p.set("cap", 8);
    p.set("k", r.range(1, 4));
    let keys = r.range(2, 7);
    p.set("keys", keys);
    let (nc, n) = if long { (1, r.range(20, 250)) } else { (r.range(2, 4), r.range(6, 36)) };
    for _ in 0..n {
        let c = r.below(nc as u64) as u32;
        let f = r.range(0, keys - 1);
        let k = *r.pick(&[R_ACC, R_ACC, R_ACC, R_ACC, R_SET, R_SET, R_SET, R_EVICT, R_EVICT, R_REM, R_TOTAL, R_NEV]);
        let b = (r.below(3) > 0) as i64;
        p.op(c, "o", &[k as i64, f, b]);
        if r.below(10) == 0 {
            let us = *r.pick(&[1, 30, 2000]);
            p.op(c, "s", &[us]);
        }
    }
    clock(r, p, n);
}
const STUB: &str = "wall and monotonic clock, thread scheduling, getrandom (hash seeds)";
pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C01", rule: "more keys were inserted than the cache holds, by one client or by several at the same time", findings: vec![], real: "FIFOCache, LRUCore, ConcurrentLRUCache, LFUCache, HeapLFUCache, LRUKCache, CacheManager", stub: STUB, probes: &[],
            assumptions: vec!["caches that are not thread-safe are shared behind a RwLock, as the cache manager shares them", "the writers of one page take turns, as the disk manager's page locks make them"],
            scns: vec![
                Scn { name: "history", run: "mem", weight: 3, phases: 1, gen: |r, p, _| gen_cache(r, p, true), judge: cache },
                Scn { name: "shared", run: "mem", weight: 2, phases: 1, gen: |r, p, _| gen_cache(r, p, false), judge: cache },
                Scn { name: "manager", run: "mem", weight: 2, phases: 1, gen: |r, p, _| gen_mgr(r, p), judge: manager },
            ] },
        Check { prop: "C02", rule: "a frame was evicted, in a history of one client or with overlapping operations of several", findings: vec![], real: "LRUKReplacer", stub: STUB, probes: &[],
            assumptions: vec!["the replacer is shared behind a RwLock as the buffer pool shares it: accesses and removals under a read lock"],
            scns: vec![
                Scn { name: "history", run: "mem", weight: 2, phases: 1, gen: |r, p, _| gen_repl(r, p, true), judge: repl },
                Scn { name: "shared", run: "mem", weight: 3, phases: 1, gen: |r, p, _| gen_repl(r, p, false), judge: repl },
            ] },
    ]
}

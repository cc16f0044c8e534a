use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::idx::*;
use scen::util::{OK, STATE};
use std::collections::{BTreeMap, BTreeSet};

fn gen(r: &mut Rng, p: &mut Plan, kind: i64, nc: i64, n: i64) {
    p.set("kind", kind);
    p.set("frames", 250);
    p.set("tasks", (r.below(4) == 0) as i64);
    p.set("rt_blocking", 16);
    p.set("order", *r.pick(&[3, 3, 4, 4, 5, 6, 8, 16]));
    p.set("api", if nc > 1 { 1 } else { r.range(0, 2) });
    p.set("skeys", r.range(0, 1));
    p.set("hdepth", r.range(0, 3));
    p.set("ddepth", r.range(2, 7));
    p.set("bucket", r.range(2, 6));
    let keys = *r.pick(&[6, 14, 40, 120]);
    p.set("keys", keys);
    let stages = r.range(1, 3);
    p.set("stages", stages);
    let flushes = nc > 1 && r.below(2) == 0;
    if flushes {
        // a page that was being flushed when the tree gave it up stays where it is
        p.set("frames", 800);
    }
    let order = r.below(4); // ascending, descending, anything
    let mut next = 0;
    for st in 0..stages {
        // grow, shrink or mix
        let grow = if st == 0 { 80 } else { *r.pick(&[10, 45, 80]) };
        for _ in 0..n / stages {
            let c = (10 * st + r.below(nc as u64) as i64) as u32;
            let k = match order {
                0 => {
                    next += 1;
                    (next - 1) % keys
                }
                1 => {
                    next += 1;
                    keys - 1 - (next - 1) % keys
                }
                _ => r.range(0, keys - 1),
            };
            match r.range(0, 99) {
                0..=69 => p.op(c, if r.range(0, 99) < grow { "i" } else { "d" }, &[k]),
                70..=87 => p.op(c, "g", &[r.range(0, keys - 1)]),
                88..=95 => {
                    let a = r.range(0, keys - 1);
                    let b = (a + *r.pick(&[0, 3, 20, 200]) - 1).max(0);
                    p.op(c, "r", &[a, b])
                }
                96..=97 if nc == 1 => p.op(c, "n", &[]),
                96..=98 if kind != 1 && flushes => p.op(c, "fl", &[]),
                _ => {
                    let us = *r.pick(&[10, 500]);
                    p.op(c, "s", &[us])
                }
            }
        }
    }
}
/// One key: its value, or nothing.
struct Key;
impl Model for Key {
    type S = Option<u64>;
    fn init(&self) -> Self::S {
        None
    }
    fn step(&self, s: &Self::S, o: &OpH) -> Option<Self::S> {
        match o.kind {
            I_INS if o.ok() && o.res[0] == 1 => Some(Some(o.args[1])),
            I_INS if o.ok() => s.is_some().then_some(*s),
            I_DEL if o.ok() => (o.res[0] == s.is_some() as u64).then_some(None),
            I_GET if o.ok() => (o.res.first().copied() == *s).then_some(*s),
            _ => Some(*s),
        }
    }
    fn optional(&self, o: &OpH) -> bool {
        !o.done()
    }
    fn unbounded(&self, o: &OpH) -> bool {
        !o.done()
    }
}
/// One key of the hash table: its values, oldest first. A lookup returns, and a removal takes, the oldest.
struct Bag;
impl Model for Bag {
    type S = Vec<u64>;
    fn init(&self) -> Self::S {
        vec![]
    }
    fn step(&self, s: &Self::S, o: &OpH) -> Option<Self::S> {
        let mut n = s.clone();
        match o.kind {
            I_INS if o.ok() && o.res[0] == 1 => n.push(o.args[1]),
            I_DEL if o.ok() => {
                if (o.res[0] == 1) == n.is_empty() {
                    return None;
                }
                if o.res[0] == 1 {
                    n.remove(0);
                }
            }
            I_GET if o.ok() && o.res.first() != s.first() => return None,
            _ => {}
        }
        Some(n)
    }
    fn optional(&self, o: &OpH) -> bool {
        !o.done()
    }
    fn unbounded(&self, o: &OpH) -> bool {
        !o.done()
    }
}
fn map(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let kind = p.cfg("kind");
    let hash: BTreeMap<u64, u64> = res.hist.iter().filter(|r| r.tag == STATE && r.w[0] == I_HASH).map(|r| (r.w[1], r.w[2])).collect();
    let mut keys: BTreeMap<u64, Vec<OpH>> = (0..p.cfg("keys") as u64).map(|k| (k, vec![])).collect();
    for o in v.iter().filter(|o| (I_INS..=I_ALL).contains(&o.kind)) {
        if !o.ok() {
            if o.done() {
                return bad("failed", format!("an index operation failed: {o:?}"));
            }
            continue;
        }
        match o.kind {
            I_RANGE => {
                let mut last = None;
                let mut m = BTreeMap::new();
                for x in o.res.chunks(2) {
                    let (k, val) = (x[0], x[1]);
                    if kind == 0 && last.is_some_and(|l| l >= k) {
                        return bad("scan-order", format!("a range scan returned key {k} after {}: {o:?}", last.unwrap()));
                    }
                    if k < o.args[0] || k > o.args[1] {
                        return bad("scan-bounds", format!("a range scan returned key {k}, outside its bounds: {o:?}"));
                    }
                    if m.insert(k, val).is_some() {
                        return bad("scan-twice", format!("a range scan returned {k} twice: {o:?}"));
                    }
                    last = Some(k);
                }
                for k in o.args[0]..=o.args[1] {
                    if let Some(h) = keys.get_mut(&k) {
                        h.push(OpH { kind: I_GET, args: vec![k, 0], res: m.remove(&k).into_iter().collect(), status: OK, c: o.c + 1000, ..o.clone() });
                    }
                }
                if let Some((k, _)) = m.into_iter().next() {
                    return bad("scan-stranger", format!("a range scan returned key {k}, which was never inserted: {o:?}"));
                }
            }
            I_INS | I_DEL | I_GET => {
                if o.kind == I_INS && o.res[0] == 0 {
                    if kind == 0 {
                        return bad("refused", format!("an insertion was refused: {o:?}"));
                    }
                    if kind == 2 {
                        // splits can tell keys apart by the low bits of their hashes
                        let low = |k: u64| hash.get(&k).map(|h| h & ((1 << p.cfg("ddepth")) - 1));
                        let same = |x: &&OpH| x.ok() && x.res.first() == Some(&1) && low(x.args[0]) == low(o.args[0]);
                        let put = v.iter().filter(|x| x.kind == I_INS && x.inv < o.ret).filter(same).count() as i64;
                        let gone = v.iter().filter(|x| x.kind == I_DEL && x.ret < o.inv).filter(same).count() as i64;
                        if put - gone < p.cfg("bucket") {
                            return bad("refused", format!("an insertion was refused although at most {} entries can share its bucket of {}: {o:?}", put - gone, p.cfg("bucket")));
                        }
                    }
                }
                keys.entry(o.args[0]).or_default().push(o.clone())
            }
            _ => {}
        }
    }
    let mut nt = false;
    for (k, h) in &keys {
        nt |= overlapping(h) || h.iter().any(|o| o.kind == I_DEL && o.ok() && o.res[0] == 1);
        let lin = if kind == 2 { linearizable(&Bag, h, 100_000) } else { linearizable(&Key, h, 100_000) };
        if let Ok(false) = lin {
            let t: Vec<String> = h.iter().map(|o| format!("{}@{}..{} {}{:?} -> {} {:?}", o.c, o.inv, o.ret, ["insert", "remove", "lookup"][(o.kind - I_INS) as usize], o.args, o.status, o.res)).collect();
            return bad("key-history", format!("key {k}: no order of the operations explains the results (a client above 1000 is a range scan): {}", t.join("; ")));
        }
    }
    // the key list and the counter, read while nothing else ran, agree with the lookups around them
    for o in v.iter().filter(|o| o.c == 91 && o.ok() && matches!(o.kind, I_ALL | I_SIZE)) {
        let have: Vec<u64> = keys.iter().filter(|(_, h)| h.iter().find(|x| x.c % 1000 == 91 && x.inv > o.inv && x.kind == I_GET).is_some_and(|x| !x.res.is_empty())).map(|x| *x.0).collect();
        if o.kind == I_ALL && o.res != have {
            return bad("traversal", format!("the traversal found keys {:?}, lookups found {have:?}", o.res));
        }
        if o.kind == I_SIZE && o.res[0] != have.len() as u64 {
            return bad("size", format!("the tree counts {} keys and holds {}", o.res[0], have.len()));
        }
    }
    Verdict::Ok(nt)
}
struct Node {
    d: u64,
    pg: u64,
    leaf: u64,
    next: u64,
    k: Vec<i64>,
    c: Vec<u64>,
}
fn tree(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let order = p.cfg("order");
    let mut nt = false;
    for o in ops(&res.hist).iter().filter(|o| o.kind == I_CHECK && o.ok()) {
        let ns: Vec<Node> = res
            .hist
            .iter()
            .filter(|r| r.tag == STATE && r.w[0] == I_NODE && r.w[1] == o.id && r.seq > o.inv && r.seq < o.ret)
            .map(|r| {
                let n = r.w[6] as usize;
                Node { d: r.w[2], pg: r.w[3], leaf: r.w[4], next: r.w[5], k: r.w[7..7 + n].iter().map(|k| *k as i64).collect(), c: r.w[7 + n..].to_vec() }
            })
            .collect();
        if let Err(e) = sound(order, o.res[0], o.res[1], &ns) {
            let t: Vec<String> = ns.iter().map(|n| format!("{}{}:{} {:?}{:?}->{}", " ".repeat(n.d as usize), ["node", "leaf", "lost"][n.leaf as usize], n.pg, n.k, n.c, n.next as i64)).collect();
            return bad(e.0, format!("{} (order {order}, height {}): {}", e.1, o.res[1], t.join("; ")));
        }
        if o.res[2] != 1 {
            return bad("leaf-links", format!("the library's own check of the leaf chain fails on a tree that is in order: {o:?}"));
        }
        nt |= ns.len() > 1;
    }
    Verdict::Ok(nt)
}
fn sound(order: i64, root: u64, h: u64, ns: &[Node]) -> Result<(), (&'static str, String)> {
    let m: BTreeMap<u64, &Node> = ns.iter().map(|n| (n.pg, n)).collect();
    if m.len() != ns.len() {
        return Err(("shared-node", "a node has two parents".into()));
    }
    if let Some(n) = ns.iter().find(|n| n.leaf == 2) {
        return Err(("lost-node", format!("page {} cannot be read", n.pg)));
    }
    if ns.is_empty() {
        return if h == 0 { Ok(()) } else { Err(("lost-node", "no root".into())) };
    }
    // depth first, with the bounds each node inherits; leaves come out in key order
    let mut st = vec![(root, i64::MIN, i64::MAX)];
    let mut leaves: Vec<&Node> = vec![];
    let mut seen = BTreeSet::new();
    while let Some((pg, lo, hi)) = st.pop() {
        let n = m.get(&pg).ok_or(("lost-node", format!("page {pg} is referred to but was not reached")))?;
        seen.insert(pg);
        if n.k.windows(2).any(|w| w[0] >= w[1]) {
            return Err(("unsorted", format!("the keys of page {pg} are not in order")));
        }
        if n.k.iter().any(|k| *k < lo || *k >= hi) {
            return Err(("bounds", format!("a key of page {pg} is outside {lo}..{hi}")));
        }
        if n.k.len() as i64 > order {
            return Err(("overfull", format!("page {pg} holds {} keys", n.k.len())));
        }
        let min = if pg == root { 1 } else { order / 2 };
        if (n.k.len() as i64) < min {
            return Err((if n.leaf == 1 { "underfull-leaf" } else { "underfull-node" }, format!("page {pg} holds {} keys", n.k.len())));
        }
        if n.leaf == 1 {
            if n.d != h {
                return Err(("unbalanced", format!("leaf {pg} is at depth {}", n.d)));
            }
            leaves.push(n);
        } else {
            let mut b = vec![lo];
            b.extend(&n.k);
            b.push(hi);
            for i in (0..n.c.len()).rev() {
                st.push((n.c[i], b[i], b[i + 1]));
            }
        }
    }
    for (i, l) in leaves.iter().enumerate() {
        let want = leaves.get(i + 1).map(|l| l.pg as i64).unwrap_or(-1);
        if l.next as i64 != want {
            return Err(("leaf-chain", format!("leaf {} links to {} and not to {want}", l.pg, l.next as i64)));
        }
    }
    Ok(())
}
const REAL: &str = "BPlusTreeIndex, its leaf, internal and header pages, BPlusTree (in memory), DiskExtendableHashTable and its pages, BufferPoolManager, LRUKReplacer, AsyncDiskManager and I/O engine, tokio runtime";
const STUB: &str = "kernel: files under /sim (page cache, durable image, faults), clock, futex/thread scheduling, getrandom";
pub fn checks() -> Vec<Check> {
    fn b1(r: &mut Rng, p: &mut Plan, _: &str) {
        let n = *r.pick(&[20, 60, 250]);
        gen(r, p, 0, 1, n);
    }
    fn bn(r: &mut Rng, p: &mut Plan, _: &str) {
        let n = *r.pick(&[20, 50, 100]);
        let nc = r.range(2, 4);
        gen(r, p, 0, nc, n);
    }
    fn m1(r: &mut Rng, p: &mut Plan, _: &str) {
        let n = *r.pick(&[20, 60, 250]);
        let nc = r.range(1, 3);
        gen(r, p, 1, nc, n);
    }
    fn h1(r: &mut Rng, p: &mut Plan, _: &str) {
        let n = *r.pick(&[20, 60, 250]);
        let nc = r.range(1, 3);
        gen(r, p, 2, nc, n);
    }
    // demonstrations of the recorded defect: an index larger than the pool
    fn b_small(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 0, 1, 250);
        p.set("frames", 12);
        p.set("order", 3);
    }
    fn h_small(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 2, 1, 250);
        p.set("frames", 12);
        p.set("bucket", 2);
        p.set("ddepth", 6);
    }
    fn reload(p: &Plan, res: &Res) -> Verdict {
        match map(p, res) {
            Verdict::Bad(_, m) => bad("reload", m),
            v => v,
        }
    }
    let s = |name: &'static str, weight: u32, gen: fn(&mut Rng, &mut Plan, &str), judge: fn(&Plan, &Res) -> Verdict| Scn { name, run: "idx", weight, phases: 1, gen, judge };
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: vec!["every page of the index fits in the pool"], probes: &[] };
    vec![
        Check {
            findings: vec![("reload", s("tree-small-pool", 1, b_small, reload))],
            ..c("I01", "operations on one key overlapped, or a key was removed", vec![s("tree-one", 3, b1, map), s("tree-many", 4, bn, map), s("tree-mem", 2, m1, map)])
        },
        c("I02", "the tree had more than one node when its shape was examined", vec![s("tree-one", 3, b1, tree), s("tree-many", 3, bn, tree)]),
        Check {
            findings: vec![("reload", s("hash-small-pool", 1, h_small, reload))],
            ..c("I03", "operations on one key overlapped, or a key was removed", vec![s("hash", 1, h1, map)])
        },
    ]
}

use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::cat::*;
use scen::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn gen(r: &mut Rng, p: &mut Plan, phases: u32, style: u64) {
    let dbs = if style == 2 { 1 } else if style == 1 { r.range(2, 3) } else { *r.pick(&[1, 1, 2, 3]) };
    let tabs = r.range(2, 8);
    p.set("rt_workers", r.range(1, 3));
    p.set("rt_blocking", 16);
    p.set("frames", *r.pick(&[24, 32, 64]));
    p.set("dbs", dbs);
    p.set("tabs", tabs);
    p.set("names", *r.pick(&[0, 0, 3, 60, 300]));
    p.set("tasks", (r.below(4) == 0) as i64);
    p.set("phases", phases as i64);
    p.set("crash_mode", 1);
    p.set("rebuild", 1);
    for ph in 0..phases {
        let nc = r.range(1, 4);
        let n = r.range(8, 50);
        if dbs > 1 {
            p.op(ph * 10, "d", &[1]);
        }
        let reb = r.below(2) == 0;
        let size = *r.pick(&[10, 100, 700]);
        let mut txn = [0u32; 4];
        for k in 0..n {
            let ci = r.below(nc as u64) as usize;
            let c = ph * 10 + ci as u32;
            let db = r.range(0, dbs - 1);
            let t = r.range(0, tabs - 1);
            match if k < 4 { 2 } else { r.range(0, 99) } {
                0..=1 => p.op(c, "d", &[db]),
                2..=17 => {
                    let fk = if r.below(4) == 0 { r.range(1, tabs) } else { 0 };
                    p.op(c, "t", &[db, t, r.range(0, 400), fk, r.range(0, 3)])
                }
                18..=27 => p.op(c, "x", &[db, r.range(0, 3), t, r.range(0, 2), r.range(0, 1)]),
                28..=31 if reb => p.op(c, "r", &[db]),
                28..=34 => p.op(c, "l", &[db]),
                35..=42 => p.op(c, "g", &[db, t]),
                43..=48 => p.op(c, "o", &[db, r.range(3, 6 + tabs)]),
                49..=52 => p.op(c, "xo", &[db, t]),
                53..=55 => p.op(c, "xg", &[db, r.range(0, 3)]),
                56..=60 => p.op(c, "sc", &[db, t]),
                61..=63 => p.op(c, "s", &[*r.pick(&[10, 900, 5000])]),
                64 => p.op(c, "ls", &[]),
                65..=75 if txn[ci] > 0 => {
                    p.op(c, if r.below(3) == 0 { "a" } else { "c" }, &[]);
                    txn[ci] = 0;
                }
                _ => {
                    let m = *r.pick(&[1, 1, 2, 6, 20]);
                    p.op(c, "i", &[db, t, r.range(0, size), m, (r.below(4) == 0) as i64]);
                    txn[ci] += 1;
                }
            }
        }
    }
}
#[derive(Clone)]
struct Table {
    oid: u64,
    schema: u64,
    cols: u64,
    rows: Vec<Row>,
}
#[derive(Clone)]
struct Row {
    at: u64,
    txn: u64,
    open: bool,
    vers: Vec<(u64, u64, u64, [u64; 3])>, // inv, ret, row, keys
    gone: (u64, u64),                      // begin and end of what removed it
}
struct Index {
    name: u64,
    table: u64,
    n: u64,
}
/// The rows a reader that works from `lo` to `hi` must and may see: address -> (must, values)
fn visible<'a>(t: &'a Table, lo: u64, hi: u64) -> BTreeMap<u64, (bool, Vec<&'a (u64, u64, u64, [u64; 3])>)> {
    let mut m: BTreeMap<u64, (bool, Vec<_>)> = BTreeMap::new();
    for r in &t.rows {
        let first = &r.vers[0];
        if first.0 > hi || r.gone.1 < lo {
            continue;
        }
        let must = first.1 < lo && r.gone.0 > hi;
        let base = r.vers.iter().rposition(|v| v.1 < lo).unwrap_or(0);
        let vs: Vec<_> = r.vers[base..].iter().filter(|v| v.0 < hi).collect();
        let e = m.entry(r.at).or_default();
        e.0 |= must;
        e.1.extend(vs);
    }
    m
}
fn judge(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let all = ops(&res.hist);
    let starts: Vec<u64> = res.hist.iter().filter(|r| r.tag == NOTE && r.w[0] == 20 && r.w[1] > 0).map(|r| r.seq).collect();
    // entries found in an index right after its creation
    let mut entries: HashMap<(u64, u64), Vec<(u64, u64)>> = HashMap::new(); // start of the life, operation
    let life = |q: u64| starts.iter().filter(|s| **s <= q).count() as u64;
    for r in &res.hist {
        if r.tag == STATE && r.w[0] == C_ENTRY {
            entries.entry((life(r.seq), r.w[1])).or_default().push((r.w[2], r.w[3]));
        }
    }
    // rows first: what every table holds, and since when
    let mut rows: BTreeMap<(u64, u64), Vec<Row>> = BTreeMap::new();
    for o in &all {
        match o.kind {
            C_ROW => {
                if !o.ok() {
                    return bad("insert-refused", format!("a row could not be inserted into table {} of database {}", o.args[1], o.args[0]));
                }
                rows.entry((o.args[0], o.args[1])).or_default().push(Row { at: o.res[0], txn: o.args[3], open: true, vers: vec![(o.inv, o.ret, o.args[2], [o.args[4], o.args[5], o.args[6]])], gone: (u64::MAX, u64::MAX) });
            }
            C_UPD => {
                if !o.ok() {
                    continue; // a longer row need not fit on its page
                }
                let v = (o.inv, o.ret, o.args[3], [o.args[5], o.args[6], o.args[7]]);
                let rs = rows.get_mut(&(o.args[0], o.args[1])).unwrap();
                let i = rs.iter().position(|x| x.at == o.args[2] && x.gone.0 == u64::MAX).unwrap();
                if o.res[0] == o.args[2] {
                    rs[i].vers.push(v);
                } else {
                    rs[i].gone = (o.inv, o.ret);
                    let txn = rs[i].txn;
                    rs.push(Row { at: o.res[0], txn, open: true, vers: vec![v], gone: (u64::MAX, u64::MAX) });
                }
            }
            C_END => {
                if !o.ok() || o.res[0] == 0 {
                    return bad("commit-refused", format!("transaction {} changed only rows of its own and could not commit", o.args[0]));
                }
                for x in rows.values_mut().flatten().filter(|x| x.open && x.txn == o.args[0]) {
                    x.open = false;
                    if o.args[1] == 0 && x.gone.0 == u64::MAX {
                        x.gone = (o.inv, o.ret);
                    }
                }
            }
            _ => {}
        }
    }
    let mut v: Vec<&OpH> = all.iter().filter(|o| o.done()).collect();
    v.sort_by_key(|o| o.ret);
    let mut dbs: BTreeSet<u64> = [0].into();
    let mut tabs: BTreeMap<(u64, u64), Table> = BTreeMap::new();
    let mut saved: BTreeMap<(u64, u64), Table> = BTreeMap::new();
    let mut idx: BTreeMap<(u64, u64), Index> = BTreeMap::new();
    let mut ph = 0;
    for o in v {
        while ph < starts.len() && starts[ph] < o.ret {
            ph += 1;
            dbs = [0].into();
            // what the last rebuild knew of the database that every start opens
            tabs = if p.cfg("rebuild") != 0 { saved.clone() } else { tabs };
            tabs.retain(|k, _| k.0 == 0);
            idx.clear();
        }
        let a = |i: usize| o.args[i];
        let ok = o.status == OK;
        let here = |k: &(u64, u64)| tabs.get(k);
        let found = |o: &OpH, want: Option<(u64, &Table)>, how: String| match want {
            None if o.status == OK => Some(bad("phantom-table", format!("{how} found table {} with id {}, and there is none", o.res[2], o.res[0]))),
            Some((n, t)) if o.status != OK || o.res != [t.oid, t.schema, n] => {
                Some(bad("lost-table", format!("{how} must find table {n} with id {} and its columns, and answered {:?}", t.oid, (o.status == OK).then(|| (o.res[2], o.res[0], o.res[1] == t.schema)))))
            }
            _ => None,
        };
        match o.kind {
            C_DB => {
                let fresh = dbs.insert(a(0));
                if (o.res[0] != 0) != fresh {
                    return bad("database-name", format!("creating database {} which {} answered {}", a(0), if fresh { "is new" } else { "exists" }, o.res[0]));
                }
            }
            C_DBS => {
                if o.res != dbs.iter().copied().collect::<Vec<_>>() {
                    return bad("lost-database", format!("databases {:?} are listed, {dbs:?} exist", o.res));
                }
            }
            C_TAB => {
                let k = (a(0), a(1));
                let free = here(&k).is_none();
                let fk = a(3) == 0 || (a(4) > 0 && here(&(a(0), a(3) - 1)).is_some_and(|t| t.cols == a(4) - 1));
                if ok != (free && fk) {
                    return bad("table-name", format!("creating table {} in database {} ({}, {}) answered {}", a(1), a(0), if free { "a new name" } else { "a name in use" }, if fk { "references are sound" } else { "it references nothing that exists" }, ok));
                }
                if ok {
                    if o.res[1] != a(2) || o.res[2] != a(1) {
                        return bad("table-columns", format!("table {} was created with other columns or another name than asked", a(1)));
                    }
                    if let Some((k, _)) = tabs.iter().find(|(_, t)| t.oid == o.res[0]) {
                        return bad("shared-id", format!("table {} of database {} got id {}, which table {} of database {} has", a(1), a(0), o.res[0], k.1, k.0));
                    }
                    if o.res[0] < 5 {
                        return bad("shared-id", format!("table {} of database {} got id {}, that of a system table", a(1), a(0), o.res[0]));
                    }
                    let cols = a(5);
                    tabs.insert(k, Table { oid: o.res[0], schema: o.res[1], cols, rows: rows.get(&k).cloned().unwrap_or_default().into_iter().filter(|r| r.vers[0].0 > o.inv).collect() });
                }
            }
            C_GET => {
                let k = (a(0), a(1));
                if let Some(v) = found(o, here(&k).map(|t| (a(1), t)), format!("the name {} in database {}", a(1), a(0))) {
                    return v;
                }
            }
            C_OID => {
                let w = tabs.iter().find(|(k, t)| k.0 == a(0) && t.oid == a(1));
                if let Some(v) = found(o, w.map(|(k, t)| (k.1, t)), format!("id {} in database {}", a(1), a(0))) {
                    return v;
                }
            }
            C_LIST => {
                let w: Vec<u64> = tabs.keys().filter(|k| k.0 == a(0)).map(|k| k.1).collect();
                if ok && o.res != w {
                    return bad("table-list", format!("database {} lists tables {:?}, it has {w:?}", a(0), o.res));
                }
            }
            C_REB => {
                let mut keep: BTreeMap<(u64, u64), Table> = saved.clone();
                keep.extend(tabs.iter().map(|(k, t)| (*k, t.clone())));
                saved = keep;
            }
            C_IDX => {
                let used = idx.iter().any(|(k, i)| k.0 == a(0) && i.name == a(1));
                let t = here(&(a(0), a(2)));
                if ok != (t.is_some() && !used) {
                    return bad("index-name", format!("creating index {} on table {} of database {} ({}, {}) answered {}", a(1), a(2), a(0), if used { "a name in use" } else { "a new name" }, if t.is_some() { "the table exists" } else { "no such table" }, ok));
                }
                if ok {
                    if idx.contains_key(&(a(0), o.res[0])) {
                        return bad("shared-id", format!("index {} of database {} got the id {} of another", a(1), a(0), o.res[0]));
                    }
                    if o.res[1] != a(2) {
                        return bad("index-table", format!("index {} is on table {}, not {}", a(1), o.res[1], a(2)));
                    }
                    let col = a(3) as usize;
                    let vis = visible(t.unwrap(), o.inv, o.ret);
                    let none = vec![];
                    let got = entries.get(&(life(o.ret), o.id)).unwrap_or(&none);
                    let mut seen = BTreeSet::new();
                    for (k, r) in got {
                        if !seen.insert(*r) {
                            return bad("index-entry", format!("the new index {} holds row {r:#x} twice", a(1)));
                        }
                        if !vis.get(r).is_some_and(|x| x.1.iter().any(|v| v.3[col] == *k)) {
                            return bad("index-entry", format!("the new index {} points to row {r:#x} with a key that row does not have", a(1)));
                        }
                    }
                    if let Some((r, _)) = vis.iter().find(|(r, x)| x.0 && !seen.contains(r)) {
                        return bad("index-entry", format!("the new index {} lacks row {r:#x} of table {}", a(1), a(2)));
                    }
                    idx.insert((a(0), o.res[0]), Index { name: a(1), table: a(2), n: o.res[2] });
                }
            }
            C_IXOF => {
                let w: Vec<u64> = if here(&(a(0), a(1))).is_some() { idx.iter().filter(|(k, i)| k.0 == a(0) && i.table == a(1)).flat_map(|(k, i)| [k.1, i.name]).collect() } else { vec![] };
                if ok && o.res != w {
                    return bad("index-list", format!("table {} of database {} lists indexes {:?}, it has {w:?}", a(1), a(0), o.res));
                }
            }
            C_IXGET => {
                let w = idx.get(&(a(0), a(1))).map(|i| vec![a(1), i.name, i.n]);
                let got = ok.then(|| o.res.clone());
                if got != w {
                    return bad("lost-index", format!("index id {} of database {} must be {w:?} and is {got:?} (id, name, entries)", a(1), a(0)));
                }
            }
            C_SCAN => {
                let Some(t) = here(&(a(0), a(1))) else { return bad("phantom-table", format!("table {} of database {} was scanned and does not exist", a(1), a(0))) };
                let vis = visible(t, o.inv, o.ret);
                let mut seen = BTreeSet::new();
                for w in o.res.chunks(2) {
                    if !seen.insert(w[0]) {
                        return bad("table-rows", format!("a scan of table {} of database {} shows row {:#x} twice", a(1), a(0), w[0]));
                    }
                    if !vis.get(&w[0]).is_some_and(|x| x.1.iter().any(|v| v.2 == w[1])) {
                        return bad("table-rows", format!("a scan of table {} of database {} shows at {:#x} a row that was never written there", a(1), a(0), w[0]));
                    }
                }
                if let Some((r, _)) = vis.iter().find(|(r, x)| x.0 && !seen.contains(r)) {
                    return bad("table-rows", format!("a scan of table {} of database {} lacks row {r:#x}", a(1), a(0)));
                }
            }
            _ => {}
        }
    }
    Verdict::Ok(overlapping(&all))
}
pub fn checks() -> Vec<Check> {
    fn g1(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 1, 0);
    }
    fn gd(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 1, 1);
    }
    fn g3(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 3, 2);
    }
    // demonstration of the recorded defect: nothing but a rebuild ever saves the catalog
    fn forget(r: &mut Rng, p: &mut Plan, _: &str) {
        gen(r, p, 2, 0);
        p.set("rebuild", 0);
        p.set("dbs", 1);
        p.ops.retain(|o| o.k != "r");
    }
    fn forgotten(p: &Plan, res: &Res) -> Verdict {
        match judge(p, res) {
            Verdict::Bad(_, m) => bad("forgotten", m),
            v => v,
        }
    }
    let s = |name: &'static str, weight: u32, phases: u32, gen: fn(&mut Rng, &mut Plan, &str), judge: fn(&Plan, &Res) -> Verdict| Scn { name, run: "cat", weight, phases, gen, judge };
    vec![Check {
        prop: "G01",
        scns: vec![s("catalog", 3, 1, g1, judge), s("catalog-dbs", 2, 1, gd, judge), s("catalog-restart", 2, 3, g3, judge)],
        findings: vec![("forgotten", s("restart-forgets", 1, 2, forget, forgotten))],
        rule: "catalog or row operations of different clients overlapped",
        real: "catalog, databases, schemas, system tables, table heaps, B+ tree indexes, transaction manager, buffer pool, disk manager",
        stub: "file system, clock, threads and task scheduling (simulated)",
        assumptions: vec!["clients hold the catalog's lock as the library's own users do", "the pool has frames for every client's pinned pages"],
        probes: &[],
    }]
}

use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::stmt::*;
use scen::txn::{X_BEGIN, X_END};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Balances are all encoded in as many bytes, so that an update makes no row longer.
const BAL: i64 = 1000;
/// A handful of rows that everybody reads and changes.
fn crowded(r: &mut Rng, p: &mut Plan) {
    p.set("frames", 16);
    p.set("tables", 1);
    p.set("rows", r.range(1, 4));
    p.set("size", *r.pick(&[1, 20]));
    p.set("rt_blocking", 16);
    p.sched.max_bb = 500_000_000;
    for c in 0..r.range(2, 4) as u32 {
        for _ in 0..r.range(1, 4) {
            p.op(c, "b", &[r.range(2, 4)]);
            for _ in 0..r.range(1, 3) {
                let pr = if r.below(2) == 0 { [0, 0, 0] } else { [1, r.range(0, 3), 0] };
                if r.below(2) == 0 {
                    let set = *r.pick(&[0, 1, 2, 3]);
                    let k = if r.below(5) == 0 { K_DEL } else { K_UPD } as i64;
                    p.op(c, "q", &[k, 0, pr[0], pr[1], 0, set, r.range(1, 30) + if set == 1 { BAL } else { 0 }, 0]);
                } else {
                    let k = *r.pick(&[K_SEL, K_SEL, K_AGG, K_HASH, K_NLJ]) as i64;
                    p.op(c, "q", &[k, 0, pr[0], pr[1], 0, 0, 0, 0]);
                }
            }
            p.op(c, if r.below(3) == 0 { "a" } else { "c" }, &[]);
            if r.below(6) == 0 {
                p.op(c, "gc", &[]);
            }
        }
    }
}
fn gen(r: &mut Rng, p: &mut Plan, style: u64) {
    p.set("frames", *r.pick(&[10, 12, 16, 64]));
    p.set("tables", r.range(1, 2));
    p.set("rows", *r.pick(&[2, 4, 6, 9, 14, 40]));
    p.set("size", *r.pick(&[1, 20, 200, 900]));
    p.set("vs", (r.below(4) == 0) as i64);
    p.set("wide", (r.below(4) == 0) as i64);
    p.set("wal", (r.below(4) == 0) as i64);
    p.set("tasks", (r.below(4) == 0) as i64);
    p.set("rt_blocking", 16);
    p.sched.max_bb = 500_000_000;
    let nc = r.range(1, 4);
    let n = r.range(8, 45);
    let lv = if r.below(2) == 0 { r.range(2, 4) } else { -1 };
    let mut open = [false; 4];
    let mut level = [0i64; 4];
    let mut bulk = 2;
    let one_grp = r.below(3) == 0;
    let opt = |r: &mut Rng| if style == 4 { *r.pick(&[1, 1, 1, 3, 5, 7, 8]) + 16 * r.range(0, 6) + 128 * (r.below(3) == 0) as i64 } else { 0 };
    for _ in 0..n {
        let ci = r.below(nc as u64) as usize;
        let c = ci as u32;
        if !open[ci] {
            level[ci] = if r.below(6) == 0 { 1 } else if lv > 0 { lv } else { r.range(2, 4) };
            p.op(c, "b", &[level[ci]]);
            open[ci] = true;
            continue;
        }
        let t = r.range(0, 1);
        let other = |r: &mut Rng| {
            let k = r.range(7, PREDS as i64 + 2 * (style != 4 && level[ci] >= 2) as i64);
            let g = if one_grp { 1 } else { r.range(0, 4) };
            let a = match k {
                13 | 14 => r.range(0, 9),
                _ => g,
            };
            let b = match k {
                13 | 14 | 16 | 21 => r.range(0, 4),
                15 if r.below(2) == 0 => r.range(0, 6),
                23 => r.range(0, 8),
                k if k == PREDZ as i64 => r.range(0, 300),
                _ => BAL + r.range(0, 60),
            };
            [k, a, b]
        };
        let pr = match if r.below(3) == 0 { 10 } else { r.range(0, 9) } {
            10 => other(r),
            0 => [0, 0, 0],
            1..=3 => [1, r.range(0, 6), 0],
            4..=5 => [2, if one_grp { 1 } else { r.range(0, 4) }, 0],
            6 => [3, BAL + r.range(0, 40), 0],
            7 => {
                let a = r.range(0, 6);
                [4, a, a + r.range(1, 6)]
            }
            8 => [5, r.range(0, 4), BAL + r.range(0, 60)],
            _ => [6, r.range(0, 4), 0],
        };
        let k = r.range(0, 99);
        let w = if style == 1 { 35 } else { 50 };
        if k < w && level[ci] >= 2 {
            let kind = match r.range(0, 13) {
                0..=1 => K_INS,
                2 => K_INSV,
                3 => K_INSSEL,
                4..=10 => K_UPD,
                _ => K_DEL,
            } as i64;
            if kind == K_INS as i64 || kind == K_INSV as i64 {
                let m = if bulk > 0 && r.below(12) == 0 {
                    bulk -= 1;
                    *r.pick(&[30, 99, 100, 110])
                } else {
                    *r.pick(&[1, 1, 2, 3])
                };
                let g = r.range(0, 4) + if r.below(4) == 0 { 10 } else { 0 };
                p.op(c, "q", &[kind, t, r.range(0, 9), g, BAL + r.range(0, 50), 0, 0, m, opt(r)]);
            } else if kind == K_INSSEL as i64 {
                // doubling the table again and again would make the runs long
                p.op(c, "q", &[kind, t, 1, r.range(0, 6), 0, 0, 0, r.range(0, 1), opt(r)]);
            } else {
                let set = r.range(0, 5);
                p.op(c, "q", &[kind, t, pr[0], pr[1], pr[2], set, r.range(1, 30) + if set == 1 { BAL } else { 0 }, 0, opt(r)]);
            }
        } else if k < 82 {
            let kind = if level[ci] < 2 { K_SEL } else { *r.pick(&[K_SEL, K_SEL, K_SORT, K_LIMIT, K_OFFSET, K_TOPN, K_TOPNULL, K_SORTG, K_AGG, K_AGG, K_GROUP, K_NLJ, K_LEFT, K_HASH, K_DISTINCT, K_PROJ, K_RIGHT, K_FULL, K_CROSS, K_TOPG, K_WIN, K_NIJ, K_CNT, K_GSORT, K_JAGG, K_EXPR, K_AGGX, K_THETA]) } as i64;
            let kind = if style == 4 && level[ci] >= 2 { *r.pick(&[K_SEL, K_SORT, K_SORTG, K_LIMIT, K_OFFSET, K_AGG, K_GROUP, K_GSORT, K_DISTINCT, K_PROJ, K_NLJ, K_LEFT, K_RIGHT, K_FULL, K_JAGG, K_HAVING, K_JOIN2, K_JOIN3, K_RESORT, K_PROJ2, K_DERIVED, K_EXPR, K_AGGX]) as i64 } else { kind };
            let kind = if kind as u64 == K_JOIN3 && bulk < 2 { K_JOIN2 as i64 } else { kind };
            // the product of two large tables would make the runs long
            let pr = if kind as u64 == K_JOIN3 || bulk < 2 && pairs(kind as u64) && (style == 4 || !matches!(kind as u64, K_HASH | K_JAGG)) { [1, r.range(0, 6), 0] } else { pr };
            let n = r.range((style == 4) as i64, 5);
            p.op(c, "q", &[kind, t, pr[0], pr[1], pr[2], 0, 0, n, opt(r)]);
        } else if k < 95 {
            p.op(c, if r.below(4) == 0 { "a" } else { "c" }, &[]);
            open[ci] = false;
        } else if k < 97 {
            p.op(c, "gc", &[]);
        } else {
            let us = *r.pick(&[10, 500, 20_000]);
            p.op(c, "s", &[us]);
        }
    }
}
type Row = [u64; 4];
type Id = (u64, u64, u64); // inserting transaction, tag, number
struct St {
    o: OpH,
    /// rows the statement changes, in the model
    target: Vec<Id>,
    verdict: Option<Verdict>, // what is wrong with a query's answer
    count: Option<Verdict>,   // what is wrong with the number of rows changed
    undef: bool,              // its condition has no value for some row
}
struct T {
    lv: u64,
    snap: u64,
    b: (u64, u64),
    e: (u64, u64),
    want: bool,
    done: bool,
    ts: u64,
    st: Vec<St>,
}
struct V {
    ts: u64,
    row: Option<Row>,
    txn: u64,
    e: (u64, u64),
}
struct H {
    t: BTreeMap<u64, T>,
    v: BTreeMap<(u64, Id), Vec<V>>, // table, row
    end: u64,
    uniq: bool,
    first: u64, // the transaction that fills the tables
}
type View = BTreeMap<(u64, Id), Row>;
fn show(v: &[u64], w: usize) -> String {
    let mut r: Vec<_> = v.chunks(w.max(1)).map(|c| c.iter().map(|x| if *x == NULLV { "null".into() } else if *x == BADV { "garbage".into() } else { (*x as i64).to_string() }).collect::<Vec<_>>().join(":")).collect();
    r.sort();
    let n = r.len();
    r.truncate(40);
    format!("{n} rows [{}]", r.join(" "))
}
fn multi(v: Vec<Vec<u64>>) -> Vec<Vec<u64>> {
    let mut v = v;
    v.sort();
    v
}
fn order(a: &Row, b: &Row) -> std::cmp::Ordering {
    (b[2] as i64).cmp(&(a[2] as i64)).then((a[0] as i64).cmp(&(b[0] as i64)))
}
fn key(r: &[u64]) -> (i64, i64) {
    (r[2] as i64, r[0] as i64)
}
fn agg(rows: &[Row]) -> Vec<u64> {
    let b = |r: &Row| r[2] as i64;
    vec![rows.len() as u64, rows.iter().map(b).sum::<i64>() as u64, rows.iter().map(b).min().map(|x| x as u64).unwrap_or(NULLV), rows.iter().map(b).max().map(|x| x as u64).unwrap_or(NULLV)]
}
fn groups(src: &[Row]) -> Vec<Vec<u64>> {
    let g: BTreeSet<u64> = src.iter().map(|r| r[1]).collect();
    g.iter()
        .map(|g| {
            let mut v = vec![*g];
            v.extend(agg(&src.iter().filter(|r| r[1] == *g).copied().collect::<Vec<_>>()));
            v
        })
        .collect()
}
/// The rows of `t` in the view that the statement's condition selects.
fn select(view: &View, t: u64, o: &OpH) -> Vec<(Id, Row)> {
    view.iter().filter(|(k, r)| k.0 == t && holds(o.args[3], o.args[4], o.args[5], &r[..])).map(|(k, r)| (k.1, *r)).collect()
}
/// Group and number; NULL comes first.
fn by_group(r: &[u64]) -> (Option<u64>, i64) {
    ((r[1] != NULLV).then_some(r[1]), r[0] as i64)
}
/// What is wrong with the answer `res`, given the rows of the view?
fn answer(view: &View, o: &OpH) -> Option<String> {
    let (kind, t, n) = (o.args[1], o.args[2], o.args[9] as usize);
    let src: Vec<Row> = select(view, t, o).into_iter().map(|x| x.1).collect();
    let wide = match kind {
        K_JOIN3 => 12,
        K_DERIVED => 6,
        K_GROUP | K_AGGX | K_WIN | K_GSORT | K_JAGG | K_HAVING => 5,
        k if pairs(k) => 8,
        K_DISTINCT => 1,
        K_PROJ | K_PROJ2 | K_CNT => 2,
        _ => 4,
    };
    if o.res.len() % wide != 0 {
        return Some(format!("{} values", o.res.len()));
    }
    let got: Vec<Vec<u64>> = o.res.chunks(wide).map(|c| c.to_vec()).collect();
    let other = || -> Vec<Row> { view.iter().filter(|(k, _)| k.0 == o.args[9]).map(|x| *x.1).collect() };
    let mut sorted = src.clone();
    sorted.sort_by(order);
    let want: Vec<Vec<u64>> = match kind {
        K_AGG => vec![agg(&src)],
        K_GROUP | K_GSORT => groups(&src),
        K_EXPR => src
            .iter()
            .map(|r| {
                let (id, g, bal) = (r[0] as i64, r[1], r[2] as i64);
                let case = if g <= 1 { bal } else if id < 5 { 7 } else { id };
                [id - 2 * bal, case, (g == 2) as i64, -id].map(|x| x as u64).to_vec()
            })
            .collect(),
        K_AGGX => src
            .iter()
            .map(|r| r[1])
            .collect::<BTreeSet<_>>()
            .into_iter()
            .map(|g| {
                let m: Vec<(i64, i64)> = src.iter().filter(|r| r[1] == g).map(|r| (r[0] as i64, r[2] as i64)).collect();
                let max = m.iter().map(|(id, b)| if *id < 4 { *b } else { *id }).max().unwrap();
                vec![g, m.iter().map(|(id, b)| b - id).sum::<i64>() as u64, m.iter().map(|(id, b)| id - b).min().unwrap() as u64, max as u64, m.iter().filter(|x| x.0 < 4).count() as u64]
            })
            .collect(),
        K_HAVING => groups(&src).into_iter().filter(|g| g[1] > o.args[9]).collect(),
        K_JOIN3 => src
            .iter()
            .flat_map(|a| other().into_iter().filter(|b| b[1] == a[1] && a[1] != NULLV).map(|b| [*a, b]).collect::<Vec<_>>())
            .flat_map(|ab| view.iter().filter(|(k, c)| k.0 == t && c[0] == ab[1][0]).map(|(_, c)| [ab[0], ab[1], *c].concat()).collect::<Vec<_>>())
            .collect(),
        K_JOIN2 => src.iter().flat_map(|a| other().into_iter().filter(|b| b[1] == a[1] && a[1] != NULLV && b[0] == a[0]).map(|b| [*a, b].concat()).collect::<Vec<_>>()).collect(),
        K_DERIVED => src.iter().flat_map(|a| other().into_iter().filter(|b| b[0] == a[0]).map(|b| [&a[..], &[b[2], b[0]][..]].concat()).collect::<Vec<_>>()).collect(),
        K_JAGG => groups(&src.iter().flat_map(|a| other().into_iter().filter(|b| b[1] == a[1] && a[1] != NULLV).map(|_| *a).collect::<Vec<_>>()).collect::<Vec<_>>()),
        K_CNT => {
            let sum: i64 = src.iter().map(|r| r[2] as i64).sum();
            let avg = (sum as f64 / src.len() as f64 * 60.0).round() as i64 as u64;
            vec![vec![src.iter().filter(|r| r[1] != NULLV).count() as u64, if src.is_empty() { NULLV } else { avg }]]
        }
        k if pairs(k) => {
            let other = other();
            let mut v = vec![];
            let mut used = BTreeSet::new();
            for a in &src {
                let mut hit = false;
                for (i, b) in other.iter().enumerate().filter(|b| kind == K_CROSS || b.1[1] == a[1] && a[1] != NULLV && (kind != K_THETA || (a[0] as i64) < b.1[0] as i64)) {
                    v.push([&a[..], &b[..]].concat());
                    used.insert(i);
                    hit = true;
                }
                if !hit && matches!(kind, K_LEFT | K_FULL) {
                    v.push([&a[..], &[NULLV; 4][..]].concat());
                }
            }
            if matches!(kind, K_RIGHT | K_FULL) {
                v.extend(other.iter().enumerate().filter(|b| !used.contains(&b.0)).map(|b| [&[NULLV; 4][..], &b.1[..]].concat()));
            }
            v
        }
        K_TOPG | K_WIN => {
            let g: BTreeSet<u64> = src.iter().map(|r| r[1]).collect();
            let mut v = vec![];
            for g in g {
                let mut m: Vec<&Row> = src.iter().filter(|r| r[1] == g).collect();
                m.sort_by_key(|r| key(&r[..]));
                if kind == K_TOPG {
                    v.extend(m.iter().rev().take(n).map(|r| r.to_vec()));
                } else {
                    v.extend(m.iter().enumerate().map(|(i, r)| [&r[..], &[i as u64 + 1][..]].concat()));
                }
            }
            v
        }
        K_DISTINCT => src.iter().map(|r| r[1]).collect::<BTreeSet<_>>().into_iter().map(|g| vec![g]).collect(),
        K_PROJ | K_PROJ2 => src.iter().map(|r| vec![r[2], r[0]]).collect(),
        K_LIMIT | K_RESORT => sorted.iter().take(n).map(|r| r.to_vec()).collect(),
        K_OFFSET => sorted.iter().skip(n).map(|r| r.to_vec()).collect(),
        K_TOPNULL => {
            sorted.sort_by_key(|r| std::cmp::Reverse(by_group(r)));
            sorted.iter().take(n).map(|r| r.to_vec()).collect()
        }
        K_TOPN => {
            sorted.sort_by_key(|r| std::cmp::Reverse(key(r)));
            sorted.iter().take(n).map(|r| r.to_vec()).collect()
        }
        _ => src.iter().map(|r| r.to_vec()).collect(),
    };
    if matches!(kind, K_SORT | K_LIMIT | K_OFFSET) && got.windows(2).any(|w| key(&w[0]).0 < key(&w[1]).0 || key(&w[0]).0 == key(&w[1]).0 && key(&w[0]).1 > key(&w[1]).1) {
        return Some(format!("out of order: {}", show(&o.res, wide)));
    }
    if kind == K_RESORT && got.windows(2).any(|w| (w[0][0], w[0][3]) > (w[1][0], w[1][3])) {
        return Some(format!("not in the outer order: {:?}", got.iter().map(|r| (r[0], r[3])).collect::<Vec<_>>()));
    }
    if kind == K_TOPNULL && got.windows(2).any(|w| by_group(&w[0]) < by_group(&w[1])) {
        return Some(format!("groups not from the top down: {}", show(&o.res, wide)));
    }
    if kind == K_SORTG && got.windows(2).any(|w| (by_group(&w[1]).0, w[0][0] as i64) > (by_group(&w[0]).0, w[1][0] as i64)) {
        return Some(format!("groups out of order: {}", show(&o.res, wide)));
    }
    if kind == K_TOPN && got.windows(2).any(|w| key(&w[0]) < key(&w[1])) {
        return Some(format!("not from the top down: {}", got.iter().map(|r| format!("{:?}", key(r))).collect::<Vec<_>>().join(" ")));
    }
    if kind == K_GSORT && got.windows(2).any(|w| w[0][1] < w[1][1] || w[0][1] == w[1][1] && w[0][0] != NULLV && w[1][0] != NULLV && w[0][0] > w[1][0]) {
        return Some(format!("out of order: {}", show(&o.res, wide)));
    }
    let same = if matches!(kind, K_LIMIT | K_RESORT | K_OFFSET | K_TOPN | K_TOPNULL | K_TOPG | K_WIN) {
        // rows that compare equal may stand in for one another
        let ks = |v: &[Vec<u64>]| {
            let key = |r: &[u64]| if kind == K_TOPNULL { vec![r[0], r[1]] } else { [&[r[0], r[2]][..], &r[1..1 + matches!(kind, K_TOPG | K_WIN) as usize], &r[4..]].concat() };
            multi(v.iter().map(|r| key(r)).collect())
        };
        let all = multi(src.iter().map(|r| r.to_vec()).collect());
        ks(&got) == ks(&want) && {
            let mut pool = all;
            got.iter().all(|g| pool.iter().position(|x| x[..] == g[..4]).map(|i| drop(pool.remove(i))).is_some())
        }
    } else if kind == K_AGG && src.is_empty() {
        // the sum, least and greatest of nothing are a matter of convention
        got.len() == 1 && got[0][0] == 0
    } else {
        multi(got) == multi(want.clone())
    };
    (!same).then(|| format!("{}, instead of {}", show(&o.res, wide), show(&want.concat(), wide)))
}
fn history(p: &Plan, res: &Res) -> H {
    let mut t: BTreeMap<u64, T> = BTreeMap::new();
    for x in ops(&res.hist) {
        match x.kind {
            X_BEGIN if x.ok() => drop(t.insert(x.res[0], T { lv: x.args[0], snap: x.res[1], b: (x.inv, x.ret), e: (u64::MAX, u64::MAX), want: false, done: false, ts: 0, st: vec![] })),
            X_END => {
                if let Some(t) = t.get_mut(&x.args[0]) {
                    t.e = (x.inv, x.ret);
                    t.want = x.args[1] == 1;
                    t.done = x.ok() && x.res[0] == 1;
                    t.ts = if t.done { x.res[1] } else { 0 };
                }
            }
            X_STMT => {
                if let Some(t) = t.get_mut(&x.args[0]) {
                    t.st.push(St { o: x, target: vec![], verdict: None, count: None, undef: false })
                }
            }
            _ => {}
        }
    }
    let end = res.hist.iter().find(|x| x.tag == scen::util::STATE && x.w[0] == 90).map(|x| x.seq).unwrap_or(u64::MAX);
    let first = t.keys().next().copied().unwrap_or(0);
    let mut h = H { t, v: BTreeMap::new(), end, uniq: p.cfg("uniq") == 2, first };
    // a snapshot only holds what committed earlier: replay the commits in order, then the rest
    let mut ids: Vec<(bool, u64, u64)> = h.t.iter().map(|(id, t)| (!t.done, t.ts, *id)).collect();
    ids.sort();
    for (_, _, id) in ids {
        let x = h.t.remove(&id).unwrap();
        let x = h.replay(id, x);
        h.t.insert(id, x);
    }
    h
}
impl H {
    fn view(&self, snap: u64) -> View {
        self.v.iter().filter_map(|(k, v)| v.iter().filter(|v| v.ts < snap).last().and_then(|v| v.row).map(|r| (*k, r))).collect()
    }
    fn replay(&mut self, id: u64, mut x: T) -> T {
        let mut view = self.view(x.snap);
        let mut wrote: BTreeMap<(u64, Id), Option<Row>> = BTreeMap::new();
        for s in &mut x.st {
            let o = &s.o;
            let (kind, t, tag) = (o.args[1], o.args[2], o.args[8]);
            let sel = |src: u64| select(&view, src, o);
            if !matches!(kind, K_INS | K_INSV) && x.lv >= 2 {
                let src = if kind == K_INSSEL { o.args[9] } else { t };
                s.undef = view.iter().any(|(k, r)| k.0 == src && undefined(o.args[3], o.args[4], &r[..]));
                if s.undef && o.ok() && (o.args[9] > 0 || !matches!(kind, K_LIMIT | K_TOPN | K_TOPNULL | K_TOPG)) {
                    let v = bad("undefined", format!("transaction {id} (level {}, snapshot {}) at {}..{}, statement {:?} succeeds although its condition has no value for a row", x.lv, x.snap, o.inv, o.ret, &o.args[1..]));
                    s.verdict = Some(v.clone());
                    s.count = Some(v);
                    continue;
                }
            }
            let mut ch: Vec<((u64, Id), Option<Row>)> = vec![];
            match kind {
                K_INS | K_INSV => ch.extend((0..o.args[9]).map(|j| ((t, (id, tag, j)), Some(inserted(&o.args, j))))),
                K_INSSEL => ch.extend(sel(o.args[9]).into_iter().enumerate().map(|(j, r)| ((t, (id, tag, j as u64)), Some(r.1)))),
                K_DEL => ch.extend(sel(t).into_iter().map(|r| ((t, r.0), None))),
                K_UPD => {
                    ch.extend(sel(t).into_iter().map(|(k, r)| {
                        let mut n = r;
                        match o.args[6] {
                            1 => n[2] = o.args[7],
                            2 => n[1] = o.args[7] % 5,
                            4 | 5 => {
                                n[2] = n[2].wrapping_add(n[0]);
                                n[0] = o.args[7];
                            }
                            _ => n[2] = n[2].wrapping_add(o.args[7]),
                        }
                        n[3] = tag;
                        ((t, k), Some(n))
                    }));
                }
                _ => {
                    if o.ok() && x.lv >= 2 {
                        // an index that holds the table's first rows only
                        let class = if self.uniq && answer(&view.iter().filter(|r| r.0 .1 .0 == self.first).map(|r| (*r.0, *r.1)).collect(), o).is_none() { "stale-index" } else { "answer" };
                        s.verdict = answer(&view, o).map(|w| bad(class, format!("transaction {id} (level {}, snapshot {}) at {}..{}, statement {:?}: {w}", x.lv, x.snap, o.inv, o.ret, &o.args[1..])));
                    }
                    continue;
                }
            }
            if o.ok() && matches!(kind, K_UPD | K_DEL) {
                let want: Vec<u64> = if ch.is_empty() { vec![] } else { vec![ch.len() as u64] };
                if o.res != want {
                    s.count = Some(bad("rows-changed", format!("transaction {id} (level {}, snapshot {}) at {}..{}, statement {:?} reports {:?} changed rows; its condition selects {}", x.lv, x.snap, o.inv, o.ret, &o.args[1..], o.res, ch.len())));
                }
            }
            for (k, r) in ch {
                s.target.push(k.1);
                match r {
                    Some(r) => drop(view.insert(k, r)),
                    None => drop(view.remove(&k)),
                }
                wrote.insert(k, r);
            }
        }
        if x.done {
            for (k, row) in wrote {
                self.v.entry(k).or_default().push(V { ts: x.ts, row, txn: id, e: x.e });
            }
        }
        x
    }
    fn committed(&self, v: &[V], inv: u64, ret: u64) -> Vec<Option<Row>> {
        let mut out = vec![];
        if !v.iter().any(|x| x.e.1 < inv) {
            out.push(None);
        }
        for (i, x) in v.iter().enumerate() {
            if x.e.0 <= ret && !v[i + 1..].iter().any(|y| y.e.1 < inv) {
                out.push(x.row);
            }
        }
        out
    }
    /// a query that reads whatever is committed: every row it must or may return
    fn loose(&self, x: &T, o: &OpH) -> Option<String> {
        if x.st.iter().any(|s| s.o.args[1] < K_SEL) || o.args[1] != K_SEL {
            return None;
        }
        let mut m: HashMap<Vec<u64>, (usize, usize)> = HashMap::new();
        for (k, v) in self.v.iter().filter(|k| k.0 .0 == o.args[2]) {
            let c = self.committed(v, o.inv, o.ret);
            let set: BTreeSet<Option<Row>> = c.iter().map(|r| r.filter(|r| holds(o.args[3], o.args[4], o.args[5], r))).collect();
            let _ = k;
            for r in set.iter().flatten() {
                let e = m.entry(r.to_vec()).or_default();
                e.1 += 1;
                e.0 += (set.len() == 1) as usize;
            }
        }
        let mut got: HashMap<Vec<u64>, usize> = HashMap::new();
        o.res.chunks(4).for_each(|r| *got.entry(r.to_vec()).or_default() += 1);
        for (r, n) in &got {
            if m.get(r).map(|x| x.1).unwrap_or(0) < *n {
                return Some(format!("row {} returned {n} times", show(r, 4)));
            }
        }
        m.iter().find(|(r, n)| got.get(*r).copied().unwrap_or(0) < n.0).map(|(r, n)| format!("row {} was committed all the while {} times and is missing", show(r, 4), n.0))
    }
    /// may statement `s` of transaction `a` fail?
    fn excused(&self, p: &Plan, a: u64, x: &T, s: &St) -> bool {
        let o = &s.o;
        if o.args[1] < K_UPD || o.args[1] > K_DEL {
            return false;
        }
        // a row that grows may find no room on its page
        let grows = p.cfg("vs") != 0 || o.args[6] == 2 && self.all().any(|z| matches!(z.2.o.args[1], K_INS | K_INSV) && z.2.o.args[4] >= 10);
        if grows && o.args[1] == K_UPD && !s.target.is_empty() {
            return true;
        }
        s.target.iter().any(|k| {
            self.t.iter().any(|(b, y)| *b != a && y.e.1 >= o.inv && y.st.iter().any(|z| z.o.args[1] <= K_DEL && z.o.args[2] == o.args[2] && z.target.contains(k) && z.o.inv <= o.ret))
                || self.v.get(&(o.args[2], *k)).is_some_and(|v| v.iter().any(|v| v.ts > x.snap && v.e.0 <= o.ret))
        })
    }
    fn all(&self) -> impl Iterator<Item = (u64, &T, &St)> {
        self.t.iter().flat_map(|(a, x)| x.st.iter().map(move |s| (*a, x, s)))
    }
    fn busy(&self) -> bool {
        self.all().any(|(a, x, s)| s.o.args[1] <= K_DEL && s.o.ok() && self.t.iter().any(|(b, y)| a != *b && y.b.0 < x.e.1 && x.b.0 < y.e.1 && !y.st.is_empty()))
    }
}
/// Tables with an index, made by whichever statement the optimiser sees first. They are only read from then on, for nothing maintains it.
fn indexed(r: &mut Rng, p: &mut Plan) {
    gen(r, p, 4);
    p.set("uniq", 1);
    for o in p.ops.iter_mut().filter(|o| o.k == "q") {
        if o.a[0] <= K_DEL as i64 {
            o.a[0] = K_SEL as i64;
            o.a[1] %= 2;
            o.a[2] = 0;
            o.a[3] = r.range(0, 6);
            o.a[4] = 0;
            o.a[5] = 0;
            o.a[6] = 0;
        }
    }
}
/// Rows that come after the index.
fn later(r: &mut Rng, p: &mut Plan) {
    p.set("frames", 64);
    p.set("tables", 1);
    p.set("rows", r.range(2, 9));
    p.set("size", 20);
    p.set("rt_blocking", 16);
    p.set("uniq", 2);
    for _ in 0..3 {
        p.op(0, "b", &[r.range(2, 4)]);
        p.op(0, "q", &[K_SEL as i64, 0, 0, 0, 0, 0, 0, 0, 1]);
        p.op(0, "q", &[K_INS as i64, 0, r.range(20, 30), 1, BAL, 0, 0, 2, 0]);
        p.op(0, "c", &[]);
    }
}
/// E01
fn queries(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(p, res);
    for (a, x, s) in h.all() {
        if let Some(v) = &s.verdict {
            return v.clone();
        }
        let o = &s.o;
        if o.args[1] >= K_SEL && o.done() && !o.ok() && !faulty(p) && !s.undef {
            return bad("query-failed", format!("transaction {a}: {:?}", &o.args[1..]));
        }
        if x.lv == 1 && o.ok() {
            if let Some(w) = h.loose(x, o) {
                return bad("answer-committed", format!("transaction {a} (level 1) at {}..{}, statement {:?}: {w}", o.inv, o.ret, &o.args[1..]));
            }
        }
    }
    Verdict::Ok(h.busy())
}
/// E02
fn effects(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(p, res);
    for (a, x, s) in h.all() {
        if let Some(v) = &s.count {
            return v.clone();
        }
        if s.o.done() && !s.o.ok() && !faulty(p) && s.o.args[1] <= K_DEL && !s.undef && !h.excused(p, a, x, s) {
            return bad("refused", format!("transaction {a} (level {}, snapshot {}): statement {:?} at {}..{} failed although nobody else was changing its rows", x.lv, x.snap, &s.o.args[1..], s.o.inv, s.o.ret));
        }
    }
    for (k, v) in &h.v {
        for w in v.windows(2) {
            if w[1].ts > w[0].ts && h.t[&w[1].txn].snap < w[0].ts {
                return bad("lost-update", format!("row {k:?}: transaction {} (snapshot {}) replaced what transaction {} committed at {}", w[1].txn, h.t[&w[1].txn].snap, w[0].txn, w[0].ts));
            }
        }
    }
    for (id, t) in &h.t {
        if t.want && !t.done && t.e.1 != u64::MAX && !faulty(p) {
            return bad("commit-refused", format!("transaction {id} could not commit"));
        }
    }
    for (_, x, s) in h.all().filter(|x| x.2.o.inv > h.end) {
        if let Some(Verdict::Bad(_, d)) = &s.verdict {
            return bad("final-state", d.clone());
        }
        if let Some(w) = (x.lv == 1 && s.o.ok()).then(|| h.loose(x, &s.o)).flatten() {
            return bad("final-state", w);
        }
    }
    Verdict::Ok(h.busy())
}
/// Few frames, unreadable pages: statements may fail, but those that do not are right.
fn starved(r: &mut Rng, p: &mut Plan) {
    gen(r, p, 1);
    let f = *r.pick(&[2, 3, 3, 4, 5, 6, 8, 12]);
    p.set("frames", f);
    p.set("rows", *r.pick(&[9, 14, 25, 40, 60]));
    p.set("size", *r.pick(&[200, 600, 900, 1800]));
    p.set("few", 1);
    p.set("cache", *r.pick(&[0, 1, 16]));
    if r.below(3) > 0 {
        for _ in 0..r.range(1, 6) {
            let k = *r.pick(&["eio_r", "eio_r", "short_r", "eintr", "lat"]);
            let arg = match k {
                "eio_r" => r.range(1, 4),
                "short_r" => r.range(1, 99),
                "lat" => *r.pick(&[1, 5, 50]),
                _ => 0,
            };
            p.faults.push(simcore::Fault { k: k.into(), n: r.range(1, 60) as u64, arg, file: "t.db".into(), phase: 0 });
        }
    }
}
fn ending(r: &mut Rng, p: &mut Plan) {
    starved(r, p);
    p.set("few", 2);
    p.set("cache", 0);
    p.set("frames", r.range(2, 4));
    p.set("rows", *r.pick(&[25, 40]));
    p.faults.clear();
    p.faults.push(simcore::Fault { k: "eio_r".into(), n: r.range(0, 5) as u64, arg: 1000, file: "t.db".into(), phase: 0 });
}
fn ended(p: &Plan, res: &Res) -> Verdict {
    match partial(p, res) {
        Verdict::Bad(c, m) if matches!(c.as_str(), "answer" | "answer-committed" | "rows-changed") => bad("unended", m),
        v => v,
    }
}
/// E03
fn partial(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let h = history(p, res);
    let mut failed = false;
    for (a, x, s) in h.all() {
        let o = &s.o;
        failed |= o.done() && !o.ok();
        if let Some(v) = s.count.as_ref().or(s.verdict.as_ref()) {
            return v.clone();
        }
        if x.lv == 1 && o.ok() {
            if let Some(w) = h.loose(x, o) {
                return bad("answer-committed", format!("transaction {a} (level 1) at {}..{}, statement {:?}: {w}", o.inv, o.ret, &o.args[1..]));
            }
        }
    }
    Verdict::Ok(failed)
}
fn faulty(p: &Plan) -> bool {
    !p.faults.is_empty()
}
const REAL: &str = "Insert, Update, Delete, SeqScan, Filter, Sort, Limit, Offset, TopN, Aggregation, Distinct, Projection, Values, TopNPerGroup, Window, NestedIndexJoin, NestedLoopJoin and HashJoin executors with their plans and expressions, ExecutionContext, Catalog, TransactionManager, TransactionalTableHeap, TableHeap, TablePage, buffer pool, WAL (in part of the runs), disk manager, tokio runtime";
const STUB: &str = "kernel: files, clock, sleeping, futex/thread scheduling; SQL text: the parser and planner are not in the subset that builds offline, so plans are built directly";
const REAL4: &str = "LogicalPlan, Optimizer with all its rules and options, conversion to physical plans, and all executors the result needs, with Catalog, TransactionManager, TransactionalTableHeap, TableHeap, buffer pool, WAL (in part of the runs), disk manager, tokio runtime";
const STUB4: &str = "kernel: files, clock, sleeping, futex/thread scheduling; SQL text: the parser and plan builder are not in the subset that builds offline, so logical plans are built as the plan builder builds them";
pub fn checks() -> Vec<Check> {
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: vec!["a transaction is used by one client at a time", "a client whose statement fails aborts the transaction"], probes: &[] };
    let rule = "a statement changed rows while another transaction was under way";
    vec![
        c("E01", rule, vec![Scn { name: "queries", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 1), judge: queries }, Scn { name: "crowded", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| crowded(r, p), judge: queries }]),
        Check { findings: vec![("unended", Scn { name: "end-starved", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| ending(r, p), judge: ended })], ..c("E03", "a statement failed", vec![Scn { name: "starved", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| starved(r, p), judge: partial }]) },
        Check { real: REAL4, stub: STUB4, findings: vec![("stale-index", Scn { name: "later", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| later(r, p), judge: queries })], ..c("E04", rule, vec![Scn { name: "planned", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 4), judge: queries }, Scn { name: "planned-changes", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 4), judge: effects }, Scn { name: "indexed", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| indexed(r, p), judge: queries }]) },
        c("E02", rule, vec![Scn { name: "changes", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 2), judge: effects }, Scn { name: "crowded", run: "stmt", weight: 1, phases: 1, gen: |r, p, _| crowded(r, p), judge: effects }]),
    ]
}

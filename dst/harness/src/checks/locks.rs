use super::*;
use crate::engine::{abnormal, bad};
use crate::judge::*;
use scen::locks::*;
use scen::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// modes: 0 IS, 1 IX, 2 S, 3 SIX, 4 X
fn compatible(a: u64, b: u64) -> bool {
    match (a.min(b), a.max(b)) {
        (0, x) => x != 4,
        (1, 1) | (2, 2) => true,
        _ => false,
    }
}
fn gen(r: &mut Rng, p: &mut Plan, style: u64) {
    let nt = r.range(1, 3);
    let nr = r.range(1, 3);
    p.set("tables", nt);
    p.set("rows", nr);
    p.set("poll", *r.pick(&[200, 1000, 7000, 30_000]));
    p.set("desc", r.range(0, 1));
    // some transactions give up waiting, and withdraw
    p.set("patience", if r.below(3) == 0 { r.range(1, 20) } else { 0 });
    // or only the transactions of some clients do
    p.set("quitters", if r.below(2) == 0 { 15 } else { r.range(1, 15) });
    let nc = r.range(2, 4);
    let lv = if r.below(3) == 0 { r.range(0, 4) } else { -1 };
    let n = r.range(6, 45);
    let mut held: Vec<Vec<(i64, i64, i64)>> = vec![vec![]; 4]; // table, row (-1 the table itself), mode: only to aim
    let mut open = [false; 4];
    for _ in 0..n {
        let ci = r.below(nc as u64) as usize;
        let c = ci as u32;
        if !open[ci] {
            let l = if lv >= 0 { lv } else { r.range(if style == 1 { 0 } else { 1 }, 4) };
            p.op(c, "b", &[l]);
            open[ci] = true;
            continue;
        }
        let tb = r.range(1, nt);
        let row = r.range(0, nr - 1);
        let m = r.range(0, 4);
        let wild = style == 1 && r.below(4) == 0;
        match r.range(0, 99) {
            0..=39 => {
                p.op(c, "t", &[tb, m]);
                held[ci].push((tb, -1, m));
            }
            40..=62 => {
                let m = if wild { m } else { *r.pick(&[2, 4]) };
                let tabs: Vec<i64> = held[ci].iter().filter(|h| h.1 < 0).map(|h| h.0).collect();
                let tb = if wild || tabs.is_empty() { tb } else { *r.pick(&tabs) };
                if !wild && style != 0 {
                    p.op(c, "t", &[tb, if m == 4 { 1 } else { 0 }]);
                    held[ci].push((tb, -1, 0));
                }
                p.op(c, "r", &[tb, row, m]);
                held[ci].push((tb, row, m));
            }
            63..=78 => {
                if wild || held[ci].is_empty() {
                    if r.below(2) == 0 { p.op(c, "ut", &[tb, m]) } else { p.op(c, "ur", &[tb, row, m]) }
                } else {
                    // rows first
                    let i = held[ci].iter().position(|h| h.1 >= 0).unwrap_or(0);
                    let (tb, row, m) = held[ci].remove(i);
                    if row < 0 { p.op(c, "ut", &[tb, m]) } else { p.op(c, "ur", &[tb, row, m]) }
                }
            }
            79..=88 => {
                p.op(c, "e", &[]);
                open[ci] = false;
                held[ci].clear();
            }
            _ => {
                let us = *r.pick(&[10, 500, 20_000, 70_000]);
                p.op(c, "s", &[us]);
            }
        }
    }
}
/// Deadlocks again and again: everybody takes the same few things in an order of its own.
fn gen_dead(r: &mut Rng, p: &mut Plan) {
    let nt = r.range(2, 3);
    p.set("tables", nt);
    p.set("rows", 2);
    p.set("poll", *r.pick(&[1000, 7000, 30_000, 60_000]));
    p.set("desc", r.range(0, 1));
    p.set("patience", if r.below(2) == 0 { r.range(1, 6) } else { 0 });
    p.set("quitters", r.range(1, 7));
    let nc = r.range(2, 4) as u32;
    let rounds = r.range(2, 5);
    let rows = r.below(3) == 0;
    let lv = *r.pick(&[1, 2, 3, 4]);
    for c in 0..nc {
        for _ in 0..rounds {
            p.op(c, "b", &[lv]);
            let mut order: Vec<i64> = (0..nt).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            order.truncate(r.range(2, 3) as usize);
            if rows {
                p.op(c, "t", &[1, 1]);
            }
            for (i, x) in order.iter().enumerate() {
                let m = if r.below(4) == 0 { 2 } else { 4 };
                if i > 0 && r.below(2) == 0 {
                    p.op(c, "s", &[*r.pick(&[10, 500, 5000])]);
                }
                if rows { p.op(c, "r", &[1, x % 2 + 10 * (x / 2), 4]) } else { p.op(c, "t", &[x + 1, m]) }
            }
            p.op(c, "e", &[]);
            if r.below(3) == 0 {
                p.op(c, "s", &[*r.pick(&[10, 5000, 70_000])]);
            }
        }
    }
}
/// One caller that makes the calls of a few transactions and goes on whatever it is told.
fn gen_script(r: &mut Rng, p: &mut Plan) {
    p.set("script", 1);
    p.set("desc", r.range(0, 1));
    p.set("lv", *r.pick(&[1, 2, 2, 3]));
    let nt = r.range(1, 2);
    let nr = r.range(1, 2);
    p.set("tables", nt);
    p.set("rows", nr);
    let slots = r.range(2, 4);
    let rowy = r.below(2) == 0;
    let mut held: Vec<Vec<(i64, i64, i64)>> = vec![vec![]; 4];
    for _ in 0..r.range(8, 50) {
        let s = r.range(0, slots - 1);
        let h = &mut held[s as usize];
        let (tb, row) = (r.range(1, nt), r.range(0, nr - 1));
        match r.range(0, 99) {
            k if k < if rowy { 10 } else { 60 } => {
                let m = if rowy && r.below(3) > 0 { 1 } else { r.range(0, 4) };
                p.op(0, "t", &[s, tb, m]);
                h.push((tb, -1, m));
            }
            0..=60 => {
                let m = *r.pick(&[2, 4]);
                if r.below(2) == 0 {
                    p.op(0, "t", &[s, tb, if m == 4 { 1 } else { 0 }]);
                    h.push((tb, -1, 0));
                }
                p.op(0, "r", &[s, tb, row, m]);
                h.push((tb, row, m));
            }
            61..=82 if !h.is_empty() => {
                let i = if r.below(4) == 0 { r.below(h.len() as u64) as usize } else { h.iter().position(|x| x.1 >= 0).unwrap_or(0) };
                let (tb, row, m) = h.remove(i);
                // the mode given decides about the phase only
                let m = if r.below(2) == 0 { 1 } else { m };
                if row < 0 { p.op(0, "ut", &[s, tb, m]) } else { p.op(0, "ur", &[s, tb, row, m]) }
            }
            83..=93 => {
                p.op(0, "e", &[s]);
                h.clear();
            }
            _ => p.op(0, "s", &[s, *r.pick(&[100, 60_000])]),
        }
    }
}
/// All the states the locks may be in: for each resource who holds, and who waits for, what.
type World = BTreeMap<u64, (BTreeSet<(u64, u64)>, BTreeSet<(u64, u64)>)>;
fn covers(held: u64, m: u64) -> bool {
    held == m || held == 4 || (held == 3 && m != 4) || (matches!(held, 1 | 2) && m == 0)
}
/// Whether a request must be, and whether it may be, granted.
fn can(w: &World, t: u64, r: u64, m: u64) -> (bool, bool) {
    let Some((held, waits)) = w.get(&r) else { return (true, true) };
    let covered = held.iter().any(|h| h.0 == t && covers(h.1, m));
    let may = !held.iter().any(|h| h.0 != t && !compatible(h.1, m));
    // whoever waits for an upgrade goes first
    let soft = waits.iter().any(|q| q.0 != t && held.iter().any(|h| h.0 == q.0));
    (covered || (may && !soft), covered || may)
}
fn settle(w: &World, r: u64, out: &mut BTreeSet<World>) {
    let mut must = false;
    let waits = w.get(&r).map(|x| x.1.clone()).unwrap_or_default();
    for &(t, m) in &waits {
        let (a, b) = can(w, t, r, m);
        must |= a;
        if b {
            let mut v = w.clone();
            let x = v.get_mut(&r).unwrap();
            x.1.remove(&(t, m));
            x.0.insert((t, m));
            settle(&v, r, out);
        }
    }
    if !must {
        out.insert(w.clone());
    }
}
/// Whether somebody a transaction waits for may wait for it.
fn cycle(w: &World, t: u64) -> bool {
    let (mut seen, mut todo) = (BTreeSet::new(), vec![t]);
    while let Some(x) = todo.pop() {
        for (held, waits) in w.values() {
            for q in waits.iter().filter(|q| q.0 == x) {
                let upgrading = |u: u64| waits.iter().any(|v| v.0 == u) && held.iter().any(|h| h.0 == u);
                for y in held.iter().map(|h| h.0).filter(|y| *y != x && (upgrading(*y) || held.iter().any(|h| h.0 == *y && !compatible(h.1, q.1)))) {
                    if y == t {
                        return true;
                    }
                    if seen.insert(y) {
                        todo.push(y);
                    }
                }
            }
        }
    }
    false
}
fn scripted(only: &'static [&'static str], res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let mut worlds: BTreeSet<World> = [World::new()].into();
    let mut waited = false;
    for o in v.iter().filter(|o| o.done() && o.kind != L_BEGIN) {
        let t = o.args[0];
        let mut next: BTreeSet<World> = Default::default();
        if o.kind == L_END {
            for w in &worlds {
                let mut set: BTreeSet<World> = [w.clone()].into();
                for (r, x) in w {
                    if x.0.iter().chain(&x.1).any(|y| y.0 == t) {
                        let mut n = Default::default();
                        for mut w in set {
                            let x = w.get_mut(r).unwrap();
                            x.0.retain(|y| y.0 != t);
                            x.1.retain(|y| y.0 != t);
                            settle(&w, *r, &mut n);
                        }
                        set = n;
                    }
                }
                next.extend(set);
            }
            worlds = next;
        } else {
            let (r, m, out) = (o.args[1], o.args[2], o.res[0]);
            let tb = if r >= 1000 { (r - 1000) / 100 } else { r };
            waited |= out == WAITING;
            let holds = |w: &World, r: u64, ms: &[u64]| w.get(&r).is_some_and(|x| x.0.iter().any(|h| h.0 == t && ms.contains(&h.1)));
            let any = [0, 1, 2, 3, 4];
            for w in &worlds {
                match (o.kind, out) {
                    (L_LR, E_TABLE) => {
                        if !holds(w, tb, if m == 4 { &[4, 1, 3] } else { &[2, 0, 3] }) {
                            next.insert(w.clone());
                        }
                    }
                    (L_LT | L_LR, GRANTED | WAITING | VICTIM) => {
                        if o.kind == L_LR && !holds(w, tb, if m == 4 { &[4, 1, 3] } else { &any }) {
                            continue;
                        }
                        let already = holds(w, r, &[m]);
                        let (must, may) = can(w, t, r, m);
                        if out == GRANTED && !may && !already || out != GRANTED && (must || already) {
                            continue;
                        }
                        let mut n = w.clone();
                        let x = n.entry(r).or_default();
                        if out == VICTIM {
                            x.1.insert((t, m));
                            if !cycle(&n, t) {
                                continue;
                            }
                            next.insert(n);
                            continue;
                        }
                        if out == GRANTED {
                            x.1.remove(&(t, m));
                            x.0.insert((t, m));
                        } else {
                            x.1.insert((t, m));
                        }
                        next.insert(n);
                    }
                    (L_UT | L_UR, E_NOLOCK) => {
                        if !holds(w, r, &any) {
                            next.insert(w.clone());
                        }
                    }
                    (L_UT, E_ROWS) => {
                        if w.iter().any(|(k, x)| *k >= 1000 && (k - 1000) / 100 == r && x.0.iter().any(|h| h.0 == t)) {
                            next.insert(w.clone());
                        }
                    }
                    (L_UT | L_UR, GRANTED) => {
                        if holds(w, r, &any) {
                            let mut n = w.clone();
                            let x = n.get_mut(&r).unwrap();
                            x.0.retain(|y| y.0 != t);
                            x.1.retain(|y| y.0 != t);
                            settle(&n, r, &mut next);
                        }
                    }
                    _ => {
                        next.insert(w.clone());
                    }
                }
            }
            if next.is_empty() {
                let class = match (o.kind, out) {
                    (L_LT | L_LR, GRANTED) if worlds.iter().all(|w| !can(w, t, r, m).1) => "conflicting-locks",
                    (L_LT | L_LR, VICTIM) => "false-victim",
                    (L_LT | L_LR, WAITING) if worlds.iter().all(|w| can(w, t, r, m).0) => "not-served",
                    (L_UT | L_UR, E_NOLOCK) => "not-served",
                    (_, E_TABLE | E_ROWS) => "refused",
                    _ => "not-refused",
                };
                if only.contains(&class) {
                    return bad(class, format!("{o:?} cannot be with the locks (resource: held, waiting) {worlds:?}"));
                }
                return Verdict::Ok(waited);
            }
            worlds = next;
            if worlds.len() > 500 {
                return Verdict::Ok(waited);
            }
        }
    }
    Verdict::Ok(waited)
}
/// What one transaction may hold when: (resource, mode, possibly from, surely from, surely until, possibly until)
#[derive(Clone, Debug)]
struct Hold {
    txn: u64,
    res: u64,
    mode: u64,
    lo: u64,
    from: u64,
    until: u64,
    hi: u64,
}
#[derive(Clone, Debug)]
struct Wait {
    txn: u64,
    res: u64,
    mode: u64,
    from: u64,
    to: u64,
    victim: bool,
}
fn analyse(v: &[OpH]) -> (Vec<Hold>, Vec<Wait>) {
    let mut holds: Vec<Hold> = vec![];
    let mut waits: Vec<Wait> = vec![];
    let mut first: HashMap<u64, (u64, u64, u64)> = HashMap::new(); // txn -> res, mode, first asked
    for o in v.iter().filter(|o| o.done()) {
        let t = o.args[0];
        match o.kind {
            L_LT | L_LR => {
                let since = match first.get(&t) {
                    Some((r, m, s)) if *r == o.args[1] && *m == o.args[2] && o.args[3] > 0 => *s,
                    _ => o.inv,
                };
                match o.res[0] {
                    GRANTED => {
                        first.remove(&t);
                        holds.push(Hold { txn: t, res: o.args[1], mode: o.args[2], lo: since, from: o.ret, until: u64::MAX, hi: u64::MAX });
                        waits.push(Wait { txn: t, res: o.args[1], mode: o.args[2], from: since, to: o.ret, victim: false });
                    }
                    WAITING => drop(first.insert(t, (o.args[1], o.args[2], since))),
                    VICTIM => {
                        first.remove(&t);
                        waits.push(Wait { txn: t, res: o.args[1], mode: o.args[2], from: since, to: o.ret, victim: true });
                    }
                    _ => {}
                }
            }
            L_UT | L_UR if o.res[0] == GRANTED => {
                for h in holds.iter_mut().filter(|h| h.txn == t && h.res == o.args[1] && h.until == u64::MAX) {
                    h.until = o.inv;
                    h.hi = o.ret;
                }
            }
            L_END => {
                if let Some((r, m, s)) = first.remove(&t) {
                    // gave up: may have been served without knowing
                    waits.push(Wait { txn: t, res: r, mode: m, from: s, to: o.ret, victim: false });
                    holds.push(Hold { txn: t, res: r, mode: m, lo: s, from: o.ret, until: o.inv, hi: o.ret });
                }
                for h in holds.iter_mut().filter(|h| h.txn == t && h.until == u64::MAX) {
                    h.until = o.inv;
                    h.hi = o.ret;
                }
            }
            _ => {}
        }
    }
    (holds, waits)
}
fn exclusion(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let (holds, waits) = analyse(&v);
    for (i, a) in holds.iter().enumerate() {
        for b in &holds[..i] {
            if a.txn != b.txn && a.res == b.res && a.from < a.until && b.from < b.until && !compatible(a.mode, b.mode) && a.from < b.until && b.from < a.until {
                return bad("conflicting-locks", format!("both held: {a:?} and {b:?}"));
            }
        }
    }
    Verdict::Ok(waits.iter().any(|w| v.iter().any(|o| o.done() && (o.kind == L_LT || o.kind == L_LR) && o.args[0] == w.txn && o.args[1] == w.res && o.res[0] == WAITING)))
}
/// Each transaction's own view: what the rules say about each call, given what it holds.
fn rules(p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    #[derive(Default)]
    struct T {
        lv: u64,
        shrinking: bool,
        aborted: bool,
        tables: BTreeMap<u64, BTreeSet<u64>>,
        rows: BTreeSet<u64>,
    }
    let mut ts: HashMap<u64, T> = HashMap::new();
    ts.insert(9000, T { lv: 2, ..Default::default() });
    let mut refused = 0;
    for o in v.iter().filter(|o| o.done()) {
        if o.kind == L_BEGIN {
            ts.insert(o.args[0], T { lv: o.args[1], ..Default::default() });
            continue;
        }
        let t = ts.get_mut(&o.args[0]).unwrap();
        if o.kind == L_END {
            t.tables.clear();
            t.rows.clear();
            continue;
        }
        let (r, m, out) = (o.args[1], o.args[2], o.res[0]);
        let tb = if r >= 1000 { (r - 1000) / 100 } else { r };
        let lock = o.kind == L_LT || o.kind == L_LR;
        // what must be refused, by the isolation level, the phase, the hierarchy
        let has = |ms: &[u64]| t.tables.get(&tb).is_some_and(|h| h.iter().any(|x| ms.contains(x)));
        let deny: &[u64] = if lock {
            let shared = matches!(m, 0 | 2 | 3);
            if t.aborted {
                &[E_ABORTED]
            } else if t.lv == 0 && shared {
                &[E_RU]
            } else if t.shrinking && (matches!(t.lv, 0 | 2 | 3) || (t.lv == 1 && !matches!(m, 0 | 2))) {
                &[E_SHRINK]
            } else if o.kind == L_LR && matches!(m, 0 | 1 | 3) {
                &[E_INTENT]
            } else if o.kind == L_LR && !has(if m == 4 { &[4, 1, 3] } else { &[2, 0, 3] }) {
                &[E_TABLE]
            } else {
                &[]
            }
        } else if o.kind == L_UT {
            if !t.tables.contains_key(&r) {
                &[E_NOLOCK]
            } else if t.rows.iter().any(|x| (x - 1000) / 100 == r) {
                &[E_ROWS]
            } else {
                &[]
            }
        } else if !t.rows.contains(&r) {
            &[E_NOLOCK]
        } else {
            &[]
        };
        // an exclusive or weaker table lock may imply the one a row needs: either answer will do
        let either = deny == [E_TABLE] && m == 2 && has(&[1, 4]);
        if !deny.is_empty() {
            refused += 1;
            if out < 10 && !either {
                return bad("not-refused", format!("isolation level {}, shrinking {}, aborted {}, holding {:?} and rows {:?}: {o:?} must be refused", t.lv, t.shrinking, t.aborted, t.tables, t.rows));
            }
        } else if out >= 10 {
            return bad("refused", format!("isolation level {}, shrinking {}, holding {:?} and rows {:?}: {o:?} is refused for no reason", t.lv, t.shrinking, t.tables, t.rows));
        }
        if lock && out == GRANTED {
            if r >= 1000 { drop(t.rows.insert(r)) } else { drop(t.tables.entry(r).or_default().insert(m)) }
            if t.lv == 4 && matches!(m, 2 | 4) {
                t.shrinking = o.res[1] == ST_SHRINKING;
            }
        }
        if !lock && out == GRANTED {
            t.rows.remove(&r);
            t.tables.remove(&r);
            let ends = match t.lv {
                2 | 3 | 4 => matches!(m, 2 | 4),
                _ => m == 4,
            };
            t.shrinking |= ends;
        }
        if t.lv != 4 && out < 10 && out != VICTIM && !t.aborted && (o.res[1] == ST_SHRINKING) != t.shrinking {
            return bad("phase", format!("isolation level {}: after {o:?} the transaction's phase is {}, two-phase locking says shrinking {}", t.lv, o.res[1], t.shrinking));
        }
        t.aborted |= o.res[1] == ST_ABORTED;
        if o.c == 90 && out != GRANTED {
            return bad("left-over-lock", format!("everything was released, yet {o:?}"));
        }
        if !lock && out >= 10 && o.res[1] != ST_ABORTED && !t.aborted {
            return bad("not-refused", format!("{o:?} is an error, which aborts the transaction"));
        }
    }
    let _ = p;
    Verdict::Ok(refused > 0)
}
fn progress(_p: &Plan, res: &Res) -> Verdict {
    if let Some(v) = abnormal(res) {
        return v;
    }
    let v = ops(&res.hist);
    let (holds, waits) = analyse(&v);
    let mut times: Vec<u64> = v.iter().flat_map(|o| [o.inv, o.ret]).filter(|t| *t != u64::MAX).collect();
    times.sort();
    for w in waits.iter().filter(|w| w.victim) {
        // at some moment of its wait it must have been part of a cycle
        let found = times.iter().filter(|t| **t >= w.from && **t <= w.to).any(|&t| {
            let next = |x: u64| -> BTreeSet<u64> {
                let mut s = BTreeSet::new();
                for q in waits.iter().filter(|q| q.txn == x && q.from <= t && t <= q.to) {
                    for h in holds.iter().filter(|h| h.txn != x && h.res == q.res && h.lo <= t && t <= h.hi && !compatible(h.mode, q.mode)) {
                        s.insert(h.txn);
                    }
                    // those waiting for an upgrade go first
                    for u in waits.iter().filter(|u| u.txn != x && u.res == q.res && u.from <= t && t <= u.to) {
                        if holds.iter().any(|h| h.txn == u.txn && h.res == u.res && h.lo <= t && t <= h.hi) {
                            s.insert(u.txn);
                        }
                    }
                }
                s
            };
            let mut seen = BTreeSet::new();
            let mut todo = vec![w.txn];
            while let Some(x) = todo.pop() {
                for y in next(x) {
                    if y == w.txn {
                        return true;
                    }
                    if seen.insert(y) {
                        todo.push(y);
                    }
                }
            }
            false
        });
        if !found {
            return bad("false-victim", format!("{w:?} was aborted for a deadlock, but nobody waited for it"));
        }
    }
    // with everything released, a newcomer waits for nobody
    if let Some(o) = v.iter().find(|o| o.c == 90 && o.done() && o.res[0] != GRANTED) {
        return bad("not-served", format!("everything was released, yet {o:?}"));
    }
    Verdict::Ok(v.iter().any(|o| o.done() && (o.kind == L_LT || o.kind == L_LR) && o.res[0] == WAITING))
}
const REAL: &str = "LockManager with its queues, validator, deadlock detector and detector thread; Transaction";
const STUB: &str = "kernel: clock, sleeping, futex/thread scheduling; a waiting client asks again until it is served, aborted or gives up";
pub fn checks() -> Vec<Check> {
    let assume = vec!["a transaction makes one request at a time; Ok(false) means that the request is queued, and asking again tells whether it has been granted", "a transaction ends with force_release_txn, as the transaction manager does"];
    let c = |prop: &'static str, rule: &'static str, scns: Vec<Scn>| Check { prop, scns, findings: vec![], rule, real: REAL, stub: STUB, assumptions: assume.clone(), probes: &[] };
    vec![
        c("L01", "a request had to wait", vec![
            Scn { name: "tables", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 0), judge: exclusion },
            Scn { name: "rows", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 2), judge: exclusion },
            Scn { name: "scripted", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen_script(r, p), judge: |_, res| scripted(&["conflicting-locks"], res) },
        ]),
        c("L02", "a request had to be refused", vec![
            Scn { name: "rules", run: "locks", weight: 3, phases: 1, gen: |r, p, _| gen(r, p, 1), judge: rules },
            Scn { name: "rows", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 2), judge: rules },
            Scn { name: "scripted", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen_script(r, p), judge: |_, res| scripted(&["refused", "not-refused"], res) },
        ]),
        c("L03", "a request had to wait", vec![
            Scn { name: "tables", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 0), judge: progress },
            Scn { name: "rows", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen(r, p, 2), judge: progress },
            Scn { name: "dead", run: "locks", weight: 2, phases: 1, gen: |r, p, _| gen_dead(r, p), judge: progress },
            Scn { name: "scripted", run: "locks", weight: 1, phases: 1, gen: |r, p, _| gen_script(r, p), judge: |_, res| scripted(&["not-served", "false-victim"], res) },
        ]),
    ]
}

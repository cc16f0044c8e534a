//! Oracles shared by the checks: history decoding and linearizability against sequential models.
use crate::run::Rec;
use scen::util::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct OpH {
    pub c: u64,
    pub id: u64,
    pub kind: u64,
    pub args: Vec<u64>,
    pub inv: u64,
    pub ret: u64, // u64::MAX while pending
    pub status: u64,
    pub res: Vec<u64>,
}
impl OpH {
    pub fn done(&self) -> bool {
        self.ret != u64::MAX
    }
    pub fn ok(&self) -> bool {
        self.done() && self.status == OK
    }
}
pub fn ops(h: &[Rec]) -> Vec<OpH> {
    let mut m: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut v: Vec<OpH> = vec![];
    for r in h {
        if r.tag == INV {
            m.insert((r.w[0], r.w[1]), v.len());
            v.push(OpH { c: r.w[0], id: r.w[1], kind: r.w[2], args: r.w[3..].to_vec(), inv: r.seq, ret: u64::MAX, status: 9, res: vec![] });
        } else if r.tag == RET {
            if let Some(&i) = m.get(&(r.w[0], r.w[1])) {
                v[i].ret = r.seq;
                v[i].status = r.w[2];
                v[i].res = r.w[3..].to_vec();
            }
        }
    }
    v
}
pub fn overlapping(v: &[OpH]) -> bool {
    v.iter().any(|a| v.iter().any(|b| a.c != b.c && a.inv < b.ret && b.inv < a.ret))
}
/// A sequential model: `step` returns the state after the operation, or None if the operation's recorded
/// result is impossible in `s`. Operations that did not return successfully may take effect or not.
pub trait Model {
    type S: Clone + Eq + std::hash::Hash;
    fn init(&self) -> Self::S;
    fn step(&self, s: &Self::S, op: &OpH) -> Option<Self::S>;
    /// may the operation have had no effect (it failed or never returned)?
    fn optional(&self, op: &OpH) -> bool {
        !op.ok()
    }
    /// the operation's deadline for taking effect (unbounded for a failed or pending one)
    fn unbounded(&self, op: &OpH) -> bool {
        !op.ok()
    }
}
/// Wing and Gong search with memoisation, one stretch between quiet moments after the other (a
/// stretch of more than 128 operations is not judged). Ok(true) linearizable.
pub fn linearizable<M: Model>(m: &M, v: &[OpH], limit: usize) -> Result<bool, ()> {
    let mut v = v.to_vec();
    v.sort_by_key(|o| o.inv);
    let mut states = vec![m.init()];
    let mut i = 0;
    while i < v.len() {
        let (mut j, mut end) = (i, 0);
        while j < v.len() && (j == i || v[j].inv < end) {
            end = end.max(if m.unbounded(&v[j]) { u64::MAX } else { v[j].ret });
            j += 1;
        }
        let last = j == v.len();
        let fin = stretch(m, &v[i..j], states, limit, last)?;
        if fin.is_empty() {
            return Ok(false);
        }
        states = fin;
        i = j;
    }
    Ok(true)
}
/// Every state the operations can end in (just one if `any`).
fn stretch<M: Model>(m: &M, v: &[OpH], init: Vec<M::S>, limit: usize, any: bool) -> Result<Vec<M::S>, ()> {
    if v.len() > 128 {
        return Err(());
    }
    let n = v.len();
    let ends: Vec<u64> = v.iter().map(|o| if m.unbounded(o) { u64::MAX } else { o.ret }).collect();
    let must: u128 = v.iter().enumerate().filter(|(_, o)| !m.optional(o)).fold(0, |a, (i, _)| a | 1u128 << i);
    let mut seen: HashSet<(u128, M::S)> = HashSet::new();
    let mut fin: HashSet<M::S> = HashSet::new();
    let mut out = vec![];
    let mut stack: Vec<(u128, M::S)> = init.into_iter().map(|s| (0, s)).collect();
    while let Some((done, s)) = stack.pop() {
        if done & must == must && fin.insert(s.clone()) {
            out.push(s.clone());
            if any {
                return Ok(out);
            }
        }
        if seen.len() > limit {
            return Err(());
        }
        let mut min_end = u64::MAX;
        for i in 0..n {
            if done >> i & 1 == 0 {
                min_end = min_end.min(ends[i]);
            }
        }
        for i in 0..n {
            if done >> i & 1 == 1 {
                continue;
            }
            if v[i].inv > min_end {
                break;
            }
            if let Some(s2) = m.step(&s, &v[i]) {
                let d2 = done | 1u128 << i;
                if seen.insert((d2, s2.clone())) {
                    stack.push((d2, s2));
                }
            }
        }
    }
    Ok(out)
}
/// One register: args [.., value] for writes (kind 1), res[0] for reads (kind 2).
pub struct Register {
    pub init: u64,
}
impl Model for Register {
    type S = u64;
    fn init(&self) -> u64 {
        self.init
    }
    fn step(&self, s: &u64, op: &OpH) -> Option<u64> {
        match op.kind {
            1 => Some(op.args[1]),
            2 => {
                if !op.ok() || op.res[0] == *s {
                    Some(*s)
                } else {
                    None
                }
            }
            _ => Some(*s),
        }
    }
}

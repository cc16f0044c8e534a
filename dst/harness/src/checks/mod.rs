use crate::engine::Verdict;
use crate::run::Res;
use simcore::plan::Plan;
use simcore::Rng;
mod cat;
mod disk;
mod idx;
mod io;
mod locks;
mod mem;
mod pool;
mod recover;
mod stmt;
mod table;
mod txn;
mod wal;

pub struct Scn {
    pub name: &'static str, // unique within the property
    pub run: &'static str,  // the scenario it runs
    pub weight: u32,
    pub phases: u32,
    pub gen: fn(&mut Rng, &mut Plan, &str),
    pub judge: fn(&Plan, &Res) -> Verdict,
}
pub struct Check {
    pub prop: &'static str,
    pub scns: Vec<Scn>,
    pub findings: Vec<(&'static str, Scn)>,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: Vec<&'static str>,
    pub probes: &'static [(usize, &'static str)],
}
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(disk::checks());
    v.extend(wal::checks());
    v.extend(pool::checks());
    v.extend(locks::checks());
    v.extend(recover::checks());
    v.extend(mem::checks());
    v.extend(table::checks());
    v.extend(idx::checks());
    v.extend(io::checks());
    v.extend(cat::checks());
    v.extend(txn::checks());
    v.extend(stmt::checks());
    v
}

//! The complete description of one simulated execution; a pure function of it and the code is executed.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub c: u32,        // client
    pub k: String,     // kind
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub a: Vec<i64>,   // arguments
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub k: String, // eio_r eio_w eio_s enospc short_r short_w eintr lat crash crash_bb torn...
    #[serde(default)]
    pub n: u64,
    #[serde(default)]
    pub arg: i64,
    #[serde(default)]
    pub file: String, // suffix filter
    #[serde(default)]
    pub phase: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedP {
    /// 0 run-to-block, 1 uniform random at synchronisation points, 2 PCT priorities, 3 round robin, 9 explicit decisions
    pub strategy: u32,
    /// mean distance in basic blocks between preemptions, 0 = none
    pub preempt_mean: u64,
    pub pct_depth: u32,
    pub pct_len: u64,
    /// probability (ppm) of switching at a synchronisation point for strategy 0
    pub switch_ppm: u64,
    pub spurious_ppm: u64,
    pub jump_ppm: u64,
    pub lat_ns: u64,
    pub max_ms: u64,
    pub max_bb: u64,
    pub max_points: u64,
}
impl Default for SchedP {
    fn default() -> Self {
        SchedP { strategy: 1, preempt_mean: 0, pct_depth: 3, pct_len: 20000, switch_ppm: 0, spurious_ppm: 0,
            jump_ppm: 0, lat_ns: 20_000, max_ms: 120_000, max_bb: 60_000_000, max_points: 3_000_000 }
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub scenario: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    pub sched: SchedP,
    /// explicit schedule (strategy 9), per phase: (kind, tid, n, val)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub decisions: Vec<Vec<(u32, u32, u64, u64)>>,
}
impl Plan {
    pub fn cfg(&self, k: &str) -> i64 {
        *self.cfg.get(k).unwrap_or(&0)
    }
    pub fn cfg_or(&self, k: &str, d: i64) -> i64 {
        *self.cfg.get(k).unwrap_or(&d)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.to_string(), v);
    }
    pub fn op(&mut self, c: u32, k: &str, a: &[i64]) {
        self.ops.push(Op { c, k: k.to_string(), a: a.to_vec() });
    }
    pub fn clients(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.ops.iter().map(|o| o.c).collect();
        v.sort();
        v.dedup();
        v
    }
}

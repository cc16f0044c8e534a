//! The lock manager: transactions that lock, upgrade and release tables and rows, wait by asking again, and deadlock.
use crate::util::*;
use ferrite::common::exception::LockError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{LockManager, LockMode};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use simcore::Plan;
use std::sync::Arc;
use std::time::Duration;

pub const L_LT: u64 = 80; // txn, resource, mode, wait number; res: outcome, state after
pub const L_LR: u64 = 81;
pub const L_UT: u64 = 82;
pub const L_UR: u64 = 83;
pub const L_END: u64 = 84; // txn
pub const L_BEGIN: u64 = 85; // txn, isolation level
// outcomes
pub const GRANTED: u64 = 0;
pub const WAITING: u64 = 1;
pub const VICTIM: u64 = 2;
pub const E_RU: u64 = 10;
pub const E_SHRINK: u64 = 11;
pub const E_TABLE: u64 = 12;
pub const E_NOLOCK: u64 = 13;
pub const E_ROWS: u64 = 14;
pub const E_ABORTED: u64 = 15;
pub const E_COMMITTED: u64 = 16;
pub const E_INTENT: u64 = 17;
pub const E_OTHER: u64 = 18;
// states
pub const ST_ACTIVE: u64 = 0;
pub const ST_SHRINKING: u64 = 1;
pub const ST_ABORTED: u64 = 2;

pub fn mode(i: u64) -> LockMode {
    [LockMode::IntentionShared, LockMode::IntentionExclusive, LockMode::Shared, LockMode::SharedIntentionExclusive, LockMode::Exclusive][i as usize % 5]
}
pub fn iso(i: u64) -> IsolationLevel {
    [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot][i as usize % 5]
}
fn err(e: &LockError) -> u64 {
    match e {
        LockError::LockSharedOnReadUncommitted => E_RU,
        LockError::LockOnShrinking => E_SHRINK,
        LockError::TableLockNotPresent => E_TABLE,
        LockError::NoLockHeld => E_NOLOCK,
        LockError::TableUnlockedBeforeRows => E_ROWS,
        LockError::TransactionAborted => E_ABORTED,
        LockError::TransactionCommitted => E_COMMITTED,
        LockError::IntentionLockOnRow | LockError::AttemptedIntentionLockOnRow => E_INTENT,
        _ => E_OTHER,
    }
}
fn state(t: &Transaction) -> u64 {
    match t.get_state() {
        TransactionState::Shrinking => ST_SHRINKING,
        TransactionState::Aborted | TransactionState::Tainted => ST_ABORTED,
        _ => ST_ACTIVE,
    }
}
pub fn row_res(t: u64, r: u64) -> u64 {
    1000 + t * 100 + r
}
/// Rows of different tables lie on different pages, whose numbers are not those of the tables.
fn rid(t: u64, r: u64) -> RID {
    RID::new(40 + t * 3 + r % 2, (r / 2) as u32)
}
fn call(lm: &LockManager, c: u32, t: &Arc<Transaction>, kind: u64, tb: u64, row: u64, m: u64, n: u64) -> u64 {
    let tid = t.get_transaction_id();
    let id = (1 << 40) + next_id();
    let res = if kind == L_LR || kind == L_UR { row_res(tb, row) } else { tb };
    inv(c, id, kind, &[tid, res, m, n]);
    let r = match kind {
        L_LT => lm.lock_table(t.clone(), mode(m), tb),
        L_LR => lm.lock_row(t.clone(), mode(m), tb, rid(tb, row)),
        L_UT => lm.unlock_table(t.clone(), mode(m), tb),
        _ => lm.unlock_row(t.clone(), mode(m), tb, rid(tb, row)),
    };
    let s = state(t);
    let o = match &r {
        Ok(true) => GRANTED,
        Ok(false) if s == ST_ABORTED => VICTIM,
        Ok(false) => WAITING,
        Err(e) => err(e),
    };
    ret(c, id, OK, &[o, s]);
    o
}
fn end(lm: &LockManager, c: u32, t: &Arc<Transaction>) {
    let id = (1 << 40) + next_id();
    inv(c, id, L_END, &[t.get_transaction_id()]);
    let _ = lm.force_release_txn(t.get_transaction_id());
    ret(c, id, OK, &[]);
}
fn client(p: &'static Plan, c: u32, lm: &LockManager) {
    let mut cur: Option<Arc<Transaction>> = None;
    let begin = |n: u64, lv: u64| {
        let t = Arc::new(Transaction::new(n, iso(lv)));
        let id = (1 << 40) + next_id();
        inv(c, id, L_BEGIN, &[n, lv]);
        ret(c, id, OK, &[]);
        t
    };
    for (id, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        match o.k.as_str() {
            "s" => std::thread::sleep(Duration::from_micros(a(0))),
            "b" => {
                if let Some(t) = cur.take() {
                    end(lm, c, &t);
                }
                // ids of concurrent transactions in no particular order
                cur = Some(begin(if p.cfg("desc") != 0 { 5000 - id } else { 1 + id }, a(0)));
            }
            "t" | "r" => {
                let Some(t) = cur.clone() else { continue };
                let (kind, m) = if o.k == "t" { (L_LT, a(1)) } else { (L_LR, a(2)) };
                let mut n = 0;
                loop {
                    let r = call(lm, c, &t, kind, a(0), a(1), m, n);
                    let quits = r == WAITING && p.cfg("patience") != 0 && p.cfg_or("quitters", 15) >> (c % 8) & 1 == 1 && n as i64 >= p.cfg("patience");
                    if quits {
                        // times out
                        std::thread::sleep(Duration::from_micros(p.cfg_or("poll", 3000) as u64));
                    }
                    if r == VICTIM || quits {
                        end(lm, c, &t);
                        cur = None;
                        break;
                    }
                    if r != WAITING {
                        break;
                    }
                    n += 1;
                    if n > 3000 {
                        simcore::violation("starved", &format!("transaction {} asked for {} of {} {n} times, and was neither served nor aborted", t.get_transaction_id(), mode(m), a(0)));
                    }
                    std::thread::sleep(Duration::from_micros(p.cfg_or("poll", 3000) as u64));
                }
            }
            "ut" | "ur" => {
                let Some(t) = cur.clone() else { continue };
                let (kind, m) = if o.k == "ut" { (L_UT, a(1)) } else { (L_UR, a(2)) };
                call(lm, c, &t, kind, a(0), a(1), m, 0);
            }
            "e" => {
                if let Some(t) = cur.take() {
                    end(lm, c, &t);
                }
            }
            _ => {}
        }
    }
    if let Some(t) = cur {
        end(lm, c, &t);
    }
}
/// One thread makes the calls of several transactions in a fixed order, and does not wait for what is not granted.
fn script(p: &'static Plan, lm: &LockManager) {
    let mut txns: std::collections::BTreeMap<u64, Arc<Transaction>> = Default::default();
    for (n, o) in ops_of(p, 0) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        let Some(t) = txns.get(&a(0)).cloned() else {
            if o.k != "s" {
                let t = Arc::new(Transaction::new(if p.cfg("desc") != 0 { 5000 - n } else { 1 + n }, iso(p.cfg("lv") as u64)));
                let id = (1 << 40) + next_id();
                inv(0, id, L_BEGIN, &[t.get_transaction_id(), p.cfg("lv") as u64]);
                ret(0, id, OK, &[]);
                txns.insert(a(0), t);
            }
            continue;
        };
        let r = match o.k.as_str() {
            "t" => call(lm, 0, &t, L_LT, a(1), 0, a(2), 0),
            "r" => call(lm, 0, &t, L_LR, a(1), a(2), a(3), 0),
            "ut" => call(lm, 0, &t, L_UT, a(1), 0, a(2), 0),
            "ur" => call(lm, 0, &t, L_UR, a(1), a(2), a(3), 0),
            "s" => {
                std::thread::sleep(Duration::from_micros(a(1)));
                GRANTED
            }
            _ => VICTIM,
        };
        if r == VICTIM || r == E_ABORTED {
            end(lm, 0, &t);
            txns.remove(&a(0));
        }
    }
    for t in txns.values() {
        end(lm, 0, t);
    }
}
pub fn run(p: &'static Plan, _phase: u32) {
    let lm = Arc::new(LockManager::new());
    let cs = p.clients();
    let l2 = lm.clone();
    if p.cfg("script") != 0 {
        std::thread::spawn(move || script(p, &l2)).join().ok();
    } else {
        std::thread::spawn(move || threads(cs, move |c| client(p, c, &l2))).join().ok();
    }
    // everything was released: nothing stands in the way of a newcomer
    let t = Arc::new(Transaction::new(9000, IsolationLevel::RepeatableRead));
    simcore::record(NOTE, &[40]);
    for tb in 1..=p.cfg_or("tables", 2) as u64 {
        call(&lm, 90, &t, L_LT, tb, 0, 4, 0);
        for r in 0..p.cfg_or("rows", 2) as u64 {
            call(&lm, 90, &t, L_LR, tb, r, 4, 0);
        }
    }
    simcore::done();
}

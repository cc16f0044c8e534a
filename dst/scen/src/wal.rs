//! The write-ahead log: concurrent appenders, background flushing, log faults, crashes, recovery and reuse.
use crate::util::*;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use simcore::rng::mix;
use simcore::Plan;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;

pub const INVALID: u64 = u64::MAX;
pub const K_APP: u64 = 20; // args: type, txn, prev, fingerprint
pub const K_PERSIST: u64 = 21; // res: position
pub const K_RECOVER: u64 = 22; // args: phase
pub const K_CLOSE: u64 = 23;
pub const T_BEGIN: u64 = LogRecordType::Begin as u64;
pub const T_COMMIT: u64 = LogRecordType::Commit as u64;
pub const T_ABORT: u64 = LogRecordType::Abort as u64;

pub fn schema() -> Schema {
    Schema::new(vec![Column::new("a", TypeId::BigInt), Column::new_varlen("b", TypeId::VarChar, 4000), Column::new("c", TypeId::Integer)])
}
/// The row that plan operation `id` writes (variant 0 the new one, 1 the old one).
pub fn row(id: u64, variant: u64, size: u64, rid: RID) -> (Tuple, u64) {
    let h = mix(id * 2 + variant);
    let text: String = (0..size).map(|i| (b'a' + (mix(h ^ i) % 26) as u8) as char).collect();
    let v = vec![Value::new(h as i64), Value::new(text.as_str()), Value::new((h >> 40) as i32)];
    let f = fp_vals(&[h as i64 as u64, hstr(text.as_bytes()), (h >> 40) as i32 as u64]);
    (Tuple::new(&v, &schema(), rid), f)
}
pub fn hstr(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |a, x| mix(a ^ *x as u64))
}
pub fn fp_vals(v: &[u64]) -> u64 {
    v.iter().fold(17, |a, x| mix(a ^ *x))
}
pub fn fp_tuple(t: &Tuple) -> u64 {
    use ferrite::types_db::value::Val;
    let w: Vec<u64> = t
        .get_values()
        .iter()
        .map(|v| match v.get_val() {
            Val::BigInt(x) => *x as u64,
            Val::Integer(x) => *x as u64,
            Val::VarLen(s) => hstr(s.as_bytes()),
            _ => 0xBAD,
        })
        .collect();
    fp_vals(&w)
}
fn fp_rid(r: Option<RID>) -> u64 {
    r.map(|r| r.get_page_id() << 20 ^ r.get_slot_num() as u64).unwrap_or(0x1111)
}
fn fp_parts(ins: (Option<RID>, u64), del: (Option<RID>, u64), upd: (Option<RID>, u64, u64), page: u64, prevpage: u64) -> u64 {
    fp_vals(&[fp_rid(ins.0), ins.1, fp_rid(del.0), del.1, fp_rid(upd.0), upd.1, upd.2, page, prevpage])
}
const N: u64 = 0x77;
fn fp_rec(r: &LogRecord) -> u64 {
    let t = |x: Option<&Tuple>| x.map(fp_tuple).unwrap_or(N);
    fp_parts(
        (r.get_insert_rid().copied(), t(r.get_insert_tuple())),
        (r.get_delete_rid().copied(), t(r.get_delete_tuple())),
        (r.get_update_rid().copied(), t(r.get_original_tuple()), t(r.get_update_tuple())),
        r.get_page_id().copied().unwrap_or(N),
        r.get_new_page_record().unwrap_or(N),
    )
}
fn client(p: &'static Plan, c: u32, lm: Arc<RwLock<LogManager>>) {
    let wal = WALManager::new(lm.clone());
    let mut txns: HashMap<u64, Transaction> = HashMap::new();
    for (id, o) in ops_of(p, c) {
        step(p, c, id, o, &lm, &wal, &mut txns);
    }
}
fn blocking<T>(p: &Plan, f: impl FnOnce() -> T) -> T {
    if p.cfg("tasks") != 0 {
        tokio::task::block_in_place(f)
    } else {
        f()
    }
}
fn step(p: &Plan, c: u32, id: u64, o: &'static simcore::Op, lm: &Arc<RwLock<LogManager>>, wal: &WALManager, txns: &mut HashMap<u64, Transaction>) {
    let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
    let tid = c as u64 * 100 + a(0);
    let none = (None, N);
    // a page of its own per record: recovery replays random records, which need not fit together on one page
    let rid = RID::new(id + 3, 0);
    match o.k.as_str() {
        "s" => return std::thread::sleep(Duration::from_micros(a(0))),
        "p" => {
            inv(c, id, K_PERSIST, &[]);
            let l = blocking(p, || lm.read().get_persistent_lsn());
            ret(c, id, OK, &[l]);
            return;
        }
        _ => {}
    }
    let txn = txns.entry(tid).or_insert_with(|| Transaction::new(tid, IsolationLevel::ReadCommitted));
    let prev = if o.k == "b" { INVALID } else { txn.get_prev_lsn() };
    let raw = |ty: LogRecordType, f: u64, r: LogRecord| {
        inv(c, id, K_APP, &[ty as u64, tid, prev, f]);
        blocking(p, || lm.write().append_log_record(Arc::new(r)))
    };
    let plain = fp_parts(none, none, (None, N, N), N, N);
    let lsn = match o.k.as_str() {
        "b" => {
            inv(c, id, K_APP, &[T_BEGIN, tid, prev, plain]);
            wal.write_begin_record(txn)
        }
        "c" => {
            inv(c, id, K_APP, &[T_COMMIT, tid, prev, plain]);
            wal.write_commit_record(txn)
        }
        "a" => {
            inv(c, id, K_APP, &[T_ABORT, tid, prev, plain]);
            wal.write_abort_record(txn)
        }
        "u" => {
            let (old, fo) = row(id, 1, a(1) / 2, rid);
            let (new, fnw) = row(id, 0, a(1), rid);
            let f = fp_parts(none, none, (Some(rid), fo, fnw), N, N);
            inv(c, id, K_APP, &[LogRecordType::Update as u64, tid, prev, f]);
            wal.write_update_record(txn, rid, old, new)
        }
        "i" => {
            let (t, f) = row(id, 0, a(1), rid);
            raw(LogRecordType::Insert, fp_parts((Some(rid), f), none, (None, N, N), N, N), LogRecord::new_insert_delete_record(tid, prev, LogRecordType::Insert, rid, Arc::new(t)))
        }
        "d" => {
            let ty = [LogRecordType::MarkDelete, LogRecordType::ApplyDelete, LogRecordType::RollbackDelete][(id % 3) as usize];
            let (t, f) = row(id, 0, a(1), rid);
            raw(ty, fp_parts(none, (Some(rid), f), (None, N, N), N, N), LogRecord::new_insert_delete_record(tid, prev, ty, rid, Arc::new(t)))
        }
        "n" => raw(LogRecordType::NewPage, fp_parts(none, none, (None, N, N), id + 5, id), LogRecord::new_page_record(tid, prev, LogRecordType::NewPage, id, id + 5)),
        _ => return,
    };
    // an invalid position reports that the record is not known to be durable
    ret(c, id, if lsn == INVALID { ERR } else { OK }, &[lsn]);
    if lsn != INVALID {
        txn.set_prev_lsn(lsn);
    }
}
async fn read_log(m: &Arc<AsyncDiskManager>, phase: u64) {
    simcore::faults(false);
    let mut it = LogIterator::new(m.clone());
    let mut n = 0;
    while let Some(r) = it.next().await {
        simcore::record(STATE, &[phase, n, r.get_lsn(), r.get_log_record_type() as u64, r.get_txn_id(), r.get_prev_lsn(), fp_rec(&r)]);
        n += 1;
        if n > 2000 {
            break;
        }
    }
    simcore::record(NOTE, &[10, phase, n]);
    simcore::faults(true);
}
async fn clients(p: &'static Plan, lo: u32, hi: u32, lm: &Arc<RwLock<LogManager>>) {
    let cs: Vec<u32> = p.clients().into_iter().filter(|c| *c >= lo && *c < hi).collect();
    if p.cfg("tasks") != 0 {
        let lm = lm.clone();
        tasks(cs, move |c| {
            let lm = lm.clone();
            async move {
                let wal = WALManager::new(lm.clone());
                let mut txns = HashMap::new();
                for (id, o) in ops_of(p, c) {
                    if o.k == "s" {
                        tokio::time::sleep(Duration::from_micros(o.a[0] as u64)).await;
                    } else {
                        step(p, c, id, o, &lm, &wal, &mut txns);
                    }
                    tokio::task::yield_now().await;
                }
            }
        })
        .await;
    } else {
        let lm = lm.clone();
        tokio::task::spawn_blocking(move || threads(cs, move |c| client(p, c, lm.clone()))).await.unwrap();
    }
}
pub fn bpm(frames: usize, k: usize, m: Arc<AsyncDiskManager>) -> Arc<BufferPoolManager> {
    let repl = Arc::new(RwLock::new(LRUKReplacer::new(frames, k)));
    match BufferPoolManager::new(frames, m, repl) {
        Ok(b) => Arc::new(b),
        Err(e) => simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", &format!("buffer pool: {e}")),
    }
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let m = match AsyncDiskManager::new(crate::disk::DB.into(), crate::disk::LOG.into(), crate::disk::config(p)).await {
            Ok(m) => Arc::new(m),
            Err(e) => {
                simcore::log(&format!("open: {e:?}"));
                simcore::record(NOTE, &[1]);
                simcore::done();
            }
        };
        let ph = phase as u64;
        let last = p.cfg_or("phases", 1) as u32 - 1;
        let lm = Arc::new(RwLock::new(LogManager::new(m.clone())));
        if phase > 0 {
            read_log(&m, ph * 10).await;
            if p.cfg("recover") != 0 {
                let b = bpm(p.cfg_or("frames", 4) as usize, 2, m.clone());
                let rec = LogRecoveryManager::new(m.clone(), lm.clone(), b);
                inv(95, (1 << 44) + ph, K_RECOVER, &[ph]);
                let r = rec.start_recovery().await;
                if let Err(e) = &r {
                    simcore::log(&e.to_string());
                }
                ret(95, (1 << 44) + ph, if r.is_ok() { OK } else { ERR }, &[lm.read().get_persistent_lsn(), lm.read().get_next_lsn()]);
                if r.is_err() {
                    simcore::done();
                }
            }
        }
        if phase < last || phase == 0 {
            lm.write().run_flush_thread();
            clients(p, 10 * phase, 10 * phase + 10, &lm).await;
            if p.cfg("endcrash") != 0 && p.cfg("close") == 0 {
                simcore::crash();
            }
            inv(96, (1 << 43) + ph, K_CLOSE, &[]);
            let lm2 = lm.clone();
            tokio::task::spawn_blocking(move || lm2.write().shut_down()).await.unwrap();
            ret(96, (1 << 43) + ph, OK, &[lm.read().get_persistent_lsn()]);
            read_log(&m, ph * 10 + 5).await;
            if phase < last {
                if p.cfg("endcrash") != 0 {
                    simcore::crash();
                }
                simcore::exit_keep();
            }
        }
        simcore::done();
    });
}

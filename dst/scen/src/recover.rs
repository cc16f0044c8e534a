//! Crash recovery: logged transactions over table pages, crashes at any point (recovery included), recovery, survey.
use crate::util::*;
use crate::wal::{bpm, fp_tuple, row, INVALID};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::PageTrait;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use parking_lot::{Mutex, RwLock};
use simcore::Plan;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;

pub const R_CH: u64 = 70; // txn, life, kind, rid, fingerprint, deleted; res: lsn
pub const R_COMMIT: u64 = 71; // txn, life; res: lsn
pub const R_ABORT: u64 = 72; // txn, life
pub const R_REC: u64 = 73; // life, attempt
pub const S_LOG: u64 = 31; // STATE: life, lsn, type, txn
pub const S_ROW: u64 = 32; // STATE: life, attempt, rid, fingerprint, deleted, committed
pub const N_LOG: u64 = 31; // NOTE: life, complete log read
pub const N_ROWS: u64 = 32; // NOTE: life, attempt, complete survey

struct Rows {
    owner: HashMap<u64, u64>,
    live: Vec<u64>,
}
struct Sh {
    b: Arc<BufferPoolManager>,
    lm: Arc<RwLock<LogManager>>,
    pages: Mutex<Vec<u64>>,
    slots: Mutex<BTreeMap<u64, Arc<Mutex<()>>>>,
    rows: Mutex<Rows>,
}
struct Ch {
    ty: LogRecordType,
    rid: RID,
    old: Option<(TupleMeta, Tuple)>,
}
struct Tx {
    t: Transaction,
    id: u64,
    ch: Vec<Ch>,
}
fn rw(r: RID) -> u64 {
    r.get_page_id() << 20 | r.get_slot_num() as u64
}
fn wr(w: u64) -> RID {
    RID::new(w >> 20, (w & 0xfffff) as u32)
}
impl Sh {
    /// All frames may be pinned for a moment.
    fn page(&self, id: u64) -> PageGuard<TablePage> {
        for _ in 0..500 {
            if let Some(g) = self.b.fetch_page::<TablePage>(id) {
                return g;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        simcore::violation("unreachable-page", &format!("page {id} cannot be fetched although frames become free"))
    }
    /// A change may reach the page, and the page the disk, only once its record is durable.
    fn durable(&self, lsn: u64) {
        loop {
            let p = self.lm.read().get_persistent_lsn();
            if p != INVALID && p >= lsn {
                return;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    fn append(&self, x: &mut Tx, r: LogRecord) -> u64 {
        let l = self.lm.write().append_log_record(Arc::new(r));
        if l == INVALID {
            simcore::violation("append-failed", "a record could not be appended although the log works");
        }
        x.t.set_prev_lsn(l);
        self.durable(l);
        l
    }
    fn release(&self, x: &Tx) {
        self.rows.lock().owner.retain(|_, t| *t != x.id);
    }
}
/// Rows of one size class share a page, so that every version of each of them fits.
fn full(p: &Plan, n: u16) -> bool {
    n as i64 >= 3600 / (p.cfg_or("cap", 100) + 130)
}
fn step(p: &'static Plan, s: &Sh, wal: &WALManager, c: u32, life: u64, id: u64, o: &'static simcore::Op, cur: &mut Option<Tx>) {
    let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
    match o.k.as_str() {
        "s" => return std::thread::sleep(Duration::from_micros(a(0))),
        "f" => {
            let pg = s.pages.lock().clone();
            let w = |f: std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>| {
                let h = tokio::runtime::Handle::current();
                tokio::task::block_in_place(|| h.block_on(f))
            };
            let b = s.b.clone();
            let n = a(1);
            return match a(0) {
                0 if !pg.is_empty() => w(Box::pin(async move { drop(b.flush_page_async(pg[n as usize % pg.len()]).await) })),
                1 => w(Box::pin(async move { drop(b.flush_dirty_pages_batch_async(n as usize + 1).await) })),
                2 => w(Box::pin(async move { b.flush_all_pages_async().await })),
                _ => w(Box::pin(async move { drop(b.flush_all_pages_durable().await) })),
            };
        }
        "n" => {
            // a page that only the log may know of
            if let Some(g) = s.b.new_page::<TablePage>() {
                let id = g.get_page_id();
                {
                    let mut w = g.write();
                    w.init();
                    w.set_dirty(true);
                }
                drop(g);
                if let (true, Some(x)) = (a(0) != 0, cur) {
                    let r = LogRecord::new_page_record(x.id, x.t.get_prev_lsn(), LogRecordType::NewPage, INVALID, id);
                    s.append(x, r);
                }
                simcore::record(NOTE, &[21, id]);
                s.pages.lock().push(id);
            }
            return;
        }
        "b" => {
            let tid = if p.cfg("reuse") != 0 { (c as u64 % 10) * 100 + a(0) } else { life * 1000 + (c as u64 % 10) * 100 + a(0) };
            let t = Transaction::new(tid, IsolationLevel::ReadCommitted);
            let l = wal.write_begin_record(&t);
            t.set_prev_lsn(l);
            *cur = Some(Tx { t, id: tid, ch: vec![] });
            return;
        }
        _ => {}
    }
    let Some(x) = cur else { return };
    let tid = x.id;
    match o.k.as_str() {
        "i" => {
            let pg = {
                let v = s.pages.lock();
                if v.is_empty() {
                    return;
                }
                v[a(0) as usize % v.len()]
            };
            let mx = s.slots.lock().entry(pg).or_default().clone();
            let _g = mx.lock();
            let (n, rid) = {
                let g = s.page(pg);
                let r = g.read();
                (r.get_num_tuples(), RID::new(pg, r.get_num_tuples() as u32))
            };
            if full(p, n) {
                return;
            }
            let (t, f) = row(id, 0, a(1), rid);
            s.rows.lock().owner.insert(rw(rid), tid);
            inv(c, id, R_CH, &[tid, life, LogRecordType::Insert as u64, rw(rid), f, 0]);
            let r = LogRecord::new_insert_delete_record(tid, x.t.get_prev_lsn(), LogRecordType::Insert, rid, Arc::new(t.clone()));
            let l = s.append(x, r);
            if s.page(pg).write().insert_tuple_with_rid(&TupleMeta::new(tid), &t, rid).is_none() {
                simcore::violation("insert-failed", &format!("row {rid:?} does not go into its page, which has room"));
            }
            s.rows.lock().live.push(rw(rid));
            x.ch.push(Ch { ty: LogRecordType::Insert, rid, old: None });
            ret(c, id, OK, &[l]);
        }
        "u" | "d" => {
            let rid = {
                let mut r = s.rows.lock();
                if r.live.is_empty() {
                    return;
                }
                let w = r.live[a(0) as usize % r.live.len()];
                if r.owner.get(&w).is_some_and(|t| *t != tid) {
                    return;
                }
                r.owner.insert(w, tid);
                wr(w)
            };
            let old = s.page(rid.get_page_id()).read().get_tuple(&rid, true);
            let Ok((m, t0)) = old else { simcore::violation("row-unreadable", &format!("row {rid:?} cannot be read")) };
            if m.is_deleted() {
                return;
            }
            if o.k == "u" {
                let (t, f) = row(id, 0, a(1), rid);
                inv(c, id, R_CH, &[tid, life, LogRecordType::Update as u64, rw(rid), f, 0]);
                let l = wal.write_update_record(&x.t, rid, t0.clone(), t.clone());
                x.t.set_prev_lsn(l);
                s.durable(l);
                if s.page(rid.get_page_id()).write().update_tuple(TupleMeta::new(tid), &t, rid).is_err() {
                    simcore::violation("update-failed", &format!("row {rid:?} cannot grow in its page, which has room"));
                }
                x.ch.push(Ch { ty: LogRecordType::Update, rid, old: Some((m, t0)) });
                ret(c, id, OK, &[l]);
            } else {
                let ty = if a(1) == 0 { LogRecordType::MarkDelete } else { LogRecordType::ApplyDelete };
                inv(c, id, R_CH, &[tid, life, ty as u64, rw(rid), fp_tuple(&t0), 1]);
                let r = LogRecord::new_insert_delete_record(tid, x.t.get_prev_lsn(), ty, rid, Arc::new(t0.clone()));
                let l = s.append(x, r);
                s.page(rid.get_page_id()).write().update_tuple_meta(TupleMeta::new_with_delete(tid, true), &rid).ok();
                x.ch.push(Ch { ty, rid, old: Some((m, t0)) });
                ret(c, id, OK, &[l]);
            }
        }
        "c" => {
            inv(c, id, R_COMMIT, &[tid, life]);
            let l = wal.write_commit_record(&x.t);
            ret(c, id, if l == INVALID { ERR } else { OK }, &[l]);
            for h in &x.ch {
                let g = s.page(h.rid.get_page_id());
                let mut w = g.write();
                if let Ok(mut m) = w.get_tuple_meta(&h.rid) {
                    m.set_commit_timestamp(1 + l);
                    w.update_tuple_meta(m, &h.rid).ok();
                }
            }
            s.release(x);
            *cur = None;
        }
        "a" => {
            inv(c, id, R_ABORT, &[tid, life]);
            while let Some(h) = x.ch.pop() {
                let pg = h.rid.get_page_id();
                match (h.ty, h.old) {
                    (LogRecordType::Insert, _) => drop(s.page(pg).write().update_tuple_meta(TupleMeta::new_with_delete(tid, true), &h.rid)),
                    (LogRecordType::Update, Some((m, t))) => {
                        if s.page(pg).write().update_tuple(m, &t, h.rid).is_err() {
                            simcore::violation("update-failed", &format!("row {:?} cannot get back its old content", h.rid));
                        }
                    }
                    (_, Some((m, t))) => {
                        if a(0) != 0 {
                            let r = LogRecord::new_insert_delete_record(tid, x.t.get_prev_lsn(), LogRecordType::RollbackDelete, h.rid, Arc::new(t));
                            s.append(x, r);
                        }
                        s.page(pg).write().update_tuple_meta(m, &h.rid).ok();
                    }
                    _ => {}
                }
            }
            let l = wal.write_abort_record(&x.t);
            s.release(x);
            ret(c, id, OK, &[l]);
            *cur = None;
        }
        _ => {}
    }
}
async fn read_log(m: &Arc<ferrite::storage::disk::async_disk::AsyncDiskManager>, life: u64) {
    simcore::faults(false);
    let mut it = LogIterator::new(m.clone());
    while let Some(r) = it.next().await {
        simcore::record(STATE, &[S_LOG, life, r.get_lsn(), r.get_log_record_type() as u64, r.get_txn_id()]);
    }
    simcore::record(NOTE, &[N_LOG, life]);
    simcore::faults(true);
}
/// Every row of every page that ever was.
fn survey(s: &Sh, life: u64, attempt: u64) {
    simcore::faults(false);
    let mut live = vec![];
    let mut left = vec![];
    let all = s.pages.lock().clone();
    for id in &all {
        // a page that was lost together with all log records about it reads as nothing
        let Some(g) = s.b.fetch_page::<TablePage>(*id) else { continue };
        left.push(*id);
        let r = g.read();
        for i in 0..r.get_num_tuples() as u32 {
            let rid = RID::new(*id, i);
            let (f, d, c) = match r.get_tuple(&rid, true) {
                Ok((m, t)) => (fp_tuple(&t), m.is_deleted(), m.is_committed()),
                Err(_) => (GARBAGE, false, false),
            };
            if !d {
                live.push(rw(rid));
            }
            simcore::record(STATE, &[S_ROW, life, attempt, rw(rid), f, d as u64, c as u64]);
        }
    }
    s.rows.lock().live = live;
    *s.pages.lock() = left;
    simcore::record(NOTE, &[N_ROWS, life, attempt]);
    simcore::faults(true);
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let m = open_disk(p).await;
        let life = phase as u64;
        let last = p.cfg_or("phases", 2) as u32 - 1;
        let lm = Arc::new(RwLock::new(LogManager::new(m.clone())));
        let b = bpm(p.cfg_or("frames", 5) as usize, 2, m.clone());
        let np = p.cfg_or("pages", 2);
        let s = {
            let (b, lm) = (b.clone(), lm.clone());
            Arc::new(
                offload(move || {
                    let mut pages = vec![];
                    if life == 0 {
                        for _ in 0..np {
                            let g = b.new_page::<TablePage>().expect("new page");
                            let mut w = g.write();
                            w.init();
                            w.set_dirty(true);
                            drop(w);
                            pages.push(g.get_page_id());
                            simcore::record(NOTE, &[21, g.get_page_id()]);
                        }
                    } else {
                        for r in simcore::history() {
                            if r.tag == NOTE && r.w[0] == 21 && !pages.contains(&r.w[1]) {
                                pages.push(r.w[1]);
                            }
                        }
                    }
                    Sh { b, lm, pages: Mutex::new(pages), slots: Mutex::new(BTreeMap::new()), rows: Mutex::new(Rows { owner: HashMap::new(), live: vec![] }) }
                })
                .await,
            )
        };
        let flush_first = p.cfg("flushfirst") != 0;
        if flush_first {
            lm.write().run_flush_thread();
        }
        if phase > 0 {
            read_log(&m, life).await;
            for attempt in 0..=p.cfg("again") as u64 {
                let rec = LogRecoveryManager::new(m.clone(), lm.clone(), b.clone());
                let id = (1 << 44) + life * 10 + attempt;
                inv(95, id, R_REC, &[life, attempt]);
                let r = rec.start_recovery().await;
                if let Err(e) = &r {
                    simcore::log(e);
                }
                ret(95, id, if r.is_ok() { OK } else { ERR }, &[]);
                if r.is_err() {
                    if phase == last {
                        simcore::done();
                    }
                    simcore::crash();
                }
                let s2 = s.clone();
                offload(move || survey(&s2, life, attempt)).await;
            }
        }
        if phase == last {
            simcore::done();
        }
        if !flush_first {
            lm.write().run_flush_thread();
        }
        let s2 = s.clone();
        drive(p, 10 * phase, 10 * phase + 10, move |c| {
            let wal = WALManager::new(s2.lm.clone());
            let mut cur = None;
            for (id, o) in ops_of(p, c) {
                step(p, &s2, &wal, c, life, id, o, &mut cur);
            }
        })
        .await;
        if p.cfg("close") != 0 {
            // an orderly end
            let lm2 = lm.clone();
            tokio::task::spawn_blocking(move || lm2.write().shut_down()).await.unwrap();
            if b.flush_all_pages_durable().await.is_err() {
                simcore::violation("flush-failed", "flushing failed without an I/O error");
            }
            simcore::exit_keep();
        }
        simcore::crash();
    });
}

//! Transactions over a table: begin, insert, update, delete, read, scan, commit, abort, garbage collection.
use crate::locks::iso;
use crate::util::*;
use crate::wal::{bpm, fp_tuple, row, schema};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockMode;
use ferrite::concurrency::transaction::TransactionState;
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::TupleMeta;
use parking_lot::{Mutex, RwLock};
use simcore::Plan;
use std::sync::Arc;
use std::time::Duration;

pub const X_BEGIN: u64 = 90; // level; res: txn, snapshot
pub const X_END: u64 = 91; // txn, 1 commit 0 abort; res: 1 committed 0 not, commit timestamp
pub const X_W: u64 = 92; // txn, 0 insert 1 update 2 delete, table, row (insert: 0), fingerprint; res: row
pub const X_R: u64 = 93; // txn, table, row; res: fingerprint (0 absent)
pub const X_SCAN: u64 = 94; // txn, table; res: (row, fingerprint)*
pub const X_WM: u64 = 95; // res: watermark
pub const X_GC: u64 = 96;

struct Sh {
    f: TransactionManagerFactory,
    tm: Arc<TransactionManager>,
    t: Vec<Arc<TransactionalTableHeap>>,
    rows: Mutex<Vec<(u64, RID)>>,
    h: tokio::runtime::Handle,
    _b: Arc<BufferPoolManager>,
}
fn rw(r: RID) -> u64 {
    r.get_page_id() << 20 | r.get_slot_num() as u64
}
type Ctx = Arc<TransactionContext>;
impl Sh {
    fn begin(&self, c: u32, lv: u64) -> Ctx {
        let id = (1 << 40) + next_id();
        inv(c, id, X_BEGIN, &[lv]);
        let x = self.f.begin_transaction(iso(lv));
        ret(c, id, OK, &[x.get_transaction_id(), x.get_transaction().read_ts()]);
        x
    }
    fn end(&self, c: u32, x: &Ctx, commit: bool) {
        let id = (1 << 40) + next_id();
        inv(c, id, X_END, &[x.get_transaction_id(), commit as u64]);
        let t = x.get_transaction();
        if commit {
            let ok = self.h.block_on(self.f.commit_transaction(x.clone()));
            let done = t.get_state() == TransactionState::Committed;
            ret(c, id, OK, &[done as u64, t.commit_ts(), ok as u64]);
        } else {
            self.f.abort_transaction(x.clone());
            ret(c, id, OK, &[0, 0, 0]);
        }
    }
    fn read(&self, p: &Plan, c: u32, x: &Ctx, tb: u64, rid: RID) -> Option<u64> {
        let id = (1 << 40) + next_id();
        inv(c, id, X_R, &[x.get_transaction_id(), tb, rw(rid)]);
        let h = &self.t[tb as usize];
        let r = if p.cfg("via") != 0 && id & 1 != 0 { h.get_table_heap().get_tuple_with_txn(rid, x.clone()) } else { h.get_tuple(rid, x.clone()) };
        match r {
            Ok((_, t)) => {
                let f = fp_tuple(&t);
                ret(c, id, OK, &[f]);
                Some(f)
            }
            Err(e) => {
                if e.contains("deleted") || e.contains("No visible") {
                    ret(c, id, OK, &[0]);
                } else {
                    simcore::log(&format!("read: {e}"));
                    ret(c, id, ERR, &[]);
                }
                None
            }
        }
    }
    fn scan(&self, c: u32, x: &Ctx, tb: u64) {
        let id = (1 << 40) + next_id();
        inv(c, id, X_SCAN, &[x.get_transaction_id(), tb]);
        let mut it = self.t[tb as usize].make_iterator(Some(x.clone()));
        let mut v = vec![];
        while let Some((_, t)) = it.next() {
            v.push(it.get_last_rid().map(rw).unwrap_or(u64::MAX));
            v.push(fp_tuple(&t));
        }
        ret(c, id, OK, &v);
    }
    fn write(&self, p: &Plan, c: u32, x: &Ctx, kind: u64, tb: u64, rid: RID, var: u64) -> bool {
        let id = (1 << 40) + next_id();
        let tid = x.get_transaction_id();
        let mut size = p.cfg_or("size", 40) as u64;
        if p.cfg("vs") != 0 {
            size = [5, 40, size, size, 2 * size, 500][(id % 6) as usize];
        }
        let (t, f) = row(id, var, size, rid);
        inv(c, id, X_W, &[tid, kind, tb, if kind == 0 { 0 } else { rw(rid) }, if kind == 2 { 0 } else { f }]);
        let h = &self.t[tb as usize];
        let r = match kind {
            0 if var == 0 => h.insert_tuple_from_values(t.get_values().to_vec(), &schema(), x.clone()),
            0 => h.insert_tuple(Arc::new(TupleMeta::new(tid)), &t, x.clone()),
            // the executor names no transaction here, the library's tests name their own
            1 => h.update_tuple(&TupleMeta::new(if p.cfg("meta0") != 0 { 0 } else { tid }), &t, rid, x.clone()),
            _ => h.delete_tuple(rid, x.clone()).map(|_| rid),
        };
        match r {
            Ok(r) => {
                ret(c, id, OK, &[rw(r)]);
                if kind == 0 {
                    self.rows.lock().push((tb, r));
                }
                true
            }
            Err(e) => {
                simcore::log(&format!("write {kind}: {e}"));
                ret(c, id, ERR, &[]);
                false
            }
        }
    }
    fn pick(&self, n: u64, hot: bool) -> Option<(u64, RID)> {
        let v = self.rows.lock();
        if v.is_empty() {
            return None;
        }
        // small numbers mean the first rows, large ones the latest
        Some(if hot { v[n as usize % v.len().min(3)] } else if n < 1000 { v[n as usize % v.len()] } else { v[v.len() - 1 - (n as usize - 1000) % v.len()] })
    }
    /// Ok(true) locked, Ok(false) gave up waiting, Err: chosen as the victim of a deadlock
    fn lock(&self, p: &Plan, x: &Ctx, tb: u64, rid: RID) -> Result<bool, ()> {
        let lm = self.f.get_lock_manager();
        let t = x.get_transaction();
        for step in 0..2 {
            for n in 0.. {
                let r = if step == 0 { lm.lock_table(t.clone(), LockMode::IntentionExclusive, tb) } else { lm.lock_row(t.clone(), LockMode::Exclusive, tb, rid) };
                if t.get_state() == TransactionState::Aborted {
                    simcore::probe(2);
                    return Err(());
                }
                match r {
                    Ok(true) => break,
                    Ok(false) if n < 200 => std::thread::sleep(Duration::from_micros(p.cfg_or("poll", 3000) as u64)),
                    _ => return Ok(false),
                }
            }
        }
        Ok(true)
    }
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    let mut cur: Option<Ctx> = None;
    for (_, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        let hot = a(1) != 0;
        match o.k.as_str() {
            "s" => std::thread::sleep(Duration::from_micros(a(0))),
            "b" => {
                if let Some(x) = cur.take() {
                    s.end(c, &x, true);
                }
                cur = Some(s.begin(c, a(0)));
            }
            "gc" | "w" => {
                let id = (1 << 40) + next_id();
                if o.k == "gc" {
                    inv(c, id, X_GC, &[]);
                    s.tm.garbage_collection();
                    ret(c, id, OK, &[]);
                } else {
                    inv(c, id, X_WM, &[]);
                    let w = s.tm.get_watermark();
                    ret(c, id, OK, &[w]);
                }
            }
            _ => {
                let Some(x) = cur.clone() else { continue };
                match o.k.as_str() {
                    "c" | "a" => {
                        s.end(c, &x, o.k == "c");
                        cur = None;
                    }
                    "sc" => s.scan(c, &x, a(0) % s.t.len() as u64),
                    "i" => drop(s.write(p, c, &x, 0, a(0) % s.t.len() as u64, RID::new(0, 0), a(2) & 1)),
                    k => {
                        let Some((tb, rid)) = s.pick(a(0), hot) else { continue };
                        let okw = match k {
                            "g" => {
                                s.read(p, c, &x, tb, rid);
                                true
                            }
                            "u" => s.write(p, c, &x, 1, tb, rid, 0),
                            "d" => s.write(p, c, &x, 2, tb, rid, 0),
                            // read, then change what was read
                            "gu" => s.read(p, c, &x, tb, rid).is_none() || s.write(p, c, &x, 1, tb, rid, 0),
                            _ => match s.lock(p, &x, tb, rid) {
                                Ok(_) => true,
                                Err(()) => {
                                    s.end(c, &x, a(2) != 0);
                                    cur = None;
                                    true
                                }
                            },
                        };
                        // a refused change: give up, or carry on with the rest
                        if !okw && a(2) != 0 {
                            s.end(c, &x, false);
                            cur = None;
                        }
                    }
                }
            }
        }
    }
    if let Some(x) = cur.take() {
        s.end(c, &x, true);
    }
}
pub fn run(p: &'static Plan, _phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let m = open_disk(p).await;
        let b = bpm(p.cfg_or("frames", 10) as usize, 2, m.clone());
        let f = if p.cfg("wal") != 0 {
            let lm = Arc::new(RwLock::new(LogManager::new(m.clone())));
            lm.write().run_flush_thread();
            TransactionManagerFactory::with_wal_manager(b.clone(), Arc::new(WALManager::new(lm)))
        } else {
            TransactionManagerFactory::new(b.clone())
        };
        let tm = f.get_transaction_manager();
        let t: Vec<_> = (0..p.cfg_or("tables", 1) as u64).map(|i| Arc::new(TransactionalTableHeap::new(Arc::new(TableHeap::new(b.clone(), i)), i))).collect();
        t.iter().for_each(|t| tm.register_table(t.clone()));
        let s = Arc::new(Sh { f, tm, t, rows: Mutex::new(vec![]), h: tokio::runtime::Handle::current(), _b: b });
        let s1 = s.clone();
        offload(move || {
            let x = s1.begin(90, 1);
            for i in 0..p.cfg_or("rows", 4) as u64 {
                s1.write(p, 90, &x, 0, i % s1.t.len() as u64, RID::new(0, 0), i & 1);
            }
            s1.end(90, &x, true);
        })
        .await;
        let s1 = s.clone();
        drive(p, 0, 10, move |c| client(p, c, &s1)).await;
        let s1 = s.clone();
        offload(move || {
            simcore::record(STATE, &[90]);
            for lv in 0..5 {
                let x = s1.begin(91, lv);
                let rows = s1.rows.lock().clone();
                for (tb, r) in rows {
                    s1.read(p, 91, &x, tb, r);
                }
                for tb in 0..s1.t.len() as u64 {
                    s1.scan(91, &x, tb);
                }
                s1.end(91, &x, lv & 1 == 0);
            }
            let id = (1 << 40) + next_id();
            inv(91, id, X_WM, &[]);
            let w = s1.tm.get_watermark();
            ret(91, id, OK, &[w]);
        })
        .await;
        simcore::done();
    });
}

//! Table pages and table heaps: concurrent rows through a buffer pool that evicts, and restarts.
use crate::util::*;
use crate::wal::{bpm, fp_tuple, fp_vals, row, schema};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::common::rid::RID;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::PageTrait;
use ferrite::storage::table::table_heap::{TableHeap, TableInfo};
use ferrite::storage::table::table_iterator::TableScanIterator;
use ferrite::storage::table::tuple::TupleMeta;
use parking_lot::Mutex;
use simcore::rng::mix;
use simcore::Plan;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;

pub const P_INS: u64 = 50; // page, tuple, meta, deleted, bytes; res: slot
pub const P_UPD: u64 = 51; // page, slot, tuple, meta, deleted, bytes
pub const P_META: u64 = 52; // page, slot, meta, deleted
pub const P_GET: u64 = 53; // page, slot, allow deleted; res: tuple, meta
pub const P_LINK: u64 = 54; // page, next
pub const P_ALL: u64 = 55; // page; res: tuples, deleted, next, hash
pub const H_INS: u64 = 60; // table, tuple, bytes; res: rid
pub const H_UPD: u64 = 61; // table, rid, tuple, bytes
pub const H_DEL: u64 = 62; // table, rid
pub const H_GET: u64 = 63; // table, rid; res: tuple
pub const H_SCAN: u64 = 64; // table; rows follow as STATE 64, scan id, rid, tuple
pub const H_COUNT: u64 = 65; // table; res: tuples
pub const H_FLUSH: u64 = 66;
pub const NOFRAME: u64 = 2;

pub fn meta_of(big: bool, h: u64, del: bool) -> TupleMeta {
    if big {
        // everything as long as it gets
        let mut m = TupleMeta::new_with_delete(h | 1 << 63, del);
        m.set_commit_timestamp(h.rotate_left(9) | 1 << 63);
        m.set_undo_log_idx((h.rotate_left(22) | 1 << 63) as usize).unwrap();
        return m;
    }
    let txn = match h % 4 {
        0 => h >> 1,
        1 => h % 100,
        _ => h % 100_000,
    };
    let mut m = TupleMeta::new_with_delete(txn, del);
    if h >> 8 & 1 == 1 {
        m.set_commit_timestamp(if h >> 9 & 1 == 1 { h >> 3 } else { h % 1000 });
    }
    if h >> 10 & 1 == 1 {
        m.set_undo_log_idx((h >> 20) as usize).unwrap();
    }
    m
}
pub fn fp_meta(m: &TupleMeta) -> u64 {
    fp_vals(&[m.get_creator_txn_id(), m.get_commit_timestamp().map(|x| x ^ 1 << 63).unwrap_or(7), m.is_deleted() as u64, m.get_undo_log_idx_raw_opt().map(|x| x ^ 1 << 63).unwrap_or(9)])
}
fn bytes(t: &ferrite::storage::table::tuple::Tuple) -> u64 {
    t.get_length().unwrap_or(99999) as u64
}
pub fn all_hash(v: impl Iterator<Item = (u64, u64)>) -> u64 {
    v.fold(3, |a, (t, m)| mix(a ^ mix(t) ^ m.rotate_left(9)))
}
pub fn rid_word(r: RID) -> u64 {
    r.get_page_id() << 20 | r.get_slot_num() as u64
}
pub fn word_rid(w: u64) -> RID {
    RID::new(w >> 20, (w & 0xfffff) as u32)
}
struct Sh {
    big: bool,
    b: Arc<BufferPoolManager>,
    pages: Vec<u64>,
    heaps: Vec<Arc<TableHeap>>,
    rids: Mutex<HashMap<u64, (u64, u64)>>, // plan operation -> table, rid
}
fn flush(b: &BufferPoolManager, k: u64, n: u64, page: Option<u64>) -> bool {
    match k {
        0 => match page {
            Some(p) => wait(b.flush_page_async(p)).is_ok(),
            None => true,
        },
        1 => wait(b.flush_dirty_pages_batch_async(n as usize + 1)).is_ok(),
        2 => {
            wait(b.flush_all_pages_async());
            true
        }
        _ => wait(b.flush_all_pages_durable()).is_ok(),
    }
}
fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    let h = tokio::runtime::Handle::current();
    tokio::task::block_in_place(|| h.block_on(f))
}
fn page_step(s: &Sh, c: u32, id: u64, o: &'static simcore::Op) {
    let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
    let n = a(0);
    let page = s.pages[n as usize];
    let rid = RID::new(page, a(1) as u32);
    let h = mix(id ^ 0xabc);
    match o.k.as_str() {
        "i" => {
            let (mut t, f) = row(id, 0, a(1), rid);
            let m = meta_of(s.big, h, a(3) != 0);
            inv(c, id, P_INS, &[n, f, fp_meta(&m), m.is_deleted() as u64, bytes(&t)]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            let mut w = g.write();
            let next = w.get_next_rid();
            t.set_rid(next);
            let r = if a(2) != 0 { w.insert_tuple_with_rid(&m, &t, next) } else { w.insert_tuple(&m, &t) };
            drop(w);
            match r {
                Some(r) => ret(c, id, OK, &[r.get_slot_num() as u64 | (r.get_page_id() != page) as u64 * 1000]),
                None => ret(c, id, ERR, &[]),
            };
        }
        "u" => {
            let (t, f) = row(id, 0, a(2), rid);
            let m = meta_of(s.big, h, a(3) != 0);
            inv(c, id, P_UPD, &[n, a(1), f, fp_meta(&m), m.is_deleted() as u64, bytes(&t)]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            let r = g.write().update_tuple(m, &t, rid).is_ok();
            ret(c, id, if r { OK } else { ERR }, &[]);
        }
        "m" => {
            let m = meta_of(s.big, h, a(2) != 0);
            inv(c, id, P_META, &[n, a(1), fp_meta(&m), m.is_deleted() as u64]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            let r = g.write().update_tuple_meta(m, &rid).is_ok();
            ret(c, id, if r { OK } else { ERR }, &[]);
        }
        "g" => {
            inv(c, id, P_GET, &[n, a(1), a(2)]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            let r = g.read().get_tuple(&rid, a(2) != 0);
            match r {
                Ok((m, t)) => ret(c, id, OK, &[fp_tuple(&t) ^ (t.get_rid() != rid) as u64, fp_meta(&m)]),
                Err(_) => ret(c, id, ERR, &[]),
            };
        }
        "l" => {
            inv(c, id, P_LINK, &[n, a(1)]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            g.write().set_next_page_id(a(1));
            ret(c, id, OK, &[]);
        }
        "a" => {
            inv(c, id, P_ALL, &[n]);
            let Some(g) = s.b.fetch_page::<TablePage>(page) else {
                ret(c, id, NOFRAME, &[]);
                return;
            };
            let r = g.read();
            let k = r.get_num_tuples();
            let v: Vec<(u64, u64)> = (0..k as u32)
                .map(|i| match r.get_tuple(&RID::new(page, i), true) {
                    Ok((m, t)) => (fp_tuple(&t), fp_meta(&m)),
                    Err(e) => {
                        simcore::log(&e);
                        (GARBAGE, i as u64)
                    }
                })
                .collect();
            let res = [k as u64, r.get_num_deleted_tuples() as u64, r.get_next_page_id(), all_hash(v.into_iter())];
            drop(r);
            ret(c, id, OK, &res);
        }
        _ => {}
    }
}
fn heap_step(s: &Sh, c: u32, id: u64, o: &'static simcore::Op) {
    let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
    // rows committed long ago: what stands in the way of an update is not the heap's business here
    let meta = |del: bool| {
        let mut m = TupleMeta::new_with_delete(1 + id % 3, del);
        m.set_commit_timestamp(1 + id);
        Arc::new(m)
    };
    let target = || s.rids.lock().get(&a(0)).copied();
    match o.k.as_str() {
        "hi" => {
            let heap = &s.heaps[a(0) as usize];
            let (t, f) = row(id, 0, a(1), RID::default());
            inv(c, id, H_INS, &[a(0), f, bytes(&t)]);
            match heap.insert_tuple_from_values(t.get_values(), &schema(), meta(false)) {
                Ok(r) => {
                    s.rids.lock().insert(id, (a(0), rid_word(r)));
                    ret(c, id, OK, &[rid_word(r)]);
                }
                Err(e) => {
                    simcore::log(&e);
                    ret(c, id, ERR, &[]);
                }
            }
        }
        "hu" => {
            let Some((tb, w)) = target() else { return };
            let (t, f) = row(id, 0, a(1), word_rid(w));
            inv(c, id, H_UPD, &[tb, w, f, bytes(&t)]);
            let heap = &s.heaps[tb as usize];
            let r = if a(2) == 0 { heap.update_tuple(meta(false), &t, word_rid(w), None) } else { heap.update_tuple(meta(false), &t, word_rid(w), None) };
            ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
        }
        "hd" => {
            let Some((tb, w)) = target() else { return };
            inv(c, id, H_DEL, &[tb, w]);
            let r = s.heaps[tb as usize].update_tuple_meta(meta(true), word_rid(w));
            ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
        }
        "hg" => {
            let Some((tb, w)) = target() else { return };
            get(s, c, id, tb, w);
        }
        "hs" => scan(s, c, id, a(0)),
        _ => {}
    }
}
fn get(s: &Sh, c: u32, id: u64, tb: u64, w: u64) {
    inv(c, id, H_GET, &[tb, w]);
    match s.heaps[tb as usize].get_tuple(word_rid(w)) {
        Ok((_, t)) => ret(c, id, OK, &[fp_tuple(&t)]),
        Err(e) => {
            simcore::log(&e);
            ret(c, id, ERR, &[])
        }
    };
}
fn scan(s: &Sh, c: u32, id: u64, tb: u64) {
    let info = Arc::new(TableInfo::new(schema(), "t".into(), s.heaps[tb as usize].clone(), tb));
    inv(c, id, H_SCAN, &[tb]);
    let mut it = TableScanIterator::new(info);
    let mut n = 0;
    let mut rows = vec![];
    while let Some((_, t)) = it.next() {
        rows.push((rid_word(it.get_rid()), rid_word(t.get_rid()), fp_tuple(&t)));
        n += 1;
        if n > 3000 {
            break;
        }
    }
    for (r, tr, f) in rows {
        simcore::record(STATE, &[64, id, r, tr, f]);
    }
    ret(c, id, OK, &[n]);
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    for (id, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        match o.k.as_str() {
            "f" => {
                inv(c, id, H_FLUSH, &[a(0)]);
                let r = flush(&s.b, a(0), a(1), s.pages.get(a(1) as usize).copied());
                ret(c, id, if r { OK } else { ERR }, &[]);
            }
            "s" => std::thread::sleep(Duration::from_micros(a(0))),
            k if k.starts_with('h') => heap_step(s, c, id, o),
            _ => page_step(s, c, id, o),
        }
    }
}
/// Look at everything, alone.
fn survey(s: &Sh, ph: u64) {
    for (i, _) in s.pages.iter().enumerate() {
        let o: &'static simcore::Op = Box::leak(Box::new(simcore::Op { c: 90, k: "a".into(), a: vec![i as i64] }));
        page_step(s, 90, (1 << 33) + ph * 1000 + i as u64, o);
    }
    for (i, h) in s.heaps.iter().enumerate() {
        scan(s, 90, (1 << 34) + ph * 1000 + i as u64, i as u64);
        inv(90, (1 << 35) + ph * 1000 + i as u64, H_COUNT, &[i as u64]);
        let n = h.get_num_tuples();
        ret(90, (1 << 35) + ph * 1000 + i as u64, OK, &[n as u64]);
    }
    let mut v: Vec<(u64, u64)> = s.rids.lock().values().copied().collect();
    v.sort();
    for (i, (tb, w)) in v.into_iter().enumerate() {
        get(s, 90, (1 << 36) + ph * 1000 + i as u64, tb, w);
    }
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    simcore::record(NOTE, &[20, phase as u64]);
    rt.block_on(async move {
        let m = open_disk(p).await;
        let ph = phase as u64;
        let last = p.cfg_or("phases", 1) as u32 - 1;
        let b = bpm(p.cfg_or("frames", 4) as usize, 2, m.clone());
        let (np, nh) = (p.cfg("pages") as usize, p.cfg("heaps") as usize);
        let s = Arc::new(offload(move || {
            let (mut pages, mut heaps, mut rids) = (vec![], vec![], HashMap::new());
            if ph == 0 {
                for _ in 0..np {
                    let g = b.new_page::<TablePage>().expect("new page");
                    let id = g.get_page_id();
                    let mut w = g.write();
                    w.init();
                    w.set_dirty(true);
                    drop(w);
                    pages.push(id);
                    simcore::record(NOTE, &[21, id]);
                }
                for i in 0..nh {
                    heaps.push(Arc::new(TableHeap::new(b.clone(), i as u64)));
                }
            } else {
                let mut ins = HashMap::new();
                let mut ends = HashMap::new();
                for r in simcore::history() {
                    match (r.tag, r.w[0]) {
                        (NOTE, 21) => pages.push(r.w[1]),
                        (NOTE, 22) => drop(ends.insert(r.w[1], (r.w[2], r.w[3]))),
                        (INV, _) if r.w[2] == H_INS => drop(ins.insert(r.w[1], r.w[3])),
                        (RET, _) if r.w[2] == OK && ins.contains_key(&r.w[1]) => drop(rids.insert(r.w[1], (ins[&r.w[1]], r.w[3]))),
                        _ => {}
                    }
                }
                for i in 0..nh as u64 {
                    let (f, l) = ends[&i];
                    heaps.push(Arc::new(TableHeap::reopen(b.clone(), i, f, if p.cfg("tail") == 0 { l } else { ferrite::common::config::INVALID_PAGE_ID })));
                }
            }
            Sh { big: p.cfg("meta") != 0, b, pages, heaps, rids: Mutex::new(rids) }
        })
        .await);
        if ph == 0 || phase < last {
            let s2 = s.clone();
            drive(p, 10 * phase, 10 * phase + 10, move |c| client(p, c, &s2)).await;
        }
        simcore::faults(false);
        let s2 = s.clone();
        offload(move || survey(&s2, ph)).await;
        simcore::faults(true);
        if phase < last {
            for (i, h) in s.heaps.iter().enumerate() {
                simcore::record(NOTE, &[22, i as u64, h.get_first_page_id_raw(), h.get_last_page_id_raw()]);
            }
            if s.b.flush_all_pages_durable().await.is_err() {
                simcore::violation("flush-failed", "flushing failed without an I/O error");
            }
            simcore::crash();
        }
        simcore::done();
    });
}

//! The I/O engine on its own: the queue, the workers, the executor and the completion tracker.
use crate::disk::{DB, LOG};
use crate::util::*;
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::direct_io::DirectIOConfig;
use simcore::{record, Plan};
use std::sync::Arc;
use std::time::Duration;
use tokio::fs::File;
use tokio::sync::Mutex;

pub const O_WRITE: u64 = 1; // slot, value: a page, or (from 1000 on) a slot at the head of the log
pub const O_READ: u64 = 2; // slot; res: value
pub const O_SYNC: u64 = 3; // 0 pages, 1 log, 2 log directly
pub const O_APPEND: u64 = 4; // length; res: offset
pub const O_BACK: u64 = 5; // the append's id, offset, length; res: 1 if the bytes are the record's
pub const O_CANCEL: u64 = 6; // mode; res: how many
pub const O_OWNER: u64 = 10; // operation; res: outcome
pub const O_ACT: u64 = 11; // operation, actor, mode; res: 1 accepted
pub const O_WAIT: u64 = 12; // operation; res: outcome
pub const O_WAITALL: u64 = 13; // operations*; res: (operation, outcome)*
pub const O_EXPIRE: u64 = 14; // res: how many
const SLOTS: u64 = 4;

fn rec(id: u64, len: u64) -> Vec<u8> {
    (0..len).map(|i| simcore::rng::mix((id + 1).wrapping_mul(0x51ed).wrapping_add(i / 8)).to_le_bytes()[(i % 8) as usize]).collect()
}
async fn file(path: &str) -> File {
    match File::options().read(true).write(true).create(true).truncate(false).open(path).await {
        Ok(f) => f,
        Err(e) => simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", &format!("open {path}: {e}")),
    }
}
async fn engine(p: &Plan) -> AsyncIOEngine {
    let (db, log) = (file(DB).await, file(LOG).await);
    let size = p.cfg("pages") as u64 * 4096;
    for (f, n) in [(&db, size), (&log, SLOTS * 4096)] {
        if f.metadata().await.map(|m| m.len()).unwrap_or(0) < n {
            let r = f.set_len(n).await;
            if r.is_err() || f.sync_all().await.is_err() {
                simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", "the files could not be laid out");
            }
        }
    }
    let c = DirectIOConfig { enabled: p.cfg("direct") != 0, alignment: if p.cfg("direct") == 2 { 4096 } else { 512 } };
    let mut e = match AsyncIOEngine::with_config(Arc::new(Mutex::new(db)), Arc::new(Mutex::new(log)), c) {
        Ok(e) => e,
        Err(e) => simcore::violation("init", &format!("the engine could not be created: {e}")),
    };
    e.start(p.cfg_or("workers", 2) as usize);
    e
}
async fn client(p: &'static Plan, c: u32, e: Arc<AsyncIOEngine>) {
    let mut mine: Vec<(u64, u64, u64)> = vec![];
    for (id, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        let st = |ok: bool| if ok { OK } else { ERR };
        match o.k.as_str() {
            // a submitter that may give up waiting
            "w" | "wt" => {
                let (s, v) = (a(0), id + 1);
                inv(c, id, O_WRITE, &[s, v]);
                let d = page_of(s, v);
                let f = async {
                    match (s, a(1)) {
                        (1000.., 0) => e.write_log(&d, (s - 1000) * 4096).await,
                        (1000.., k) => e.write_log_with_priority(&d, (s - 1000) * 4096, k as u8).await,
                        (_, 0) => e.write_page(s, &d).await,
                        (_, k) => e.write_page_with_priority(s, &d, k as u8).await,
                    }
                };
                if o.k == "wt" {
                    match tokio::time::timeout(Duration::from_micros(a(2)), f).await {
                        Ok(r) => ret(c, id, st(r.is_ok()), &[]),
                        Err(_) => ret(c, id, NONE, &[]),
                    };
                } else {
                    let r = f.await;
                    if let Err(e) = &r {
                        simcore::log(&format!("write {s}: {e}"));
                    }
                    ret(c, id, st(r.is_ok()), &[]);
                }
            }
            "r" => {
                let s = a(0);
                inv(c, id, O_READ, &[s]);
                let r = match (s, a(1)) {
                    (1000.., 0) => e.read_log((s - 1000) * 4096, 4096).await,
                    (1000.., k) => e.read_log_with_priority((s - 1000) * 4096, 4096, k as u8).await,
                    (_, 0) => e.read_page(s).await,
                    (_, k) => e.read_page_with_priority(s, k as u8).await,
                };
                match r {
                    Ok(d) => ret(c, id, OK, &[page_val(s, &d)]),
                    Err(e) => {
                        simcore::log(&format!("read {s}: {e}"));
                        ret(c, id, ERR, &[])
                    }
                };
            }
            "a" => {
                inv(c, id, O_APPEND, &[a(0)]);
                let d = rec(id, a(0));
                match if a(1) != 0 { e.append_log_direct(&d).await } else { e.append_log(&d).await } {
                    Ok(off) => {
                        mine.push((id, off, a(0)));
                        ret(c, id, OK, &[off])
                    }
                    Err(e) => {
                        simcore::log(&format!("append: {e}"));
                        ret(c, id, ERR, &[])
                    }
                };
            }
            "b" => {
                if let Some(&(x, off, len)) = mine.get(a(0) as usize % mine.len().max(1)) {
                    back(c, id, &e, x, off, len).await;
                }
            }
            "y" => {
                inv(c, id, O_SYNC, &[a(0)]);
                let r = match a(0) {
                    0 => e.sync().await,
                    1 => e.sync_log().await,
                    _ => e.sync_log_direct().await,
                };
                ret(c, id, st(r.is_ok()), &[]);
            }
            "x" => {
                inv(c, id, O_CANCEL, &[a(0)]);
                let n = match a(0) {
                    0 => e.clear_queue().await,
                    _ => e.cancel_all_pending_operations("a client said so").await,
                };
                ret(c, id, OK, &[n as u64]);
            }
            "s" => tokio::time::sleep(Duration::from_micros(a(0))).await,
            _ => {}
        }
    }
    for (x, off, len) in mine {
        record(STATE, &[O_APPEND, x, off, len]);
    }
}
async fn back(c: u32, id: u64, e: &AsyncIOEngine, x: u64, off: u64, len: u64) {
    inv(c, id, O_BACK, &[x, off, len]);
    match e.read_log(off, len as usize).await {
        Ok(d) => ret(c, id, OK, &[(d == rec(x, len)) as u64]),
        Err(er) => {
            simcore::log(&format!("read back {off}+{len}: {er}"));
            ret(c, id, ERR, &[])
        }
    };
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        if phase > 0 {
            // what is left, read without the library
            record(NOTE, &[2]);
            let db = std::fs::read(DB).unwrap_or_default();
            let log = std::fs::read(LOG).unwrap_or_default();
            let pages = p.cfg("pages") as u64;
            for s in (0..pages).chain(1000..1000 + SLOTS) {
                let (d, o) = if s < 1000 { (&db, s * 4096) } else { (&log, (s - 1000) * 4096) };
                let v = d.get(o as usize..(o + 4096) as usize).map(|d| page_val(s, d)).unwrap_or(GARBAGE);
                record(STATE, &[O_READ, s, v]);
            }
            for (id, o) in p.ops.iter().enumerate().filter(|(_, o)| o.k == "a") {
                // where the record is now, if anywhere
                let d = rec(id as u64, o.a[0] as u64);
                let at = log.windows(d.len().max(1)).position(|w| w == d.as_slice());
                record(STATE, &[O_BACK, id as u64, at.map(|x| x as u64).unwrap_or(u64::MAX)]);
            }
            simcore::done();
        }
        let e = Arc::new(engine(p).await);
        let e2 = e.clone();
        tasks(p.clients(), move |c| client(p, c, e2.clone())).await;
        simcore::faults(false);
        // abandoned operations still finish
        let mut n = 0;
        while e.queue_size().await > 0 || e.pending_operations_count().await > 0 {
            tokio::time::sleep(Duration::from_millis(5)).await;
            n += 1;
            if n > 2000 {
                simcore::violation("stuck", &format!("10 s after the last client: {} queued, {} pending", e.queue_size().await, e.pending_operations_count().await));
            }
        }
        for s in (0..p.cfg("pages") as u64).chain(1000..1000 + SLOTS) {
            let id = (1 << 41) + s;
            inv(98, id, O_READ, &[s]);
            let r = if s < 1000 { e.read_page(s).await } else { e.read_log((s - 1000) * 4096, 4096).await };
            match r {
                Ok(d) => ret(98, id, OK, &[page_val(s, &d)]),
                Err(_) => ret(98, id, ERR, &[]),
            };
        }
        let h = simcore::history();
        for r in h.iter().filter(|r| r.tag == STATE && r.w[0] == O_APPEND) {
            back(98, (1 << 42) + r.w[1], &e, r.w[1], r.w[2], r.w[3]).await;
        }
        if p.cfg("endcrash") != 0 {
            simcore::crash();
        }
        simcore::done();
    });
}

/// An outcome as a number: 100.. success, 200.. failure, 300 timed out, 400.. cancelled (plus who),
/// 500 the wait timed out, 600 no such operation, 700 anything else.
fn code(s: &str) -> u64 {
    let n = || s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().unwrap_or(99);
    if s.contains("timed out") {
        300
    } else if s.contains("Timeout waiting") {
        500
    } else if s.contains("cancelled") {
        400 + n()
    } else if s.contains("not found") {
        600
    } else if s.contains("Success") {
        100 + n()
    } else if s.contains("failed by") {
        200 + n()
    } else {
        700
    }
}
/// The completion tracker: for each operation an owner, waiters, and actors that race to settle it.
pub fn run_tracker(p: &'static Plan, _phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let e = Arc::new(engine(p).await);
        let t = e.completion_tracker();
        let mut hs = vec![];
        let mut ids = std::collections::BTreeMap::new();
        // operations are started first, so that anybody can wait for them
        for (k, o) in p.ops.iter().enumerate().filter(|(_, o)| o.k == "t") {
            let k = k as u64;
            let (id, rx) = t.start_operation((o.a[0] > 0).then(|| Duration::from_micros(o.a[0] as u64))).await;
            if ids.values().any(|x| *x == id) {
                simcore::violation("twice", &format!("two operations were given the number {id}"));
            }
            ids.insert(k, id);
            hs.push(tokio::spawn(async move {
                inv(1, k, O_OWNER, &[k]);
                let r = match rx.await {
                    Ok(r) => code(&format!("{r:?}")),
                    Err(_) => 400,
                };
                ret(1, k, OK, &[r]);
            }));
        }
        let ids = Arc::new(ids);
        for (k, o) in p.ops.iter().enumerate().filter(|(_, o)| o.k != "t") {
            let (k, t, ids) = (k as u64, t.clone(), ids.clone());
            let a = move |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
            hs.push(tokio::spawn(async move {
                let us = a(0);
                if us > 0 {
                    tokio::time::sleep(Duration::from_micros(us)).await;
                }
                let id = |i: usize| ids.get(&a(i)).copied().unwrap_or(u64::MAX);
                match o.k.as_str() {
                    "act" => {
                        inv(2, k, O_ACT, &[a(1), k, a(2)]);
                        let r = match a(2) {
                            0 => t.complete_operation(id(1), vec![k as u8]).await,
                            1 => t.fail_operation(id(1), format!("failed by {k}")).await,
                            _ => t.cancel_operation(id(1), format!("by {k}")).await,
                        };
                        ret(2, k, OK, &[r.is_ok() as u64]);
                    }
                    "wait" => {
                        inv(3, k, O_WAIT, &[a(1)]);
                        let r = t.wait_for_operation(id(1), Duration::from_secs(20)).await;
                        if let Err(e) = &r {
                            simcore::log(e);
                        }
                        ret(3, k, OK, &[code(&match r {
                            Ok(r) => format!("{r:?}"),
                            Err(e) => e,
                        })]);
                    }
                    "waitall" => {
                        let v: Vec<u64> = o.a[1..].iter().map(|x| *x as u64).collect();
                        inv(4, k, O_WAITALL, &v);
                        let w: Vec<u64> = v.iter().map(|x| ids[x]).collect();
                        match t.wait_for_operations(&w, Duration::from_secs(20)).await {
                            Ok(r) => {
                                let who = |id: u64| ids.iter().find(|x| *x.1 == id).map(|x| *x.0).unwrap_or(u64::MAX);
                                ret(4, k, OK, &r.into_iter().flat_map(|(i, r)| [who(i), code(&format!("{r:?}"))]).collect::<Vec<_>>())
                            }
                            Err(e) => ret(4, k, ERR, &[code(&e)]),
                        };
                    }
                    "expire" => {
                        inv(5, k, O_EXPIRE, &[]);
                        let n = t.check_timeouts().await;
                        ret(5, k, OK, &[n as u64]);
                    }
                    // a storm of other operations
                    _ => {
                        tokio::task::unconstrained(async {
                            for _ in 0..a(1) {
                                let (id, _rx) = t.start_operation(None).await;
                                let _ = t.complete_operation(id, vec![]).await;
                            }
                        })
                        .await
                    }
                }
            }));
        }
        for h in hs {
            if h.await.is_err() {
                record(NOTE, &[999]);
            }
        }
        let left = t.pending_operations_count().await;
        record(STATE, &[O_OWNER, left as u64]);
        simcore::done();
    });
}

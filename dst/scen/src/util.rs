use simcore::{record, Op, Plan};
use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering};

// history tags
pub const INV: u64 = 1; // client, opid, kind, args...
pub const RET: u64 = 2; // client, opid, status(0 ok, 1 err, 2 none), results...
pub const NOTE: u64 = 3;
pub const STATE: u64 = 4; // final or intermediate observations
pub const OK: u64 = 0;
pub const ERR: u64 = 1;
pub const NONE: u64 = 2;

pub fn runtime(p: &Plan) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(p.cfg_or("rt_workers", 2).max(1) as usize)
        .max_blocking_threads(p.cfg_or("rt_blocking", 4).max(1) as usize)
        .enable_time()
        .build()
        .expect("runtime")
}
pub fn ops_of(p: &'static Plan, c: u32) -> Vec<(u64, &'static Op)> {
    p.ops.iter().enumerate().filter(|(_, o)| o.c == c).map(|(i, o)| (i as u64, o)).collect()
}
pub fn inv(c: u32, id: u64, kind: u64, args: &[u64]) -> u64 {
    let mut v = vec![c as u64, id, kind];
    v.extend_from_slice(args);
    record(INV, &v)
}
pub fn ret(c: u32, id: u64, status: u64, res: &[u64]) -> u64 {
    let mut v = vec![c as u64, id, status];
    v.extend_from_slice(res);
    record(RET, &v)
}
/// Run one closure per client on its own OS thread; wait for all of them.
pub fn threads<F>(clients: Vec<u32>, f: F)
where
    F: Fn(u32) + Send + Sync + 'static + Clone,
{
    let hs: Vec<_> = clients
        .into_iter()
        .map(|c| {
            let f = f.clone();
            std::thread::spawn(move || f(c))
        })
        .collect();
    let mut bad = false;
    for h in hs {
        bad |= h.join().is_err();
    }
    if bad {
        record(NOTE, &[999]);
    }
}
/// Run one future per client as a tokio task; wait for all of them.
pub async fn tasks<F, Fut>(clients: Vec<u32>, f: F)
where
    F: Fn(u32) -> Fut,
    Fut: Future<Output = ()> + Send + 'static,
{
    let hs: Vec<_> = clients.into_iter().map(|c| tokio::spawn(f(c))).collect();
    let mut bad = false;
    for h in hs {
        bad |= h.await.is_err();
    }
    if bad {
        record(NOTE, &[999]);
    }
}
/// A 4096-byte page image that carries `val` in every 512-byte sector.
pub fn page_of(page: u64, val: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(4096);
    for i in 0..512u64 {
        let w = simcore::rng::mix(val.wrapping_mul(0x9e37).wrapping_add(i) ^ page << 32);
        v.extend_from_slice(&w.to_le_bytes());
    }
    for s in 0..8 {
        v[s * 512..s * 512 + 8].copy_from_slice(&val.to_le_bytes());
        v[s * 512 + 8..s * 512 + 16].copy_from_slice(&(page ^ 0x5eed).to_le_bytes());
    }
    v
}
pub const GARBAGE: u64 = u64::MAX - 1;
pub const ABSENT: u64 = 0;
/// Which value does the page image carry? ABSENT for an all-zero page, GARBAGE for anything never written.
pub fn page_val(page: u64, d: &[u8]) -> u64 {
    if d.len() != 4096 {
        return GARBAGE;
    }
    if d.iter().all(|b| *b == 0) {
        return ABSENT;
    }
    let v = u64::from_le_bytes(d[0..8].try_into().unwrap());
    if d == page_of(page, v).as_slice() {
        v
    } else {
        GARBAGE
    }
}
pub static CTR: AtomicU64 = AtomicU64::new(0);
pub fn next_id() -> u64 {
    CTR.fetch_add(1, Ordering::SeqCst)
}
/// The plan's clients lo..hi, each on an OS thread or (cfg "tasks") in a tokio task.
pub async fn drive<F>(p: &'static Plan, lo: u32, hi: u32, f: F)
where
    F: Fn(u32) + Send + Sync + 'static + Clone,
{
    let cs: Vec<u32> = p.clients().into_iter().filter(|c| *c >= lo && *c < hi).collect();
    if p.cfg("tasks") != 0 {
        tasks(cs, move |c| {
            let f = f.clone();
            // the API is blocking: a task must announce that, as tokio demands
            async move { tokio::task::block_in_place(|| f(c)) }
        })
        .await;
    } else {
        let h = tokio::runtime::Handle::current();
        tokio::task::spawn_blocking(move || {
            threads(cs, move |c| {
                let _g = h.enter();
                f(c)
            })
        })
        .await
        .unwrap();
    }
}
/// Run synchronous library code that may block, from the main task.
pub async fn offload<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    let h = tokio::runtime::Handle::current();
    tokio::task::spawn_blocking(move || {
        let _g = h.enter();
        f()
    })
    .await
    .unwrap()
}
pub async fn open_disk(p: &Plan) -> std::sync::Arc<ferrite::storage::disk::async_disk::AsyncDiskManager> {
    match ferrite::storage::disk::async_disk::AsyncDiskManager::new(crate::disk::DB.into(), crate::disk::LOG.into(), crate::disk::config(p)).await {
        Ok(m) => std::sync::Arc::new(m),
        Err(e) => {
            simcore::log(&format!("open: {e:?}"));
            record(NOTE, &[1]);
            simcore::done();
        }
    }
}

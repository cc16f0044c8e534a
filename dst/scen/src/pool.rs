//! The buffer pool: concurrent guards, evictions, flushes, I/O errors, restarts.
use crate::util::*;
use crate::wal::bpm;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::common::exception::PageError;
use ferrite::storage::page::{Page, PageTrait, PageType, PageTypeId, PAGE_TYPE_OFFSET};
use simcore::rng::mix;
use simcore::Plan;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub const K_WRITE: u64 = 1; // slot, value; res: previous value
pub const K_READ: u64 = 2; // slot; res: value
pub const K_NEW: u64 = 30; // slot, value; res: page id
pub const K_HOLD: u64 = 31; // slot; res: frame
pub const K_DROP: u64 = 32; // slot, hold op id; res: frame, same
pub const K_FLUSH: u64 = 33; // mode; a durable one is mode 3
pub const K_SHUT: u64 = 34;
pub const K_FULL: u64 = 35; // final check: res: guards obtained, frames, free, table entries, distinct frames, wrong
pub const K_NOFETCH: u64 = 36; // fetch of a page that was never created
pub const K_TEMP: u64 = 37; // a page of one's own, deleted again
const NOPAGE: u64 = u64::MAX;

/// A page of raw bytes, as the pool sees any page (the library's own `BasicPage` is private to it).
#[derive(Debug)]
pub struct BasicPage {
    data: Box<[u8; 4096]>,
    id: u64,
    dirty: bool,
    pins: i32,
}
impl PageTypeId for BasicPage {
    const TYPE_ID: PageType = PageType::Basic;
}
impl Page for BasicPage {
    fn new(id: u64) -> Self {
        let mut data = Box::new([0u8; 4096]);
        data[PAGE_TYPE_OFFSET] = Self::TYPE_ID.to_u8();
        BasicPage { data, id, dirty: false, pins: 1 }
    }
}
impl PageTrait for BasicPage {
    fn get_page_id(&self) -> u64 {
        self.id
    }
    fn get_page_type(&self) -> PageType {
        PageType::from_u8(self.data[PAGE_TYPE_OFFSET]).unwrap_or(PageType::Invalid)
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn set_dirty(&mut self, d: bool) {
        self.dirty = d;
    }
    fn get_pin_count(&self) -> i32 {
        self.pins
    }
    fn increment_pin_count(&mut self) {
        self.pins += 1;
    }
    fn decrement_pin_count(&mut self) {
        self.pins = (self.pins - 1).max(0);
    }
    fn get_data(&self) -> &[u8; 4096] {
        &self.data
    }
    fn get_data_mut(&mut self) -> &mut [u8; 4096] {
        &mut self.data
    }
    fn set_data(&mut self, offset: usize, d: &[u8]) -> Result<(), PageError> {
        if offset + d.len() > self.data.len() {
            return Err(PageError::InvalidOffset { offset, page_size: self.data.len() });
        }
        self.data[offset..offset + d.len()].copy_from_slice(d);
        self.dirty = true;
        Ok(())
    }
    fn set_pin_count(&mut self, n: i32) {
        self.pins = n;
    }
    fn reset_memory(&mut self) {
        self.data.fill(0);
        self.dirty = false;
        self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID.to_u8();
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
fn fill(d: &mut [u8; 4096], page: u64, val: u64) {
    for i in 1..512usize {
        let w = if i == 1 { val } else { mix(val.wrapping_mul(31).wrapping_add(i as u64) ^ page << 40) };
        d[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
}
fn val(d: &[u8; 4096], page: u64) -> u64 {
    if d[8..].iter().all(|b| *b == 0) {
        return ABSENT;
    }
    let v = u64::from_le_bytes(d[8..16].try_into().unwrap());
    let mut e = *d;
    fill(&mut e, page, v);
    if e == *d { v } else { GARBAGE }
}
struct Sh {
    kept: parking_lot::Mutex<Vec<G>>,
    b: Arc<BufferPoolManager>,
    ids: Vec<AtomicU64>,
}
type G = PageGuard<BasicPage>;
fn frame_of(b: &Arc<BufferPoolManager>, g: &G) -> (u64, u64) {
    let id = g.get_page_id();
    let t = b.get_page_table();
    let f = t.read().get(&id).copied();
    let Some(f) = f else { return (999, 0) };
    let pages = b.get_pages();
    let same = pages.read()[f as usize].as_ref().is_some_and(|p| Arc::as_ptr(p) as *const () == Arc::as_ptr(g.get_page()) as *const ());
    (f as u64, same as u64)
}
fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    let h = tokio::runtime::Handle::current();
    tokio::task::block_in_place(|| h.block_on(f))
}
fn rmw(g: &G, page: u64, v: u64) -> u64 {
    let mut w = g.write();
    let old = val(w.get_data(), page);
    fill(w.get_data_mut(), page, v);
    old
}
fn step(s: &Sh, c: u32, id: u64, o: &'static simcore::Op, held: &mut Vec<(u64, u64, G)>) {
    let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
    let slot = a(0);
    let page = s.ids.get(slot as usize).map(|x| x.load(Ordering::SeqCst)).unwrap_or(NOPAGE);
    let v = id + 1;
    match o.k.as_str() {
        "n" => {
            inv(c, id, K_NEW, &[slot, v]);
            match s.b.new_page::<BasicPage>() {
                Some(g) => {
                    let pid = g.get_page_id();
                    rmw(&g, pid, v);
                    drop(g);
                    ret(c, id, OK, &[pid]);
                    s.ids[slot as usize].store(pid, Ordering::SeqCst);
                }
                None => {
                    ret(c, id, ERR, &[]);
                }
            }
        }
        "r" | "w" if page != NOPAGE => {
            let k = if o.k == "r" { K_READ } else { K_WRITE };
            inv(c, id, k, &[slot, v]);
            match s.b.fetch_page::<BasicPage>(page) {
                Some(g) => {
                    let x = if k == K_READ { val(g.read().get_data(), page) } else { rmw(&g, page, v) };
                    drop(g);
                    ret(c, id, OK, &[x]);
                }
                None => {
                    ret(c, id, ERR, &[]);
                }
            }
        }
        "h" if page != NOPAGE && held.len() < 2 => {
            inv(c, id, K_HOLD, &[slot]);
            match s.b.fetch_page::<BasicPage>(page) {
                Some(g) => {
                    let (f, same) = frame_of(&s.b, &g);
                    held.push((slot, id, g));
                    ret(c, id, OK, &[f, same]);
                }
                None => {
                    ret(c, id, ERR, &[]);
                }
            }
        }
        "hr" | "hw" if !held.is_empty() => {
            let (slot, _, g) = &held[a(0) as usize % held.len()];
            let page = g.get_page_id();
            let k = if o.k == "hr" { K_READ } else { K_WRITE };
            inv(c, id, k, &[*slot, v]);
            let x = if k == K_READ { val(g.read().get_data(), page) } else { rmw(g, page, v) };
            ret(c, id, OK, &[x]);
        }
        "u" if !held.is_empty() => {
            let (slot, hid, g) = held.remove(a(0) as usize % held.len());
            inv(c, id, K_DROP, &[slot, hid]);
            let (f, same) = frame_of(&s.b, &g);
            drop(g);
            ret(c, id, OK, &[f, same]);
        }
        "b" => {
            // a batch of guards, in ascending page order
            let slots: Vec<u64> = o.a.iter().map(|x| *x as u64).collect();
            let mut ids: Vec<(u64, u64)> = slots.iter().map(|x| (s.ids[*x as usize].load(Ordering::SeqCst), *x)).filter(|x| x.0 != NOPAGE).collect();
            ids.sort();
            ids.dedup();
            if ids.is_empty() {
                return;
            }
            for (n, (_, slot)) in ids.iter().enumerate() {
                inv(c, id * 10 + n as u64 + (1 << 32), K_READ, &[*slot, 0]);
            }
            let gs = block(s.b.load_pages_batch::<BasicPage>(ids.iter().map(|x| x.0).collect()));
            let vals: Vec<Option<u64>> = gs.iter().enumerate().map(|(n, g)| g.as_ref().map(|g| val(g.read().get_data(), ids[n].0))).collect();
            drop(gs);
            for (n, x) in vals.into_iter().enumerate() {
                match x {
                    Some(x) => ret(c, id * 10 + n as u64 + (1 << 32), OK, &[x]),
                    None => ret(c, id * 10 + n as u64 + (1 << 32), ERR, &[]),
                };
            }
        }
        "f" => {
            inv(c, id, K_FLUSH, &[a(0)]);
            let r = match a(0) {
                0 => match s.ids[a(1) as usize].load(Ordering::SeqCst) {
                    NOPAGE => Ok(()),
                    page => block(s.b.flush_page_async(page)),
                },
                1 => block(s.b.flush_dirty_pages_batch_async(a(1) as usize + 1)).map(|_| ()),
                2 => {
                    block(s.b.flush_all_pages_async());
                    Ok(())
                }
                _ => block(s.b.flush_all_pages_durable()),
            };
            ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
        }
        "d" => {
            inv(c, id, K_TEMP, &[]);
            let Some(g) = s.b.new_page::<BasicPage>() else {
                ret(c, id, ERR, &[]);
                return;
            };
            let pid = g.get_page_id();
            rmw(&g, pid, v);
            drop(g);
            if a(0) > 0 {
                std::thread::sleep(Duration::from_micros(a(0)));
            }
            // it may have been evicted, or be in the hands of a flush
            let gone = s.b.delete_page(pid).is_ok();
            ret(c, id, OK, &[gone as u64]);
        }
        // what promises nothing about the pages must not change any
        "m" => match a(0) {
            0 => {
                block(s.b.get_health_status_async());
            }
            1 => {
                block(s.b.get_cache_coordination_stats());
            }
            2 => {
                let _ = block(s.b.sync_to_disk());
            }
            _ => {
                let _ = block(s.b.prefetch_to_disk_cache(s.ids.iter().map(|x| x.load(Ordering::SeqCst)).filter(|x| *x != NOPAGE).skip(a(1) as usize).take(3).collect()));
            }
        },
        "x" => {
            // the process dies as soon as everything is on disk, whatever the others are doing
            inv(c, id, K_FLUSH, &[3]);
            let r = block(s.b.flush_all_pages_durable());
            ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
            if r.is_ok() {
                simcore::crash();
            }
        }
        "s" => std::thread::sleep(Duration::from_micros(a(0))),
        _ => {}
    }
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    let mut held = vec![];
    for (id, o) in ops_of(p, c) {
        step(s, c, id, o, &mut held);
    }
    if p.cfg("keep") != 0 {
        // still held when the process is gone
        s.kept.lock().extend(held.into_iter().map(|x| x.2));
        return;
    }
    for (n, (slot, hid, g)) in held.into_iter().enumerate() {
        let id = (1 << 33) + c as u64 * 10 + n as u64;
        inv(c, id, K_DROP, &[slot, hid]);
        let (f, same) = frame_of(&s.b, &g);
        drop(g);
        ret(c, id, OK, &[f, same]);
    }
}
async fn clients(p: &'static Plan, lo: u32, hi: u32, s: &Arc<Sh>) {
    let cs: Vec<u32> = p.clients().into_iter().filter(|c| *c >= lo && *c < hi).collect();
    let s = s.clone();
    if p.cfg("tasks") != 0 {
        tasks(cs, move |c| {
            let s = s.clone();
            async move { client(p, c, &s) }
        })
        .await;
    } else {
        let h = tokio::runtime::Handle::current();
        tokio::task::spawn_blocking(move || {
            threads(cs, move |c| {
                let _g = h.enter();
                client(p, c, &s)
            })
        })
        .await
        .unwrap();
    }
}
/// With nobody else using the pool: every frame can be had again, and holds what it should.
fn full(p: &Plan, s: &Sh, ph: u64) {
    let frames = p.cfg_or("frames", 4) as u64;
    let mut created: Vec<(u64, u64)> = s.ids.iter().enumerate().map(|(i, x)| (i as u64, x.load(Ordering::SeqCst))).filter(|x| x.1 != NOPAGE).collect();
    // pinned in an order of its own
    created.sort_by_key(|x| mix(x.0 ^ p.seed));
    let sweep = |from: u64| {
        for (n, (slot, page)) in created.iter().enumerate() {
            let id = (1 << 34) + ph * 1000 + from + n as u64;
            inv(90, id, K_READ, &[*slot, 0]);
            match s.b.fetch_page::<BasicPage>(*page) {
                Some(g) => ret(90, id, OK, &[val(g.read().get_data(), *page)]),
                None => ret(90, id, ERR, &[]),
            };
        }
    };
    // a frame that nobody can have comes back when its own page is read
    if p.cfg("late") == 0 {
        sweep(0);
    }
    let id = (1 << 35) + ph;
    inv(90, id, K_FULL, &[]);
    let want = (frames as usize).min(created.len());
    let gs: Vec<Option<G>> = created.iter().take(want).map(|(_, page)| s.b.fetch_page::<BasicPage>(*page)).collect();
    let got = gs.iter().flatten().count() as u64;
    let mut fs: Vec<u64> = gs.iter().flatten().map(|g| frame_of(&s.b, g)).map(|(f, same)| if same == 1 { f } else { 1000 }).collect();
    let wrong = fs.iter().filter(|f| **f >= frames).count() as u64;
    fs.sort();
    fs.dedup();
    let table: HashMap<u64, i64> = s.b.get_page_table().read().iter().map(|(a, b)| (*a, *b as i64)).collect();
    let mut tf: Vec<i64> = table.values().copied().collect();
    tf.sort();
    tf.dedup();
    let pages = s.b.get_pages();
    let filled = pages.read().iter().flatten().count() as u64;
    ret(90, id, OK, &[got, want as u64, frames, s.b.get_free_list_size() as u64, table.len() as u64, tf.len() as u64, fs.len() as u64, wrong, filled]);
    drop(gs);
    if p.cfg("late") != 0 {
        sweep(500);
    }
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    simcore::record(NOTE, &[20, phase as u64]);
    rt.block_on(async move {
        let m = match AsyncDiskManager::new(crate::disk::DB.into(), crate::disk::LOG.into(), crate::disk::config(p)).await {
            Ok(m) => Arc::new(m),
            Err(e) => {
                simcore::log(&format!("open: {e:?}"));
                simcore::record(NOTE, &[1]);
                simcore::done();
            }
        };
        let ph = phase as u64;
        let last = p.cfg_or("phases", 1) as u32 - 1;
        let slots = p.cfg_or("slots", 8) as usize;
        let s = Arc::new(Sh { kept: Default::default(), b: bpm(p.cfg_or("frames", 4) as usize, p.cfg_or("k", 2) as usize, m.clone()), ids: (0..slots).map(|_| AtomicU64::new(NOPAGE)).collect() });
        if phase > 0 {
            // the addresses of pages outlive the process: the history knows them
            let mut slot_of = HashMap::new();
            for r in simcore::history() {
                if r.tag == INV && r.w[2] == K_NEW {
                    slot_of.insert(r.w[1], r.w[3]);
                } else if r.tag == RET && r.w[2] == OK && slot_of.contains_key(&r.w[1]) {
                    s.ids[slot_of[&r.w[1]] as usize].store(r.w[3], Ordering::SeqCst);
                }
            }
        }
        if phase == 0 || phase < last {
            clients(p, 10 * phase, 10 * phase + 10, &s).await;
        }
        simcore::faults(false);
        let s2 = s.clone();
        let h = tokio::runtime::Handle::current();
        tokio::task::spawn_blocking(move || {
            let _g = h.enter();
            if p.cfg("keep") == 0 || ph == last as u64 {
                full(p, &s2, ph);
            }
        })
        .await
        .unwrap();
        if phase < last {
            simcore::faults(true);
            match p.cfg("end") {
                0 => {
                    inv(91, (1 << 36) + ph, K_FLUSH, &[3]);
                    let r = s.b.flush_all_pages_durable().await;
                    ret(91, (1 << 36) + ph, if r.is_ok() { OK } else { ERR }, &[]);
                    simcore::crash();
                }
                1 => {
                    inv(91, (1 << 36) + ph, K_SHUT, &[]);
                    // shutting down the pool shuts the disk manager down
                    let Sh { b, .. } = Arc::try_unwrap(s).unwrap_or_else(|_| simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", "pool still shared"));
                    let mut b = (*b).clone();
                    let r = b.shutdown().await;
                    ret(91, (1 << 36) + ph, if r.is_ok() { OK } else { ERR }, &[]);
                    simcore::crash();
                }
                _ => simcore::crash(),
            }
        }
        simcore::done();
    });
}

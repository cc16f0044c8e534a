//! In-memory structures: the caches and the frame replacer, shared by threads, with a wall clock that may step.
use crate::util::*;
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use ferrite::storage::disk::async_disk::DiskManagerConfig;
use ferrite::storage::disk::async_disk::cache::cache_manager::CacheManager;
use ferrite::storage::disk::async_disk::cache::cache_traits::*;
use ferrite::storage::disk::async_disk::cache::fifo::FIFOCache;
use ferrite::storage::disk::async_disk::cache::heap_lfu::HeapLFUCache;
use ferrite::storage::disk::async_disk::cache::lfu::LFUCache;
use ferrite::storage::disk::async_disk::cache::lru::{ConcurrentLRUCache, LRUCore};
use ferrite::storage::disk::async_disk::cache::lru_k::LRUKCache;
use parking_lot::RwLock;
use simcore::Plan;
use std::sync::Arc;
use std::time::Duration;

pub const FIFO: i64 = 0;
pub const LRU: i64 = 1;
pub const LFU: i64 = 2;
pub const HLFU: i64 = 3;
pub const LRUK: i64 = 4;
pub const CLRU: i64 = 5;
pub const MGR: i64 = 6;
pub const NOMASK: u64 = u64::MAX;
// operations
pub const INS: u64 = 1;
pub const GET: u64 = 2;
pub const HAS: u64 = 3;
pub const LEN: u64 = 4;
pub const CLEAR: u64 = 5;
pub const REM: u64 = 6;
pub const POP: u64 = 7;
pub const PEEKV: u64 = 8;
pub const TOUCH: u64 = 9;
pub const RANK: u64 = 10;
pub const FREQ: u64 = 11;
pub const RESET: u64 = 12;
pub const PEEK: u64 = 13;
pub const POPN: u64 = 14;
pub const KDIST: u64 = 15;
// replacer
pub const R_ACC: u64 = 20;
pub const R_SET: u64 = 21;
pub const R_EVICT: u64 = 22;
pub const R_REM: u64 = 23;
pub const R_TOTAL: u64 = 24;
pub const R_NEV: u64 = 25;

// cache manager: page, value
pub const M_STORE: u64 = 40;
pub const M_GET: u64 = 41;
pub const M_INV: u64 = 42;
pub const M_MAINT: u64 = 43;

fn o1(x: Option<u64>) -> Vec<u64> {
    match x {
        Some(v) => vec![1, v],
        None => vec![0],
    }
}
fn o2(x: Option<(u64, u64)>) -> Vec<u64> {
    match x {
        Some((a, b)) => vec![1, a, b],
        None => vec![0],
    }
}
trait Ops: Send + Sync {
    fn op(&mut self, k: u64, a: u64, b: u64) -> Vec<u64>;
    fn has(&self, k: u64) -> bool;
}
fn core<C: CoreCache<u64, u64>>(c: &mut C, k: u64, a: u64, b: u64) -> Vec<u64> {
    match k {
        INS => o1(c.insert(a, b)),
        GET => o1(c.get(&a).copied()),
        HAS => vec![c.contains(&a) as u64],
        LEN => vec![c.len() as u64, c.capacity() as u64, c.is_empty() as u64],
        CLEAR => {
            c.clear();
            vec![]
        }
        _ => vec![],
    }
}
impl Ops for FIFOCache<u64, u64> {
    fn op(&mut self, k: u64, a: u64, b: u64) -> Vec<u64> {
        match k {
            REM => o1(self.remove(&a).map(|x| *x)),
            POP => o2(self.pop_oldest()),
            PEEKV => o2(self.peek_oldest().map(|x| (*x.0, *x.1))),
            RANK => o1(self.age_rank(&a).map(|x| x as u64)),
            POPN => self.pop_oldest_batch(a as usize).into_iter().flat_map(|x| [x.0, x.1]).collect(),
            _ => core(self, k, a, b),
        }
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
}
impl Ops for LRUCore<u64, u64> {
    fn op(&mut self, k: u64, a: u64, b: u64) -> Vec<u64> {
        match k {
            INS => o1(self.insert(a, Arc::new(b)).map(|x| *x)),
            GET => o1(self.get(&a).map(|x| **x)),
            HAS => vec![self.contains(&a) as u64],
            LEN => vec![self.len() as u64, self.capacity() as u64, self.is_empty() as u64],
            CLEAR => {
                self.clear();
                vec![]
            }
            REM => o1(self.remove(&a).map(|x| *x)),
            POP => o2(self.pop_lru().map(|x| (x.0, *x.1))),
            PEEKV => o2(self.peek_lru().map(|x| (*x.0, **x.1))),
            TOUCH => vec![self.touch(&a) as u64],
            RANK => o1(self.recency_rank(&a).map(|x| x as u64)),
            PEEK => o1(self.peek(&a).map(|x| *x)),
            _ => vec![],
        }
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
}
macro_rules! lfu {
    ($t:ty) => {
        impl Ops for $t {
            fn op(&mut self, k: u64, a: u64, b: u64) -> Vec<u64> {
                match k {
                    REM => o1(self.remove(&a)),
                    POP => o2(self.pop_lfu()),
                    PEEKV => o2(self.peek_lfu().map(|x| (*x.0, *x.1))),
                    TOUCH => o1(self.increment_frequency(&a)),
                    FREQ => o1(LFUCacheTrait::frequency(self, &a)),
                    RESET => o1(self.reset_frequency(&a)),
                    _ => core(self, k, a, b),
                }
            }
            fn has(&self, k: u64) -> bool {
                self.contains(&k)
            }
        }
    };
}
lfu!(LFUCache<u64, u64>);
lfu!(HeapLFUCache<u64, u64>);
impl Ops for LRUKCache<u64, u64> {
    fn op(&mut self, k: u64, a: u64, b: u64) -> Vec<u64> {
        match k {
            REM => o1(self.remove(&a)),
            POP => o2(self.pop_lru_k()),
            PEEKV => o2(self.peek_lru_k().map(|x| (*x.0, *x.1))),
            TOUCH => vec![self.touch(&a) as u64],
            FREQ => {
                let n = self.access_count(&a);
                assert_eq!(n, self.access_history(&a).map(|h| h.len()), "history length");
                o1(n.map(|x| x as u64))
            }
            RANK => o1(self.k_distance_rank(&a).map(|x| x as u64)),
            KDIST => vec![self.k_distance(&a).is_some() as u64],
            _ => core(self, k, a, b),
        }
    }
    fn has(&self, k: u64) -> bool {
        self.contains(&k)
    }
}
fn shared_lru(c: &ConcurrentLRUCache<u64, u64>, k: u64, a: u64, b: u64) -> Vec<u64> {
    match k {
        INS => o1(c.insert(a, b).map(|x| *x)),
        GET => o1(c.get(&a).map(|x| *x)),
        PEEK => o1(c.peek(&a).map(|x| *x)),
        HAS => vec![c.contains(&a) as u64],
        LEN => vec![c.len() as u64],
        CLEAR => {
            c.clear();
            vec![]
        }
        REM => o1(c.remove(&a).map(|x| *x)),
        POP => o2(c.pop_lru().map(|x| (x.0, *x.1))),
        PEEKV => o2(c.peek_lru().map(|x| (x.0, *x.1))),
        TOUCH => vec![c.touch(&a) as u64],
        _ => vec![],
    }
}
fn replacer(r: &RwLock<LRUKReplacer>, k: u64, a: u64, b: u64) -> Vec<u64> {
    match k {
        R_ACC => {
            r.read().record_access(a as u32 as _, AccessType::Lookup);
            vec![]
        }
        R_SET => vec![r.write().set_evictable(a as u32 as _, b != 0) as u64],
        R_EVICT => o1(r.write().evict().map(|x| x as u64)),
        R_REM => {
            r.read().remove(a as u32 as _);
            vec![]
        }
        R_TOTAL => vec![r.read().total_frames() as u64],
        _ => vec![r.read().total_evictable_frames() as u64],
    }
}
/// The tiered cache of the disk manager: each page has one writer, and any number of readers.
fn manager(p: &'static Plan) {
    let m = Arc::new(CacheManager::new(&DiskManagerConfig {
        cache_size_mb: p.cfg_or("cap", 6) as usize,
        hot_cache_ratio: p.cfg_or("hot_pct", 30) as f64 / 100.0,
        warm_cache_ratio: p.cfg_or("warm_pct", 30) as f64 / 100.0,
        prefetch_distance: 2,
        ..DiskManagerConfig::default()
    }));
    let shared = p.cfg("shared") != 0;
    let img = move |page: u64, v: u64| [if shared { 0 } else { page + 1 }, v, v ^ 0x5a5a].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let body = move |cid: u32| {
        for (id, o) in ops_of(p, cid) {
            let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
            if o.k == "s" {
                std::thread::sleep(Duration::from_micros(a(0)));
                continue;
            }
            inv(cid, id, a(0), &[a(1), a(2)]);
            let res = match a(0) {
                M_STORE => {
                    m.store_page(a(1), img(a(1), a(2)));
                    vec![]
                }
                M_GET => match m.get_page(a(1)) {
                    None => vec![0],
                    Some(d) => {
                        let v = d.get(8..16).map_or(u64::MAX, |b| u64::from_le_bytes(b.try_into().unwrap()));
                        if d == img(a(1), v) { vec![1, v] } else { vec![2] }
                    }
                },
                M_INV => {
                    m.invalidate_page(a(1));
                    vec![]
                }
                _ => {
                    match a(2) % 5 {
                        0 => m.update_memory_pressure(),
                        1 => m.evict_if_needed(),
                        2 => m.perform_maintenance(),
                        3 => m.perform_specialized_maintenance(),
                        _ => drop(m.trigger_prefetch(a(1))),
                    }
                    let s = m.get_cache_statistics();
                    vec![(s.hot_cache_used <= s.hot_cache_size && s.warm_cache_used <= s.warm_cache_size && s.cold_cache_used <= s.cold_cache_size) as u64]
                }
            };
            ret(cid, id, OK, &res);
        }
    };
    threads(p.clients(), body);
    simcore::done();
}
pub fn run(p: &'static Plan, _phase: u32) {
    if p.cfg("cache") == MGR {
        return manager(p);
    }
    let cap = p.cfg_or("cap", 3) as usize;
    let k = p.cfg_or("k", 2) as usize;
    let keys = p.cfg_or("keys", 8) as u64;
    let rep = p.cfg("replacer") != 0;
    let r = Arc::new(RwLock::new(LRUKReplacer::new(cap.max(1), k)));
    let cl = ConcurrentLRUCache::<u64, u64>::new(cap);
    let conc = p.cfg("cache") == CLRU;
    let c: Arc<RwLock<Box<dyn Ops>>> = Arc::new(RwLock::new(match p.cfg("cache") {
        FIFO => Box::new(FIFOCache::<u64, u64>::new(cap)),
        LRU => Box::new(LRUCore::<u64, u64>::new(cap)),
        LFU => Box::new(LFUCache::<u64, u64>::new(cap)),
        HLFU => Box::new(HeapLFUCache::<u64, u64>::new(cap)),
        _ => Box::new(LRUKCache::<u64, u64>::with_k(cap, k)),
    }));
    let body = move |cid: u32| {
        for (id, o) in ops_of(p, cid) {
            let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
            if o.k == "s" {
                std::thread::sleep(Duration::from_micros(a(0)));
                continue;
            }
            let kind = a(0);
            inv(cid, id, kind, &[a(1), a(2)]);
            let res = if rep {
                replacer(&r, kind, a(1), a(2))
            } else if conc {
                let mut v = shared_lru(&cl, kind, a(1), a(2));
                v.push(NOMASK);
                v
            } else {
                let mut g = c.write();
                let mut v = g.op(kind, a(1), a(2));
                v.push((0..keys).filter(|k| g.has(*k)).fold(0, |m, k| m | 1 << k));
                v
            };
            ret(cid, id, OK, &res);
        }
    };
    let cs = p.clients();
    if cs.len() == 1 {
        body(cs[0]);
    } else {
        threads(cs, body);
    }
    simcore::done();
}

//! Indexes: the disk-based B+ tree, the in-memory B+ tree and the extendible hash table.
use crate::util::*;
use crate::wal::bpm;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::INVALID_PAGE_ID;
use ferrite::common::rid::RID;
use ferrite::container::disk_extendable_hash_table::DiskExtendableHashTable;
use ferrite::container::hash_function::HashFunction;
use ferrite::storage::index::b_plus_tree::BPlusTree;
use ferrite::storage::index::b_plus_tree_index::BPlusTreeIndex;
use ferrite::storage::index::types::comparators::{i32_comparator, I32Comparator};
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::page::page_types::b_plus_tree_internal_page::BPlusTreeInternalPage;
use ferrite::storage::page::page_types::b_plus_tree_leaf_page::BPlusTreeLeafPage;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use simcore::{record, Plan};
use std::sync::Arc;

pub const I_INS: u64 = 110; // key, value; res: 1 accepted 0 refused
pub const I_DEL: u64 = 111; // key; res: 1 removed 0 absent
pub const I_GET: u64 = 112; // key; res: value, or nothing
pub const I_RANGE: u64 = 113; // from, to; res: (key, value)*
pub const I_SIZE: u64 = 114; // res: number of keys
pub const I_ALL: u64 = 115; // all keys in order; res: key*
pub const I_NODE: u64 = 116; // STATE record: opid, depth, page, leaf, next, nkeys, keys.., children..
pub const I_HASH: u64 = 118; // STATE record: key, its hash
pub const I_CHECK: u64 = 117; // the library's own validation; res: 1 valid

type Tree = BPlusTreeIndex<i32, RID, I32Comparator>;
enum Ix {
    B(Tree),
    M(RwLock<BPlusTree>),
    H(RwLock<DiskExtendableHashTable>),
}
struct Sh {
    ix: Ix,
    b: Arc<BufferPoolManager>,
}
fn key(k: u64) -> i32 {
    k as i64 as i32
}
fn rid(v: u64) -> RID {
    RID::new(v >> 8, (v & 255) as u32)
}
fn unrid(r: &RID) -> u64 {
    r.get_page_id() << 8 | r.get_slot_num() as u64
}
fn hkey(p: &Plan, k: u64) -> Value {
    if p.cfg("skeys") != 0 {
        Value::new(format!("key-{k:0>0$}", (k % 23) as usize))
    } else {
        Value::new(key(k))
    }
}
/// Ok(Some) answer, Ok(None) nothing there, Err: the operation failed
fn one(p: &Plan, s: &Sh, api: bool, kind: u64, k: u64, v: u64) -> Result<Option<u64>, String> {
    match &s.ix {
        Ix::B(t) => match kind {
            I_INS if api => t.insert_with_latch_crabbing(key(k), rid(v)).map(|_| Some(1)).map_err(|e| e.to_string()),
            I_INS => t.insert(key(k), rid(v)).map(|_| Some(1)).map_err(|e| e.to_string()),
            I_DEL if api => t.remove_with_latch_crabbing(&key(k)).map(|b| Some(b as u64)).map_err(|e| e.to_string()),
            I_DEL => t.remove(&key(k)).map(|b| Some(b as u64)).map_err(|e| e.to_string()),
            _ => t.search(&key(k)).map(|r| r.map(|r| unrid(&r))).map_err(|e| e.to_string()),
        },
        // a multimap: plan key k stands for the pair of key k / 3 and row k
        Ix::M(t) => {
            let has = |t: &BPlusTree| mem_scan(t, k / 3, k / 3).map(|v| v.contains(&(k / 3, k)));
            match kind {
                I_INS => {
                    let mut t = t.write();
                    if has(&t)? {
                        return Ok(Some(0));
                    }
                    Ok(Some(t.insert(Value::new(key(k / 3)), rid(k)) as u64))
                }
                I_DEL => Ok(Some(t.read().delete(&Value::new(key(k / 3)), rid(k)) as u64)),
                _ => Ok(has(&t.read())?.then_some(k)),
            }
        }
        Ix::H(t) => Ok(match kind {
            I_INS => Some(t.write().insert(hkey(p, k), rid(v)) as u64),
            I_DEL => Some(t.write().remove(&hkey(p, k)) as u64),
            _ => t.read().get_value(&hkey(p, k)).map(|r| unrid(&r)),
        }),
    }
}
fn mem_scan(t: &BPlusTree, lo: u64, hi: u64) -> Result<Vec<(u64, u64)>, String> {
    let sc = Schema::new(vec![Column::new("id", TypeId::Integer)]);
    let tp = |k| Tuple::new(&[Value::new(key(k))], &sc, RID::new(0, 0));
    let v = t.scan_range(&tp(lo), &tp(hi), true)?;
    Ok(v.into_iter().map(|(k, r)| (num(&k), unrid(&r))).collect())
}
/// The same rows through the iterator; nothing else changes the tree meanwhile.
fn mem_iter(t: &BPlusTree, lo: u64, hi: u64) -> Result<Vec<u64>, String> {
    let sc = Schema::new(vec![Column::new("id", TypeId::Integer)]);
    let tp = |k| Tuple::new(&[Value::new(key(k))], &sc, RID::new(0, 0));
    let mut it = t.create_iterator(Some(tp(lo)), Some(tp(hi)));
    let mut v = vec![];
    while let Some(r) = it.try_next()? {
        v.push(unrid(&r));
        if v.len() > 5000 {
            simcore::violation("scan-endless", &format!("the iterator over keys {lo}..{hi} has returned 5000 rows"));
        }
    }
    Ok(v)
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    for (_, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        let id = (1 << 40) + next_id();
        let kind = match o.k.as_str() {
            "i" => I_INS,
            "d" => I_DEL,
            "g" => I_GET,
            "r" => I_RANGE,
            "s" => {
                std::thread::sleep(std::time::Duration::from_micros(a(0)));
                continue;
            }
            "fl" => {
                // pins every page for a moment, whatever the tree is doing to it
                let h = tokio::runtime::Handle::current();
                tokio::task::block_in_place(|| h.block_on(s.b.flush_all_pages_async()));
                continue;
            }
            "n" => {
                shape(p, c, s);
                continue;
            }
            _ => continue,
        };
        if kind == I_RANGE {
            range(c, s, a(0), a(1));
            continue;
        }
        let v = if p.cfg("kind") == 1 { a(0) } else { id & 0xffff_ffff };
        let api = match p.cfg("api") {
            0 => false,
            1 => true,
            _ => id & 1 != 0,
        };
        inv(c, id, kind, &[a(0), v]);
        match one(p, s, api, kind, a(0), v) {
            Ok(Some(x)) => ret(c, id, OK, &[x]),
            Ok(None) => ret(c, id, OK, &[]),
            Err(e) => {
                simcore::log(&format!("index operation {kind} key {}: {e}", a(0)));
                ret(c, id, ERR, &[])
            }
        };
    }
}
fn range(c: u32, s: &Sh, lo: u64, hi: u64) {
    let id = (1 << 40) + next_id();
    let out = match &s.ix {
        Ix::B(t) => {
            inv(c, id, I_RANGE, &[lo, hi]);
            t.range_scan(&key(lo), &key(hi)).map(|v| v.into_iter().flat_map(|(k, r)| [k as i64 as u64, unrid(&r)]).collect::<Vec<_>>()).map_err(|e| e.to_string())
        }
        Ix::M(t) => {
            inv(c, id, I_RANGE, &[lo, hi]);
            let rows = if id & 1 == 0 {
                mem_scan(&t.read(), lo / 3, hi / 3).map(|v| v.into_iter().map(|(_, r)| r).collect::<Vec<_>>())
            } else {
                mem_iter(&t.write(), lo / 3, hi / 3)
            };
            rows.map(|v| v.into_iter().filter(|r| (lo..=hi).contains(r)).flat_map(|r| [r, r]).collect())
        }
        Ix::H(_) => return,
    };
    match out {
        Ok(v) => ret(c, id, OK, &v),
        Err(e) => {
            simcore::log(&format!("range {lo}..{hi}: {e}"));
            ret(c, id, ERR, &[])
        }
    };
}
fn num(v: &Value) -> u64 {
    format!("{v}").parse::<i64>().unwrap_or(i64::MIN) as u64
}
/// The shape of the B+ tree at rest, and what its own checks and counters say.
fn shape(p: &Plan, c: u32, s: &Sh) {
    let Ix::B(t) = &s.ix else { return };
    let id = (1 << 40) + next_id();
    inv(c, id, I_ALL, &[]);
    let r = t.in_order_traversal();
    match r {
        Ok(v) => ret(c, id, OK, &v.into_iter().map(|k| k as i64 as u64).collect::<Vec<_>>()),
        Err(e) => {
            simcore::log(&format!("traversal: {e}"));
            ret(c, id, ERR, &[])
        }
    };
    let id = (1 << 40) + next_id();
    inv(c, id, I_SIZE, &[]);
    ret(c, id, OK, &[t.get_size() as u64, t.get_height() as u64, t.is_empty() as u64]);
    let id = (1 << 40) + next_id();
    inv(c, id, I_CHECK, &[p.cfg_or("order", 4) as u64]);
    let mut st = vec![(t.get_root_page_id(), 1u64)];
    let h = t.get_height() as u64;
    let mut n = 0;
    while let Some((pg, d)) = st.pop() {
        n += 1;
        if pg == INVALID_PAGE_ID || h == 0 || n > 5000 {
            break;
        }
        if d < h {
            let Some(g) = s.b.fetch_page::<BPlusTreeInternalPage<i32, I32Comparator>>(pg) else {
                record(STATE, &[I_NODE, id, d, pg, 2, 0, 0]);
                continue;
            };
            let g = g.read();
            let k = g.get_size();
            let mut v = vec![I_NODE, id, d, pg, 0, 0, k as u64];
            v.extend((0..k).map(|i| g.get_key_at(i).map(|k| k as i64 as u64).unwrap_or(u64::MAX >> 1)));
            v.extend((0..=k).map(|i| g.get_value_at(i).unwrap_or(INVALID_PAGE_ID)));
            record(STATE, &v);
            st.extend((0..=k).rev().map(|i| (g.get_value_at(i).unwrap_or(INVALID_PAGE_ID), d + 1)).filter(|x| x.0 != INVALID_PAGE_ID));
        } else {
            let Some(g) = s.b.fetch_page::<BPlusTreeLeafPage<i32, RID, I32Comparator>>(pg) else {
                record(STATE, &[I_NODE, id, d, pg, 2, 0, 0]);
                continue;
            };
            let g = g.read();
            let k = g.get_size();
            let mut v = vec![I_NODE, id, d, pg, 1, g.get_next_page_id().unwrap_or(INVALID_PAGE_ID), k as u64];
            v.extend((0..k).map(|i| g.get_key_at(i).map(|k| *k as i64 as u64).unwrap_or(u64::MAX >> 1)));
            record(STATE, &v);
        }
    }
    let ok = t.validate_leaf_links().map(|_| true).map_err(|e| e.to_string());
    if let Err(e) = &ok {
        simcore::log(&format!("leaf links: {e}"));
    }
    ret(c, id, OK, &[t.get_root_page_id(), h, ok.is_ok() as u64]);
}
pub fn run(p: &'static Plan, _phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let m = open_disk(p).await;
        let b = bpm(p.cfg_or("frames", 200) as usize, 2, m.clone());
        let sc = Schema::new(vec![Column::new("id", TypeId::Integer)]);
        let info = |t| IndexInfo::new(sc.clone(), "ix".into(), 1, "t".into(), 4, false, t, vec![0]);
        let order = p.cfg_or("order", 4);
        let b1 = b.clone();
        let (i1, i2) = (info(IndexType::BPlusTreeIndex), info(IndexType::BPlusTreeIndex));
        let ix = offload(move || match p.cfg("kind") {
            0 => {
                let mut t = Tree::new(i32_comparator, i1, b1);
                if t.init_with_order(order as u32).is_err() {
                    simcore::violation("init", "the tree could not be created");
                }
                Ix::B(t)
            }
            1 => Ix::M(RwLock::new(BPlusTree::new(order as usize, Arc::new(i2)))),
            _ => match DiskExtendableHashTable::new("ix".into(), b1, HashFunction::new(), p.cfg("hdepth") as u32, p.cfg_or("ddepth", 4) as u32, p.cfg_or("bucket", 4) as u32) {
                Ok(t) => Ix::H(RwLock::new(t)),
                Err(e) => simcore::violation("init", &format!("the hash table could not be created: {e}")),
            },
        })
        .await;
        if p.cfg("kind") == 2 {
            let h = HashFunction::new();
            for k in 0..p.cfg("keys") as u64 {
                record(STATE, &[I_HASH, k, h.get_hash(&hkey(p, k))]);
            }
        }
        let s = Arc::new(Sh { ix, b });
        for ph in 0..p.cfg_or("stages", 1) as u32 {
            let s1 = s.clone();
            drive(p, 10 * ph, 10 * ph + 10, move |c| client(p, c, &s1)).await;
            let s1 = s.clone();
            offload(move || {
                record(STATE, &[I_CHECK, ph as u64]);
                shape(p, 91, &s1);
                let n = p.cfg_or("keys", 30) as u64;
                range(91, &s1, 0, n);
                for k in 0..n {
                    let id = (1 << 40) + next_id();
                    inv(91, id, I_GET, &[k, 0]);
                    match one(p, &s1, false, I_GET, k, 0) {
                        Ok(Some(x)) => ret(91, id, OK, &[x]),
                        Ok(None) => ret(91, id, OK, &[]),
                        Err(e) => {
                            simcore::log(&format!("search {k}: {e}"));
                            ret(91, id, ERR, &[])
                        }
                    };
                }
            })
            .await;
        }
        simcore::done();
    });
}

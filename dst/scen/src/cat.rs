//! The catalog: databases, tables and indexes created, looked up, rebuilt and reopened while rows are written.
use crate::util::*;
use crate::wal::{bpm, fp_tuple, hstr, row, schema};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::Catalog;
use ferrite::catalog::column::{Column, ForeignKeyConstraint};
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::index::IndexType;
use ferrite::storage::table::table_heap::TableInfo;
use ferrite::storage::table::table_iterator::TableScanIterator;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use simcore::{record, Plan};
use std::sync::Arc;
use std::time::Duration;

pub const C_DB: u64 = 120; // db; res: 1 created
pub const C_TAB: u64 = 121; // db, name, schema, references (name + 1, or 0), 1 if that column exists; res: oid, schema, name
pub const C_IDX: u64 = 122; // db, name, table, column; res: oid, table, number of entries
pub const C_GET: u64 = 123; // db, name; res: oid, schema, name
pub const C_OID: u64 = 124; // db, oid; res: oid, schema, name
pub const C_LIST: u64 = 125; // db; res: names
pub const C_IXOF: u64 = 126; // db, table; res: (index oid, name)*
pub const C_REB: u64 = 127; // db
pub const C_ROW: u64 = 128; // db, table, row, txn, keys of the three columns; res: address
pub const C_END: u64 = 129; // txn, commit; res: 1 done
pub const C_SCAN: u64 = 130; // db, table; res: (address, row)*
pub const C_IXGET: u64 = 131; // db, index oid; res: oid, name, number of entries
pub const C_DBS: u64 = 132; // res: databases
pub const C_UPD: u64 = 133; // db, table, address, row, txn, keys
pub const C_ENTRY: u64 = 120; // STATE: operation, key, address
const BAD: u64 = 777_777;

type Ctx = Arc<TransactionContext>;
struct Sh {
    f: TransactionManagerFactory,
    cat: RwLock<Catalog>,
    b: Arc<BufferPoolManager>,
    h: tokio::runtime::Handle,
}
fn dbname(n: u64) -> String {
    if n == 0 { "default".into() } else { format!("db{n}") }
}
fn dbnum(s: &str) -> u64 {
    if s == "default" { 0 } else { s.strip_prefix("db").and_then(|x| x.parse().ok()).unwrap_or(BAD) }
}
/// Names of one set differ in their last character, in case, or in one being the start of the other.
fn tname(p: &Plan, n: u64) -> String {
    let pad = "x".repeat(p.cfg("names") as usize);
    match n % 3 {
        0 => format!("t{pad}{n}"),
        1 => format!("T{pad}{}", n - 1),
        _ => format!("t{pad}{}_", n - 2),
    }
}
fn tnum(p: &Plan, s: &str) -> u64 {
    (0..64).find(|n| tname(p, *n) == s).unwrap_or(BAD)
}
fn mk_schema(p: &Plan, v: u64, fk: Option<(String, String)>) -> Schema {
    let mut c: Vec<Column> = vec![];
    for (i, col) in schema().get_columns().iter().enumerate() {
        let n = format!("{}{}", col.get_name(), v % 3);
        let mut b = Column::builder(&n, col.get_type());
        if i == 1 {
            b = b.with_length(1000 + (v % 3000) as usize);
        }
        if i == 0 && v & 1 != 0 {
            b = b.as_primary_key();
        }
        if i == 2 && v & 2 != 0 {
            b = b.as_not_null();
        }
        if i == 2 && v & 4 != 0 {
            b = b.as_unique();
        }
        if i == 0 && v & 8 != 0 {
            b = b.with_check_constraint(format!("{n} > {}", v % 50));
        }
        if i == 2 && v & 16 != 0 {
            b = b.with_default_value(Value::new((v % 77) as i32));
        }
        if let (2, Some((t, c))) = (i, &fk) {
            b = b.with_foreign_key(ForeignKeyConstraint { referenced_table: t.clone(), referenced_column: c.clone(), on_delete: None, on_update: None });
        }
        c.push(b.build());
    }
    let _ = p;
    Schema::new(c)
}
pub fn fp_schema(s: &Schema) -> u64 {
    hstr(format!("{s:?}").as_bytes()) >> 1
}
fn desc(p: &Plan, t: &TableInfo) -> [u64; 3] {
    [t.get_table_oidt(), fp_schema(&t.get_table_schema()), tnum(p, t.get_table_name())]
}
fn rw(r: RID) -> u64 {
    r.get_page_id() << 20 | r.get_slot_num() as u64
}
fn vkey(v: &Value) -> u64 {
    match v.get_val() {
        Val::BigInt(x) => *x as u64,
        Val::Integer(x) => *x as u64,
        Val::VarLen(s) => hstr(s.as_bytes()),
        _ => BAD,
    }
}
fn heap(p: &Plan, s: &Sh, db: u64, t: u64) -> Option<TableInfo> {
    let c = s.cat.read();
    c.get_database(&dbname(db))?.get_table(&tname(p, t)).cloned()
}
fn rows_of(info: TableInfo) -> Vec<u64> {
    let mut it = TableScanIterator::new(Arc::new(info));
    let mut v = vec![];
    while let Some((_, t)) = it.next() {
        v.extend([rw(it.get_rid()), fp_tuple(&t)]);
        if v.len() > 8000 {
            break;
        }
    }
    v
}
/// Read-only operations, under the catalog's read lock.
fn look(p: &'static Plan, s: &Sh, c: u32, kind: u64, db: u64, n: u64) {
    let id = (1 << 40) + next_id();
    let g = s.cat.read();
    inv(c, id, kind, &[db, n]);
    let d = g.get_database(&dbname(db));
    let cur = g.get_current_database_name().is_some_and(|x| *x == dbname(db)) && id & 1 == 0;
    match kind {
        C_DBS => {
            let mut v: Vec<u64> = g.get_database_names().iter().map(|x| dbnum(x)).collect();
            v.sort();
            ret(c, id, OK, &v);
        }
        _ if d.is_none() => drop(ret(c, id, NONE, &[])),
        C_LIST => {
            let d = d.unwrap();
            let l = if cur { g.get_table_names() } else if id & 2 == 0 { d.get_table_names() } else { d.get_all_tables() };
            let mut v: Vec<u64> = l.iter().map(|x| tnum(p, x)).collect();
            v.sort();
            ret(c, id, OK, &v);
        }
        C_GET => {
            let nm = tname(p, n);
            let r = if cur { g.get_table(&nm) } else { d.unwrap().get_table(&nm) };
            match r {
                Some(t) => ret(c, id, OK, &desc(p, t)),
                None => ret(c, id, NONE, &[]),
            };
        }
        C_OID => {
            let r = if cur { g.get_table_by_oid(n) } else { d.unwrap().get_table_by_oid(n) };
            match r {
                Some(t) => ret(c, id, OK, &desc(p, t)),
                None => ret(c, id, NONE, &[]),
            };
        }
        C_IXOF => {
            let nm = tname(p, n);
            let mut v: Vec<[u64; 2]> = if cur { g.get_table_indexes(&nm) } else { d.unwrap().get_table_indexes(&nm) }.iter().map(|i| [i.get_index_oid() as u64, tnum(p, i.get_index_name())]).collect();
            v.sort();
            ret(c, id, OK, &v.concat());
        }
        _ => {
            let r = if cur { g.get_index_by_index_oid(n as _) } else { d.unwrap().get_index_by_index_oid(n as _) };
            match r {
                Some((i, t)) => {
                    let e = t.read().scan_full().map(|x| x.len() as u64).unwrap_or(BAD);
                    ret(c, id, OK, &[i.get_index_oid() as u64, tnum(p, i.get_index_name()), e])
                }
                None => ret(c, id, NONE, &[]),
            };
        }
    }
}
fn scan(p: &'static Plan, s: &Sh, c: u32, db: u64, n: u64) {
    let Some(t) = heap(p, s, db, n) else { return };
    let id = (1 << 40) + next_id();
    inv(c, id, C_SCAN, &[db, n]);
    let v = rows_of(t);
    ret(c, id, OK, &v);
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    let mut open: Option<(Ctx, Vec<(u64, u64, TableInfo, RID)>)> = None;
    let end = |x: &Ctx, commit: bool| {
        let id = (1 << 40) + next_id();
        inv(c, id, C_END, &[x.get_transaction_id(), commit as u64]);
        let ok = if commit {
            s.h.block_on(s.f.commit_transaction(x.clone()))
        } else {
            s.f.abort_transaction(x.clone());
            true
        };
        ret(c, id, OK, &[ok as u64]);
    };
    for (id, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        match o.k.as_str() {
            "s" => std::thread::sleep(Duration::from_micros(a(0))),
            "d" => {
                let mut g = s.cat.write();
                inv(c, id, C_DB, &[a(0)]);
                let r = g.create_database(dbname(a(0)));
                ret(c, id, OK, &[r as u64]);
            }
            "t" => {
                let mut g = s.cat.write();
                if !g.use_database(&dbname(a(0))) {
                    continue;
                }
                let fk = (a(3) > 0).then(|| (tname(p, a(3) - 1), if a(4) == 0 { "nosuch".to_string() } else { format!("a{}", a(4) - 1) }));
                let sc = mk_schema(p, a(2), fk);
                // does the schema allow the reference? decided by the model from the columns of the table it names
                inv(c, id, C_TAB, &[a(0), a(1), fp_schema(&sc), a(3), a(4), a(2) % 3]);
                match g.create_table(tname(p, a(1)), sc) {
                    Some(t) => ret(c, id, OK, &desc(p, &t)),
                    None => ret(c, id, NONE, &[]),
                };
            }
            "x" => {
                let mut g = s.cat.write();
                if !g.use_database(&dbname(a(0))) {
                    continue;
                }
                let ty = [TypeId::BigInt, TypeId::VarChar, TypeId::Integer][a(3) as usize % 3];
                inv(c, id, C_IDX, &[a(0), a(1), a(2), a(3) % 3]);
                let ks = Schema::new(vec![Column::new("k", ty)]);
                match g.create_index(&tname(p, a(1)), &tname(p, a(2)), ks, vec![a(3) as usize % 3], 8, a(4) != 0, IndexType::BPlusTreeIndex) {
                    Some((i, t)) => {
                        let all = t.read().scan_full().unwrap_or_default();
                        for (k, r) in &all {
                            record(STATE, &[C_ENTRY, id, vkey(k), rw(*r)]);
                        }
                        ret(c, id, OK, &[i.get_index_oid() as u64, tnum(p, i.get_table_name()), all.len() as u64])
                    }
                    None => ret(c, id, NONE, &[]),
                };
            }
            "r" => {
                let mut g = s.cat.write();
                if !g.use_database(&dbname(a(0))) {
                    continue;
                }
                inv(c, id, C_REB, &[a(0)]);
                g.rebuild_from_system_catalog();
                ret(c, id, OK, &[]);
            }
            "l" => look(p, s, c, C_LIST, a(0), 0),
            "ls" => look(p, s, c, C_DBS, 0, 0),
            "g" => look(p, s, c, C_GET, a(0), a(1)),
            "o" => look(p, s, c, C_OID, a(0), a(1)),
            "xo" => look(p, s, c, C_IXOF, a(0), a(1)),
            "xg" => look(p, s, c, C_IXGET, a(0), a(1)),
            "sc" => scan(p, s, c, a(0), a(1)),
            "c" | "a" => {
                if let Some((x, _)) = open.take() {
                    end(&x, o.k == "c");
                }
            }
            // rows, in the transaction that is open
            "i" => {
                let Some(t) = heap(p, s, a(0), a(1)) else { continue };
                let (x, mine) = open.get_or_insert_with(|| (s.f.begin_transaction(IsolationLevel::ReadCommitted), vec![]));
                for k in 0..a(3).max(1) {
                    let id = (1 << 40) + next_id();
                    let (w, f) = row(id, 0, a(2), RID::default());
                    let k0 = w.get_values().iter().map(vkey).collect::<Vec<_>>();
                    let txn = x.get_transaction_id();
                    // an update of a row of its own, now and then
                    if let (true, Some(i)) = (a(4) != 0 && k == 0, mine.iter().position(|m| m.0 == a(0) && m.1 == a(1))) {
                        let rid = mine[i].3;
                        inv(c, id, C_UPD, &[a(0), a(1), rw(rid), f, txn, k0[0], k0[1], k0[2]]);
                        let tt = TransactionalTableHeap::new(t.get_table_heap(), t.get_table_oidt());
                        let r = tt.update_tuple(&ferrite::storage::table::tuple::TupleMeta::new(txn), &w, rid, x.clone());
                        match r {
                            Ok(r) => ret(c, id, OK, &[rw(r)]),
                            Err(e) => {
                                simcore::log(&e);
                                ret(c, id, ERR, &[])
                            }
                        };
                        continue;
                    }
                    inv(c, id, C_ROW, &[a(0), a(1), f, txn, k0[0], k0[1], k0[2]]);
                    let tt = TransactionalTableHeap::new(t.get_table_heap(), t.get_table_oidt());
                    match tt.insert_tuple_from_values(w.get_values().to_vec(), &schema(), x.clone()) {
                        Ok(r) => {
                            mine.push((a(0), a(1), t.clone(), r));
                            ret(c, id, OK, &[rw(r)])
                        }
                        Err(e) => {
                            simcore::log(&e);
                            ret(c, id, ERR, &[])
                        }
                    };
                }
            }
            _ => {}
        }
    }
    if let Some((x, _)) = open.take() {
        end(&x, true);
    }
}
fn survey(p: &'static Plan, s: &Sh) {
    let (ndb, nt) = (p.cfg_or("dbs", 1) as u64, p.cfg_or("tabs", 4) as u64);
    look(p, s, 90, C_DBS, 0, 0);
    for d in 0..ndb {
        look(p, s, 90, C_LIST, d, 0);
        for t in 0..nt {
            look(p, s, 90, C_GET, d, t);
            look(p, s, 90, C_IXOF, d, t);
            scan(p, s, 90, d, t);
        }
        for o in 0..(nt * ndb + 8) {
            look(p, s, 90, C_OID, d, o);
            look(p, s, 90, C_IXGET, d, o);
        }
    }
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    record(NOTE, &[20, phase as u64]);
    CTR.store((phase as u64) << 32, std::sync::atomic::Ordering::SeqCst);
    rt.block_on(async move {
        let last = p.cfg_or("phases", 1) as u32 - 1;
        let m = open_disk(p).await;
        let b = bpm(p.cfg_or("frames", 10) as usize, 2, m.clone());
        let b2 = b.clone();
        let s = Arc::new(
            offload(move || {
                let f = TransactionManagerFactory::new(b2.clone());
                let cat = Catalog::new(b2.clone(), f.get_transaction_manager());
                Sh { f, cat: RwLock::new(cat), b: b2, h: tokio::runtime::Handle::current() }
            })
            .await,
        );
        if phase > 0 {
            // what every start does
            let s1 = s.clone();
            offload(move || s1.cat.write().rebuild_from_system_catalog()).await;
            let s1 = s.clone();
            offload(move || survey(p, &s1)).await;
        }
        let s1 = s.clone();
        drive(p, 10 * phase, 10 * phase + 10, move |c| client(p, c, &s1)).await;
        let s1 = s.clone();
        offload(move || survey(p, &s1)).await;
        if phase < last {
            if p.cfg("rebuild") != 0 {
                let s1 = s.clone();
                offload(move || {
                    s1.cat.write().use_database("default");
                    let id = (1 << 40) + next_id();
                    inv(90, id, C_REB, &[0]);
                    s1.cat.write().rebuild_from_system_catalog();
                    ret(90, id, OK, &[]);
                })
                .await;
                let s1 = s.clone();
                offload(move || survey(p, &s1)).await;
            }
            if s.b.flush_all_pages_durable().await.is_err() {
                simcore::violation("flush-failed", "flushing failed without an I/O error");
            }
            simcore::crash();
        }
        simcore::done();
    });
}

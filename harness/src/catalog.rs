//! P23: the catalog against a model of databases, tables and indexes, and across restarts.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::Catalog;
use ferrite::catalog::column::{Column, ForeignKeyConstraint, ReferentialAction};
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::index::IndexType;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;
use crate::util;

const TYPES: [TypeId; 8] = [TypeId::Integer, TypeId::BigInt, TypeId::VarChar, TypeId::Boolean, TypeId::Decimal, TypeId::SmallInt, TypeId::TinyInt, TypeId::Float];

/// One opened database, opened in the order the server does it.
struct Session {
    rt: Arc<tokio::runtime::Runtime>,
    disk: Arc<AsyncDiskManager>,
    log: Arc<RwLock<LogManager>>,
    bpm: Arc<BufferPoolManager>,
    factory: Arc<TransactionManagerFactory>,
    cat: Catalog,
}
impl Session {
    fn open(dir: &util::Scratch, frames: usize, saved: bool) -> Result<Session, String> {
        let rt = util::runtime_n(2);
        let existed = std::path::Path::new(&dir.file("t.db")).exists();
        let disk = Arc::new(
            rt.block_on(AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default())).map_err(|e| format!("open: {e}"))?,
        );
        let _g = rt.enter();
        let log = Arc::new(RwLock::new(LogManager::new(disk.clone())));
        log.write().run_flush_thread();
        let bpm = Arc::new(
            BufferPoolManager::new(frames, disk.clone(), Arc::new(RwLock::new(LRUKReplacer::new(frames, 2)))).map_err(|e| format!("pool: {e:?}"))?,
        );
        let factory = Arc::new(TransactionManagerFactory::with_wal_manager(bpm.clone(), Arc::new(WALManager::new(log.clone()))));
        let mut cat = Catalog::new(bpm.clone(), factory.get_transaction_manager());
        if existed {
            let r = LogRecoveryManager::new(disk.clone(), log.clone(), bpm.clone());
            rt.block_on(r.start_recovery()).map_err(|e| format!("recovery fails: {e}"))?;
        }
        if saved {
            cat.rebuild_from_system_catalog();
        }
        drop(_g);
        Ok(Session { rt, disk, log, bpm, factory, cat })
    }
    fn begin(&self) -> Arc<TransactionContext> {
        let _g = self.rt.enter();
        self.factory.begin_transaction(IsolationLevel::ReadCommitted)
    }
    fn close(mut self) -> Res {
        let _g = self.rt.enter();
        // what the next session finds is what was saved
        self.cat.rebuild_from_system_catalog();
        self.rt.block_on(self.bpm.flush_all_pages_durable())?;
        self.log.write().shut_down();
        self.rt.block_on(self.disk.force_flush_all()).map_err(|e| e.to_string())?;
        Ok(())
    }
    fn insert(&self, t: &Tab, rows: &[Vec<Value>], keep: bool) -> Result<usize, String> {
        let _g = self.rt.enter();
        let heap = self.cat.get_table_heap(&t.name).ok_or(format!("no heap for table {}", t.name))?;
        let tx = self.begin();
        let th = TransactionalTableHeap::new(heap, t.oid);
        let mut n = 0;
        for r in rows {
            th.insert_tuple_from_values(r.clone(), &t.schema, tx.clone()).map_err(|e| format!("insert into {}: {e}", t.name))?;
            n += 1;
        }
        if keep {
            check_ok(self.rt.block_on(self.factory.commit_transaction(tx)), "commit failed")?;
        } else {
            self.factory.abort_transaction(tx);
        }
        Ok(n)
    }
    /// The rows a new transaction sees.
    fn rows(&self, t: &Tab) -> Result<Vec<Vec<String>>, String> {
        let _g = self.rt.enter();
        let heap = self.cat.get_table_heap(&t.name).ok_or(format!("no heap for table {}", t.name))?;
        let tx = self.begin();
        let th = Arc::new(TransactionalTableHeap::new(heap, t.oid));
        let mut v: Vec<Vec<String>> = th.make_iterator(Some(tx.clone())).map(|(_, tuple)| gens::keys(&tuple.get_values())).collect();
        v.sort();
        self.rt.block_on(self.factory.commit_transaction(tx));
        Ok(v)
    }
}
fn check_ok(b: bool, what: &str) -> Res {
    if b { Ok(()) } else { Err(what.to_string()) }
}

#[derive(Clone)]
struct Tab {
    name: String,
    oid: u64,
    schema: Schema,
    types: Vec<TypeId>,
    rows: Vec<Vec<String>>,
}
struct Ind {
    name: String,
    oid: u64,
    table: String,
    attr: usize,
}
#[derive(Default)]
struct DbModel {
    tables: BTreeMap<String, Tab>,
    indexes: BTreeMap<String, Ind>,
}

/// A schema with every kind of decoration a column can have.
fn schema(rng: &mut Rng, m: &DbModel) -> (Schema, Vec<TypeId>, bool) {
    let n = rng.urange(1, 6);
    let mut ok = true;
    let mut types = vec![];
    let cols = (0..n)
        .map(|i| {
            let t = *rng.pick(&TYPES);
            types.push(t);
            let mut b = Column::builder(&format!("c{i}"), t);
            if i == 0 && rng.chance(1, 2) {
                b = b.as_primary_key();
            }
            if rng.chance(1, 4) {
                b = b.as_not_null();
            }
            if rng.chance(1, 5) {
                b = b.as_unique();
            }
            if t == TypeId::VarChar && rng.chance(1, 2) {
                b = b.with_length(rng.urange(1, 300));
            }
            if rng.chance(1, 5) {
                b = b.with_default_value(gens::value(rng, t, 12));
            }
            if t == TypeId::Decimal && rng.chance(1, 2) {
                b = b.with_precision_and_scale(rng.urange(1, 20) as u8, rng.below(5) as u8);
            }
            if rng.chance(1, 6) {
                b = b.with_check_constraint(format!("c{i} IS NOT NULL"));
            }
            if rng.chance(1, 8) {
                let name = if m.tables.is_empty() || rng.chance(1, 3) { "nowhere".to_string() } else { m.tables.keys().nth(rng.below(m.tables.len())).unwrap().clone() };
                let col = format!("c{}", rng.below(4));
                ok &= m.tables.get(&name).is_some_and(|t| t.schema.get_columns().iter().any(|c| c.get_name() == col));
                b = b.with_foreign_key(ForeignKeyConstraint {
                    referenced_table: name,
                    referenced_column: col,
                    on_delete: [None, Some(ReferentialAction::Cascade), Some(ReferentialAction::SetNull)][rng.below(3)].clone(),
                    on_update: None,
                });
            }
            b.build()
        })
        .collect();
    let mut s = Schema::new(cols);
    if rng.chance(1, 3) {
        s.set_primary_key_columns(vec![0]);
    }
    (s, types, ok)
}
fn some_rows(rng: &mut Rng, t: &Tab, most: usize) -> Vec<Vec<Value>> {
    (0..rng.below(most + 1)).map(|_| t.types.iter().enumerate().map(|(i, ty)| loop {
        let v = gens::value(rng, *ty, 60);
        let c = t.schema.get_column(i).unwrap();
        // NULL in a key asks for the next number
        if !v.is_null() || !(c.is_primary_key() || c.is_not_null() || c.is_unique() || c.get_default_value().is_some()) {
            break v;
        }
    }).collect()).collect()
}
fn agree(cat: &Catalog, m: &DbModel, log: &[String]) -> Res {
    let tell = || log.iter().rev().take(40).rev().cloned().collect::<Vec<_>>().join("; ");
    let want: BTreeSet<String> = m.tables.keys().cloned().collect();
    for (what, names) in [("get_table_names", cat.get_table_names()), ("get_all_tables", cat.get_all_tables())] {
        let n = names.len();
        let got: BTreeSet<String> = names.into_iter().collect();
        check!(got == want && n == want.len(), "{what} gives {n} names {got:?}, not {want:?}, after {}", tell());
    }
    for (name, t) in &m.tables {
        let i = cat.get_table(name).ok_or_else(|| format!("table {name} is not found after {}", tell()))?;
        check!(i.get_table_name() == name && i.get_table_oidt() == t.oid && i.get_table_schema() == t.schema, "table {name} has another name, OID or schema after {}", tell());
        let i = cat.get_table_by_oid(t.oid).ok_or_else(|| format!("table {name} is not found by OID {} after {}", t.oid, tell()))?;
        check!(i.get_table_name() == name, "OID {} of table {name} finds {} after {}", t.oid, i.get_table_name(), tell());
        check!(cat.get_table_schema(name).as_ref() == Some(&t.schema), "schema of {name} after {}", tell());
        check!(cat.get_table_columns(name).as_ref() == Some(t.schema.get_columns()), "columns of {name} after {}", tell());
        let mut got: Vec<(String, u64)> = cat.get_table_indexes(name).iter().map(|i| (i.get_index_name().clone(), i.get_index_oid())).collect();
        got.sort();
        let mut want: Vec<(String, u64)> = m.indexes.values().filter(|i| &i.table == name).map(|i| (i.name.clone(), i.oid)).collect();
        want.sort();
        check!(got == want, "table {name} has the indexes {got:?}, not {want:?}, after {}", tell());
    }
    for name in ["absent", "nowhere", "T0", ""] {
        check!(cat.get_table(name).is_none() && cat.get_table_heap(name).is_none() && cat.get_table_schema(name).is_none() && cat.get_table_indexes(name).is_empty(), "table {name} is found");
    }
    for i in m.indexes.values() {
        let (info, _) = cat.get_index_by_index_oid(i.oid).ok_or_else(|| format!("index {} is not found by its OID {} after {}", i.name, i.oid, tell()))?;
        check!(*info.get_index_name() == i.name && *info.get_table_name() == i.table && *info.get_key_attrs() == vec![i.attr], "index OID {} finds index {} on {} after {}", i.oid, info.get_index_name(), info.get_table_name(), tell());
    }
    Ok(())
}

fn same(t: &Tab, got: &[Vec<String>], log: &[String]) -> Res {
    if got != t.rows {
        let (a, b): (Vec<_>, Vec<_>) = (got.iter().filter(|r| !t.rows.contains(r)).take(2).collect(), t.rows.iter().filter(|r| !got.contains(r)).take(2).collect());
        return Err(format!("table {} shows {} rows, not {}; too many {a:?}, missing {b:?}; after {log:?}", t.name, got.len(), t.rows.len()));
    }
    Ok(())
}

/// Names, OIDs and rows while databases, tables and indexes come into being.
fn history(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let dir = util::Scratch::new("cat");
    let mut s = Session::open(&dir, 96, false)?;
    let rt = s.rt.clone();
    let _g = rt.enter();
    let mut dbs: BTreeMap<String, DbModel> = BTreeMap::from([("default".to_string(), DbModel::default())]);
    let mut cur = "default".to_string();
    let mut oids: HashSet<u64> = HashSet::new();
    let mut log = vec![];
    for _ in 0..rng.urange(10, 60) {
        match rng.below(12) {
            0..=3 => {
                let name = format!("t{}", rng.below(8));
                let (sc, types, fk_ok) = schema(rng, &dbs[&cur]);
                let fresh = !dbs[&cur].tables.contains_key(&name);
                log.push(format!("table {name} in {cur}"));
                let got = s.cat.create_table(name.clone(), sc.clone());
                check!(got.is_some() == (fresh && fk_ok), "creating table {name} (new {fresh}, foreign keys good {fk_ok}) says {} after {log:?}", got.is_some());
                if let Some(i) = got {
                    let oid = i.get_table_oidt();
                    check!(i.get_table_name() == name && i.get_table_schema() == sc, "a new table has another name or schema than asked for");
                    check!(oids.insert(oid), "table {name} gets OID {oid}, which another table has, after {log:?}");
                    dbs.get_mut(&cur).unwrap().tables.insert(name.clone(), Tab { name, oid, schema: sc, types, rows: vec![] });
                } else {
                    ctx.count("tables refused", 1);
                }
            },
            4 => {
                let name = rng.pick(&["a", "b", "default"]).to_string();
                log.push(format!("database {name}"));
                let fresh = !dbs.contains_key(&name);
                check!(s.cat.create_database(name.clone()) == fresh, "creating database {name} (new {fresh}) after {log:?}");
                dbs.entry(name).or_default();
            },
            5 => {
                let name = rng.pick(&["a", "b", "default", "none"]).to_string();
                log.push(format!("use {name}"));
                let there = dbs.contains_key(&name);
                check!(s.cat.use_database(&name) == there, "using database {name} (there {there}) after {log:?}");
                if there {
                    cur = name;
                }
                check!(s.cat.get_current_database_name() == Some(&cur), "the current database is {:?}, not {cur}", s.cat.get_current_database_name());
                let mut names = s.cat.get_database_names();
                names.sort();
                check!(names == dbs.keys().cloned().collect::<Vec<_>>(), "databases {names:?}");
            },
            6 | 7 => {
                let name = format!("i{}", rng.below(6));
                let m = &dbs[&cur];
                let on = if m.tables.is_empty() || rng.chance(1, 6) { "absent".to_string() } else { m.tables.keys().nth(rng.below(m.tables.len())).unwrap().clone() };
                let (attr, key) = match m.tables.get(&on) {
                    Some(t) => {
                        let a = rng.below(t.types.len());
                        (a, Schema::new(vec![t.schema.get_column(a).unwrap().clone()]))
                    },
                    None => (0, Schema::new(vec![Column::new("x", TypeId::Integer)])),
                };
                let ok = m.tables.contains_key(&on) && !m.indexes.contains_key(&name);
                log.push(format!("index {name} on {on}.{attr} in {cur}"));
                let got = s.cat.create_index(&name, &on, key, vec![attr], 8, rng.chance(1, 4), IndexType::BPlusTreeIndex);
                check!(got.is_some() == ok, "creating index {name} on {on} says {} after {log:?}", got.is_some());
                if let Some((info, tree)) = got {
                    let n = tree.read().scan_full()?.len();
                    let rows = dbs[&cur].tables[&on].rows.len();
                    // aborted rows may be in it as well
                    check!(n >= rows, "a new index on {on} has {n} entries for {rows} rows after {log:?}");
                    dbs.get_mut(&cur).unwrap().indexes.insert(name.clone(), Ind { name, oid: info.get_index_oid(), table: on, attr });
                }
            },
            8..=10 => {
                let m = dbs.get_mut(&cur).unwrap();
                if let Some(t) = (!m.tables.is_empty()).then(|| rng.below(m.tables.len())).and_then(|i| m.tables.values_mut().nth(i)) {
                    let rows = some_rows(rng, t, 6);
                    let keep = rng.chance(3, 4);
                    log.push(format!("{} rows into {} in {cur}{}", rows.len(), t.name, if keep { "" } else { ", aborted" }));
                    // rows a constraint refuses are not what this is about
                    match s.insert(t, &rows, keep) {
                        Ok(_) if keep => {
                            t.rows.extend(rows.iter().map(|r| gens::keys(r)));
                            t.rows.sort();
                            ctx.count("rows committed", rows.len() as u64);
                        },
                        Ok(_) => {},
                        Err(e) => return Err(format!("{e} after {log:?}")),
                    }
                }
            },
            _ => {},
        }
        agree(&s.cat, &dbs[&cur], &log)?;
        let m = &dbs[&cur];
        if let Some(t) = (!m.tables.is_empty()).then(|| m.tables.values().nth(rng.below(m.tables.len())).unwrap()) {
            let got = s.rows(t)?;
            same(t, &got, &log)?;
        }
        ctx.eval(1);
        ctx.seen(&("history", dbs.len(), m.tables.len(), m.indexes.len(), oids.len()));
    }
    ctx.sample("history", || json!({"seed": seed, "databases": dbs.len(), "tables": oids.len()}));
    Ok(())
}

/// The saved catalog lies in the working directory.
struct Cwd(std::path::PathBuf);
impl Cwd {
    fn enter(d: &util::Scratch) -> Cwd {
        let was = std::env::current_dir().expect("working directory");
        std::env::set_current_dir(&d.0).expect("scratch directory");
        Cwd(was)
    }
}
impl Drop for Cwd {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

/// Sessions one after another over the same files.
fn restart(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let dir = util::Scratch::new("cat");
    let _cwd = Cwd::enter(&dir);
    let mut m = DbModel::default();
    let mut log: Vec<String> = vec![];
    let sessions = rng.urange(2, 5);
    for no in 0..sessions {
        log.push(format!("session {no}"));
        let mut s = Session::open(&dir, 64, true)?;
        let rt = s.rt.clone();
        let _g = rt.enter();
        agree(&s.cat, &m, &log)?;
        for t in m.tables.values() {
            let got = s.rows(t)?;
            same(t, &got, &log)?;
            ctx.eval(1);
        }
        for _ in 0..rng.urange(0, 8) {
            if m.tables.is_empty() || rng.chance(1, 3) {
                let name = format!("t{}", rng.below(9));
                let (sc, types, fk_ok) = schema(rng, &m);
                let fresh = !m.tables.contains_key(&name);
                log.push(format!("table {name}"));
                let got = s.cat.create_table(name.clone(), sc.clone());
                check!(got.is_some() == (fresh && fk_ok), "creating table {name} (new {fresh}, foreign keys good {fk_ok}) says {} after {log:?}", got.is_some());
                if let Some(i) = got {
                    let oid = i.get_table_oidt();
                    check!(m.tables.values().all(|t| t.oid != oid), "table {name} gets OID {oid}, which another table has, after {log:?}");
                    m.tables.insert(name.clone(), Tab { name, oid, schema: sc, types, rows: vec![] });
                }
            } else if rng.chance(1, 12) {
                log.push("save".into());
                s.cat.rebuild_from_system_catalog();
            } else {
                let at = rng.below(m.tables.len());
                let t = m.tables.values_mut().nth(at).unwrap();
                let most = *rng.pick(&[3, 10, 120]);
                let rows = some_rows(rng, t, most);
                let keep = rng.chance(4, 5);
                log.push(format!("{} rows into {}{}", rows.len(), t.name, if keep { "" } else { ", aborted" }));
                s.insert(t, &rows, keep).map_err(|e| format!("{e} after {log:?}"))?;
                if keep {
                    t.rows.extend(rows.iter().map(|r| gens::keys(r)));
                    t.rows.sort();
                    ctx.count("rows committed", rows.len() as u64);
                }
                let got = s.rows(t)?;
                same(t, &got, &log)?;
            }
            agree(&s.cat, &m, &log)?;
        }
        s.close()?;
        ctx.seen(&("restart", no, m.tables.len(), m.tables.values().map(|t| t.rows.len()).sum::<usize>()));
    }
    ctx.count("sessions", sessions as u64);
    ctx.sample("restart", || json!({"seed": seed, "sessions": sessions, "tables": m.tables.len()}));
    Ok(())
}

/// A table created after the catalog was last saved.
fn unsaved() -> Res {
    let dir = util::Scratch::new("cat");
    let _cwd = Cwd::enter(&dir);
    let mut s = Session::open(&dir, 32, true)?;
    let rt = s.rt.clone();
    let _g = rt.enter();
    s.cat.create_table("t".into(), Schema::new(vec![Column::new("a", TypeId::Integer)])).ok_or("not created")?;
    rt.block_on(s.bpm.flush_all_pages_durable())?;
    s.log.write().shut_down();
    drop(s);
    let s = Session::open(&dir, 32, true)?;
    check!(s.cat.get_table("t").is_some(), "a table created after the catalog was saved is gone after a clean restart");
    Ok(())
}

/// Schemas alone: layout, and how names find columns, against the documented rules.
fn columns(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    fn cols(rng: &mut Rng) -> Vec<Column> {
        (0..rng.below(9))
            .map(|_| {
                let base = *rng.pick(&["a", "b", "c", "id", "ID", "ab", "a b"]);
                let name = if rng.chance(1, 2) { base.to_string() } else { format!("{}.{base}", rng.pick(&["t", "u", "a", "T"])) };
                let ty = *rng.pick(&TYPES);
                let mut b = Column::builder(&name, ty);
                if ty == TypeId::VarChar && rng.chance(1, 2) {
                    b = b.with_length(rng.urange(1, 3000));
                }
                if rng.chance(1, 3) {
                    b = b.as_not_null();
                }
                if rng.chance(1, 4) {
                    b = b.as_unique();
                }
                if rng.chance(1, 4) {
                    b = b.with_default_value(Value::new(rng.below(9) as i32));
                }
                b.build()
            })
            .collect()
    }
    /// All but the offset, which belongs to the place in the schema.
    fn plain(c: &Column) -> Column {
        let mut c = c.clone();
        c.set_offset(0);
        c
    }
    fn layout(s: &Schema, want: &[Column], tell: &str) -> Res {
        check!(s.get_column_count() as usize == want.len() && s.get_columns().len() == want.len(), "{tell}: {} columns for {}", s.get_column_count(), want.len());
        let (mut at, mut out) = (0, vec![]);
        for (i, w) in want.iter().enumerate() {
            let c = s.get_column(i).ok_or_else(|| format!("{tell}: no column {i}"))?;
            check!(plain(c) == plain(w), "{tell}: column {i} is {c:?}, not {w:?}");
            check!(c.get_offset() == at, "{tell}: column {i} is at offset {}, after {at} bytes of columns", c.get_offset());
            at += if w.get_type() == TypeId::VarChar { 8 } else { w.get_storage_size() };
            if w.get_type() == TypeId::VarChar {
                out.push(i as u32);
            }
        }
        check!(s.get_column(want.len()).is_none(), "{tell}: a column beyond the last");
        check!(s.get_inlined_storage_size() as usize == at, "{tell}: {} bytes for {at}", s.get_inlined_storage_size());
        check!(s.get_unlined_columns() == &out && s.get_unlined_column_count() as usize == out.len() && s.is_inlined() == out.is_empty(), "{tell}: columns outside the tuple are {:?}, not {out:?}", s.get_unlined_columns());
        Ok(())
    }
    let (l, r) = (cols(rng), cols(rng));
    let (ls, rs) = (Schema::new(l.clone()), Schema::new(r.clone()));
    layout(&ls, &l, "schema")?;
    let both: Vec<Column> = l.iter().chain(&r).cloned().collect();
    layout(&Schema::merge(&ls, &rs), &both, "merged schema")?;
    // an alias becomes the table part of every name
    let (la, ra) = (rng.chance(2, 3).then(|| *rng.pick(&["x", "t", "u"])), rng.chance(2, 3).then(|| *rng.pick(&["y", "t", "a"])));
    let named = |c: &Column, a: Option<&str>| {
        let mut c = c.clone();
        if let Some(a) = a {
            let last = c.get_name().rsplit('.').next().unwrap().to_string();
            c.set_name(format!("{a}.{last}"));
        }
        c
    };
    let aliased: Vec<Column> = l.iter().map(|c| named(c, la)).chain(r.iter().map(|c| named(c, ra))).collect();
    let s = Schema::merge_with_aliases(&ls, &rs, la, ra);
    layout(&s, &aliased, &format!("schema merged as {la:?} and {ra:?}"))?;
    for (s, want) in [(&ls, &l), (&s, &aliased)] {
        let names: Vec<&str> = want.iter().map(|c| c.get_name()).collect();
        for t in ["", "t.", "u.", "a.", "T.", "x.", "y."] {
            for base in ["a", "b", "c", "id", "ID", "ab", "a b", "zz"] {
                let n = format!("{t}{base}");
                let exact = names.iter().position(|x| *x == n);
                check!(s.get_column_index(&n) == exact, "{n} is column {:?} of {names:?}", s.get_column_index(&n));
                let found = exact.or_else(|| if t.is_empty() { names.iter().position(|x| x.split_once('.').is_some_and(|p| p.1 == base)) } else { names.iter().position(|x| *x == base) });
                check!(s.get_qualified_column_index(&n) == found, "{n} resolves to column {:?} of {names:?}, not {found:?}", s.get_qualified_column_index(&n));
                ctx.eval(1);
            }
        }
    }
    let pick: Vec<usize> = if l.is_empty() { vec![] } else { (0..rng.below(5)).map(|_| rng.below(l.len())).collect() };
    let c = Schema::copy_schema(&ls, &pick);
    check!(c.get_column_count() as usize == pick.len() && pick.iter().enumerate().all(|(i, p)| plain(c.get_column(i).unwrap()) == plain(&l[*p])), "the copy of columns {pick:?} of {l:?} is {c:?}");
    ctx.seen(&("schema", l.len(), r.len(), la, ra));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (databases, tables, indexes) of a history, (widths, aliases) of merged schemas or (session, tables, rows) of a sequence of restarts, compared with the model in full");
    ctx.assume("the catalog is saved (rebuilt) before a session ends and sessions end cleanly; only the default database is saved");
    // no saved catalog of someone else
    let dir = util::Scratch::new("catcwd");
    let _cwd = Cwd::enter(&dir);
    ctx.probe("table_created_after_last_save", unsaved);
    ctx.explore("restart", 1, 6.0, 20, 10_000_000, restart);
    ctx.explore("schema", 1, 1.0, 100, 10_000_000, columns);
    ctx.explore("history", 8, 6.0, 100, 10_000_000, history);
}

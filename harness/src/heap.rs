//! P08: the table heap against a list of rows.
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::INVALID_PAGE_ID;
use ferrite::common::rid::RID;
use ferrite::storage::table::table_heap::{TableHeap, TableInfo};
use ferrite::storage::table::table_iterator::{TableIterator, TableScanIterator};
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::pool::Pool;
use crate::rng::Rng;

struct Row {
    rid: RID,
    meta: TupleMeta,
    vals: Vec<String>,
}
struct Table {
    oid: u64,
    schema: Schema,
    types: Vec<TypeId>,
    heap: Arc<TableHeap>,
    txn_heap: Arc<TransactionalTableHeap>,
    rows: Vec<Row>,
    keys: HashSet<String>,
    max: usize,
}

fn reads_as(heap: &TableHeap, r: &Row, what: &str) -> Res {
    let (m, t) = heap.get_tuple_internal(r.rid, true).map_err(|e| format!("{what}: {:?} unreadable: {e}", r.rid))?;
    check!(*m == r.meta, "{what}: {:?} metadata {m:?} instead of {:?}", r.rid, r.meta);
    check!(t.get_rid() == r.rid, "{what}: {:?} carries RID {:?}", r.rid, t.get_rid());
    let g = gens::keys(&t.get_values());
    check!(g == r.vals, "{what}: {:?} holds {g:?} instead of {:?}", r.rid, r.vals);
    match heap.get_tuple(r.rid) {
        Ok(_) => check!(!r.meta.is_deleted(), "{what}: deleted {:?} is still read", r.rid),
        Err(e) => check!(r.meta.is_deleted(), "{what}: {:?} not read: {e}", r.rid),
    }
    match heap.get_tuple_meta(r.rid) {
        Ok(m) => check!(*m == r.meta, "{what}: {:?} get_tuple_meta {m:?} instead of {:?}", r.rid, r.meta),
        Err(e) => check!(r.meta.is_deleted(), "{what}: {:?} has no metadata: {e}", r.rid),
    }
    Ok(())
}

fn same_rows(got: &[(RID, TupleMeta, Vec<String>, RID)], want: &[&Row], what: &str) -> Res {
    for (i, (rid, m, v, own)) in got.iter().enumerate() {
        let Some(w) = want.get(i) else {
            return Err(format!("{what}: {} rows of {} expected, extra {rid:?}", got.len(), want.len()));
        };
        check!(*rid == w.rid, "{what}: row {i} of {} is {rid:?} instead of {:?}", want.len(), w.rid);
        check!(own == rid, "{what}: the tuple read at {rid:?} carries {own:?}");
        check!(*m == w.meta, "{what}: {rid:?} metadata {m:?} instead of {:?}", w.meta);
        check!(*v == w.vals, "{what}: {rid:?} holds {v:?} instead of {:?}", w.vals);
    }
    check!(got.len() == want.len(), "{what}: {} rows instead of {}", got.len(), want.len());
    Ok(())
}

impl Table {
    fn scan(&self, start: RID, stop: RID) -> Vec<(RID, TupleMeta, Vec<String>, RID)> {
        let mut it = TableIterator::new(self.txn_heap.clone(), start, stop, None);
        let mut out = Vec::new();
        while let Some((m, t)) = it.next() {
            let rid = it.get_last_rid().unwrap_or(RID::new(INVALID_PAGE_ID, 0));
            out.push((rid, *m, gens::keys(&t.get_values()), t.get_rid()));
        }
        out
    }
    fn live(&self) -> Vec<&Row> {
        self.rows.iter().filter(|r| !r.meta.is_deleted()).collect()
    }
    fn full(&self, rng: &mut Rng) -> Res {
        let inv = RID::new(INVALID_PAGE_ID, 0);
        same_rows(&self.scan(inv, inv), &self.live(), "scan")?;
        check!(self.heap.get_num_tuples() == self.rows.len(), "get_num_tuples {} of {}", self.heap.get_num_tuples(), self.rows.len());
        // Start and stop anywhere.
        if !self.rows.is_empty() {
            let a = rng.below(self.rows.len());
            let b = rng.below(self.rows.len());
            let want: Vec<&Row> = if b < a {
                vec![]
            } else {
                self.rows[a..=b].iter().filter(|r| !r.meta.is_deleted()).collect()
            };
            same_rows(&self.scan(self.rows[a].rid, self.rows[b].rid), &want, "partial scan")?;
        }
        let info = Arc::new(TableInfo::new(self.schema.clone(), format!("t{}", self.oid), self.heap.clone(), self.oid));
        let mut it = TableScanIterator::new(info);
        let cut = rng.below(self.rows.len() + 2);
        for round in 0..2 {
            let mut got = Vec::new();
            while let Some((m, t)) = it.next() {
                got.push((it.get_rid(), *m, gens::keys(&t.get_values()), t.get_rid()));
                if round == 0 && got.len() > cut {
                    break;
                }
            }
            if round == 0 && got.len() > cut {
                let live = self.live();
                same_rows(&got, &live[..got.len()], "scan iterator")?;
                it.reset();
                continue;
            }
            same_rows(&got, &self.live(), "scan iterator")?;
            check!(it.is_end() && it.next().is_none(), "an ended scan iterator goes on");
            it.reset();
        }
        for r in &self.rows {
            reads_as(&self.heap, r, "full read")?;
        }
        // The chain of pages.
        let mut page = self.heap.get_first_page_id_raw();
        let mut prev = INVALID_PAGE_ID;
        let mut n = 0;
        let mut slots = 0;
        let pages: HashSet<u64> = self.rows.iter().map(|r| r.rid.get_page_id()).collect();
        let mut chain = HashSet::new();
        while page != INVALID_PAGE_ID {
            check!(chain.insert(page), "the page chain comes back to page {page}");
            let g = self.heap.get_page(page)?;
            let g = g.read();
            check!(g.get_prev_page_id() == prev, "page {page} links back to {} instead of {prev}", g.get_prev_page_id());
            slots += g.get_num_tuples() as usize;
            prev = page;
            page = g.get_next_page_id();
            n += 1;
        }
        check!(prev == self.heap.get_last_page_id_raw(), "the chain ends at {prev}, last page is {}", self.heap.get_last_page_id_raw());
        check!(n == self.heap.get_num_pages(), "{n} pages in the chain, get_num_pages says {}", self.heap.get_num_pages());
        check!(pages.is_subset(&chain), "rows outside the page chain");
        check!(slots == self.rows.len(), "{slots} slots in the chain, {} rows", self.rows.len());
        Ok(())
    }
}

fn model(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let frames = if rng.chance(1, 2) { rng.urange(6, 12) } else { rng.urange(20, 60) };
    let p = Pool::new(frames, rng.urange(1, 3));
    let _rt = p.rt.enter();
    let n = rng.urange(1, 3);
    let mut tabs: Vec<Table> = Vec::new();
    for i in 0..n {
        let (mut schema, types) = gens::schema(rng, 6);
        let oid = 1 + i as u64;
        if rng.chance(1, 2) {
            let mut cols: Vec<Column> = schema.get_columns().clone();
            for (c, t) in cols.iter_mut().zip(&types) {
                match rng.below(4) {
                    0 => c.set_default_value(Some(gens::value(rng, *t, 20))),
                    1 => c.set_not_null(true),
                    _ => {},
                }
            }
            if types[0] == TypeId::Integer {
                cols[0].set_primary_key(true);
            }
            schema = Schema::new(cols);
        }
        let heap = Arc::new(TableHeap::new(p.bpm.clone(), oid));
        let txn_heap = Arc::new(TransactionalTableHeap::new(heap.clone(), oid));
        let max = *rng.pick(&[8, 40, 200, 900]);
        tabs.push(Table { oid, schema, types, heap, txn_heap, rows: Vec::new(), keys: HashSet::new(), max });
    }
    let mut trace: Vec<String> = Vec::new();
    let r = model_run(ctx, rng, &p, &mut tabs, &mut trace);
    if let Err(e) = r {
        let k = trace.len().saturating_sub(25);
        return Err(format!("{e}\nframes {frames}; last operations:\n{}", trace[k..].join("\n")));
    }
    ctx.max("largest_heap_pages", tabs.iter().map(|t| t.heap.get_num_pages() as u64).max().unwrap_or(0));
    ctx.count("rows", tabs.iter().map(|t| t.rows.len() as u64).sum());
    ctx.seen(&("heap", frames, tabs.iter().map(|t| (t.rows.len(), t.heap.get_num_pages())).collect::<Vec<_>>()));
    ctx.sample("table heap history", || json!({"seed": seed, "frames": frames, "last_operations": trace.iter().rev().take(12).collect::<Vec<_>>()}));
    Ok(())
}

fn big_value(rng: &mut Rng, n: usize) -> Value {
    let s: String = (0..n).map(|i| (b'a' + ((i + rng.below(3)) % 26) as u8) as char).collect();
    Value::new_with_type(Val::VarLen(s), TypeId::VarChar)
}

fn model_run(ctx: &Ctx, rng: &mut Rng, p: &Pool, tabs: &mut [Table], trace: &mut Vec<String>) -> Res {
    let steps = rng.urange(60, 300);
    for _ in 0..steps {
        let ti = rng.below(tabs.len());
        let t = &mut tabs[ti];
        let oid = t.oid;
        match rng.below(20) {
            0..=8 => {
                let mut vals = gens::values(rng, &t.types, t.max);
                let huge = rng.chance(1, 25);
                if huge || rng.chance(1, 8) {
                    let at = rng.below(vals.len());
                    vals[at] = if huge { big_value(rng, *rng.clone().pick(&[3400, 3490, 3600, 5000, 70000])) } else { big_value(rng, 1500) };
                }
                let mut m = TupleMeta::new(1 + rng.next() % 50);
                if rng.chance(1, 2) {
                    m.set_commit_timestamp(rng.next() % 1000);
                }
                if rng.chance(1, 15) {
                    m.set_deleted(true);
                }
                // The plain insert takes a tuple that already carries the slot it will get.
                let next = match t.rows.last() {
                    Some(l) => RID::new(l.rid.get_page_id(), l.rid.get_slot_num() + 1),
                    None => RID::new(t.heap.get_first_page_id_raw(), 0),
                };
                let right = rng.chance(3, 4);
                let tup = gens::tuple(&vals, &t.schema, if right { next } else { RID::new(rng.next() % 9, 3) });
                let len = tup.get_length().unwrap_or(usize::MAX);
                let before = t.heap.get_num_pages();
                let how = rng.below(3);
                let (r, keys) = match how {
                    0 => (t.heap.insert_tuple(Arc::new(m), &tup), gens::keys(&vals)),
                    1 => (t.heap.insert_tuple_internal(Arc::new(m), &tup), gens::keys(&vals)),
                    _ => {
                        // Values may stop early; the rest is filled from the schema.
                        let k = if rng.chance(1, 2) { vals.len() } else { rng.below(vals.len() + 1) };
                        let given: Vec<Value> = vals[..k].to_vec();
                        let mut want = gens::keys(&given);
                        let mut refused = false;
                        let mut auto = false;
                        for (i, ty) in t.types.iter().enumerate() {
                            let c = t.schema.get_column(i).unwrap();
                            if i < k && !(c.is_primary_key() && given[i].is_null()) {
                                continue;
                            }
                            if c.is_primary_key() {
                                auto = true;
                                if i < k {
                                    want[i] = "auto".into();
                                } else {
                                    want.push("auto".into());
                                }
                            } else if let Some(d) = c.get_default_value() {
                                want.push(gens::key(d));
                            } else if c.is_not_null() {
                                refused = true;
                                break;
                            } else {
                                want.push(gens::key(&Value::new_with_type(Val::Null, *ty)));
                            }
                        }
                        let r = t.heap.insert_tuple_from_values(given, &t.schema, Arc::new(m));
                        if refused {
                            check!(r.is_err(), "table {oid}: a row without a value for a NOT NULL column was stored");
                            ctx.count("refused_not_null", 1);
                            trace.push(format!("insert[{oid}] refused (NOT NULL)"));
                            continue;
                        }
                        if auto && let Ok(rid) = &r {
                            let (_, tp) = t.heap.get_tuple_internal(*rid, true)?;
                            let v = tp.get_value(0);
                            check!(!v.is_null() && v.get_type_id() == TypeId::Integer, "generated key {v:?}");
                            let k = gens::key(&v);
                            check!(t.keys.insert(k.clone()), "generated key {k} twice");
                            want[0] = k;
                        }
                        (r, want)
                    },
                };
                trace.push(format!("insert[{oid}] how {how} {len} bytes -> {r:?}"));
                match r {
                    Ok(rid) => {
                        if let Some(x) = t.rows.iter().find(|x| x.rid == rid) {
                            return Err(format!("table {oid}: {rid:?} given out twice ({:?})", x.vals));
                        }
                        if let Some(l) = t.rows.last() {
                            let (a, b) = (l.rid.get_page_id(), rid.get_page_id());
                            let ok = if a == b { rid.get_slot_num() == l.rid.get_slot_num() + 1 } else { rid.get_slot_num() == 0 };
                            check!(ok, "table {oid}: {rid:?} follows {:?}", l.rid);
                            if a != b && !(how == 0 && !right) {
                                // a page is only added when the row does not fit the last one
                                let (_, stored) = t.heap.get_tuple_internal(rid, true)?;
                                let g = t.heap.get_page(a)?;
                                check!(!g.read().has_space_for(&m, &stored), "table {oid}: {rid:?} went to a new page, {:?} had room for it", l.rid);
                                ctx.count("pages_filled", 1);
                            }
                        }
                        t.rows.push(Row { rid, meta: m, vals: keys });
                        reads_as(&t.heap, t.rows.last().unwrap(), "after insert")?;
                        ctx.count("inserts", 1);
                    },
                    Err(e) => {
                        check!(len > 3300 && how < 2 || how == 0 && !right || how == 2, "table {oid}: a row of {len} bytes was refused: {e}");
                        if how == 2 && len <= 3300 && !t.schema.get_columns().iter().any(|c| c.get_default_value().is_some()) {
                            return Err(format!("table {oid}: values for {len} bytes were refused: {e}"));
                        }
                        check!(t.heap.get_num_pages() == before, "table {oid}: a refused row left a page behind");
                        ctx.count("refused_too_large", 1);
                    },
                }
            },
            9..=12 if !t.rows.is_empty() => {
                let i = rng.below(t.rows.len());
                let rid = t.rows[i].rid;
                let mut vals = gens::values(rng, &t.types, t.max);
                if rng.chance(1, 6) {
                    let at = rng.below(vals.len());
                    vals[at] = big_value(rng, *rng.clone().pick(&[100, 1000, 3000, 4000]));
                }
                let old = t.rows[i].meta;
                let internal = rng.chance(1, 2);
                let same = rng.chance(1, 2);
                let mut m = TupleMeta::new(if same { old.get_creator_txn_id() } else { 60 + rng.next() % 9 });
                if rng.chance(1, 2) {
                    m.set_commit_timestamp(rng.next() % 1000);
                }
                let tup = gens::tuple(&vals, &t.schema, rid);
                let held = t.heap.get_tuple_internal(rid, true)?.1.get_length().unwrap_or(0);
                let len = tup.get_length().unwrap_or(usize::MAX);
                let r = if internal {
                    t.heap.update_tuple_internal(Arc::new(m), &tup, rid)
                } else {
                    t.heap.update_tuple(Arc::new(m), &tup, rid, None)
                };
                trace.push(format!("update[{oid}] {rid:?} internal {internal} -> {r:?}"));
                if !internal {
                    let allowed = !old.is_deleted() && (m.get_creator_txn_id() == old.get_creator_txn_id() || old.is_committed());
                    check!(allowed || r.is_err(), "table {oid}: update of {old:?} by {m:?} was allowed");
                }
                match r {
                    Ok(x) => {
                        check!(x == rid, "update of {rid:?} answers {x:?}");
                        t.rows[i].meta = m;
                        t.rows[i].vals = gens::keys(&vals);
                        ctx.count("updates", 1);
                    },
                    Err(e) => {
                        let allowed = internal || !old.is_deleted() && (m.get_creator_txn_id() == old.get_creator_txn_id() || old.is_committed());
                        check!(!allowed || len > held, "table {oid}: an update of {rid:?} from {held} to {len} bytes was refused: {e}");
                        ctx.count("refused_updates", 1)
                    },
                }
                for j in [i.saturating_sub(1), i, (i + 1).min(t.rows.len() - 1)] {
                    reads_as(&t.heap, &t.rows[j], "after update")?;
                }
            },
            13..=14 if !t.rows.is_empty() => {
                let i = rng.below(t.rows.len());
                let rid = t.rows[i].rid;
                let old = t.rows[i].meta;
                let mut m = old;
                if rng.chance(1, 4) {
                    m.set_creator_txn_id(77);
                }
                m.set_deleted(rng.chance(2, 3));
                if rng.chance(1, 3) {
                    m.set_commit_timestamp(rng.next() % 1000);
                }
                let r = t.heap.update_tuple_meta(Arc::new(m), rid);
                trace.push(format!("meta[{oid}] {rid:?} {m:?} -> {r:?}"));
                let allowed = !old.is_deleted() && (m.get_creator_txn_id() == old.get_creator_txn_id() || old.is_committed());
                check!(r.is_ok() == allowed, "table {oid}: metadata change {old:?} -> {m:?} answered {r:?}");
                if r.is_ok() {
                    t.rows[i].meta = m;
                }
                reads_as(&t.heap, &t.rows[i], "after metadata change")?;
            },
            15 => {
                // A RID that was never given out.
                let rid = match t.rows.last() {
                    Some(l) => RID::new(l.rid.get_page_id(), l.rid.get_slot_num() + 1 + rng.below(5) as u32),
                    None => RID::new(t.heap.get_first_page_id_raw(), 0),
                };
                check!(t.heap.get_tuple(rid).is_err() && t.heap.get_tuple_internal(rid, true).is_err() && t.heap.get_tuple_meta(rid).is_err(), "table {oid}: a row at {rid:?}, which was never given out");
                let tup = gens::tuple(&gens::values(rng, &t.types, 4), &t.schema, rid);
                check!(t.heap.update_tuple_internal(Arc::new(TupleMeta::new(1)), &tup, rid).is_err(), "table {oid}: update of {rid:?}, which was never given out");
                check!(t.heap.update_tuple_meta(Arc::new(TupleMeta::new(1)), rid).is_err(), "table {oid}: metadata change of {rid:?}, which was never given out");
                check!(t.heap.get_num_tuples() == t.rows.len(), "table {oid}: {} rows of {}", t.heap.get_num_tuples(), t.rows.len());
            },
            16 => {
                // Another handle over the same pages.
                let last = if rng.chance(1, 2) || t.heap.get_num_pages() > 1 { t.heap.get_last_page_id_raw() } else { INVALID_PAGE_ID };
                let h = Arc::new(TableHeap::reopen(p.bpm.clone(), oid, t.heap.get_first_page_id_raw(), last));
                t.heap = h;
                t.txn_heap = Arc::new(TransactionalTableHeap::new(t.heap.clone(), oid));
                trace.push(format!("reopen[{oid}]"));
                ctx.count("reopens", 1);
                t.full(rng)?;
            },
            17 => {
                for t in tabs.iter() {
                    t.full(rng).map_err(|e| format!("table {}: {e}", t.oid))?;
                }
                ctx.count("full_comparisons", 1);
            },
            18 => {
                let _ = p.rt.block_on(p.bpm.flush_all_pages_async());
                trace.push("flush".into());
            },
            _ if rng.chance(1, 3) => {
                // Nothing may enter while every frame is in use; everything is as before after.
                let mut hold = Vec::new();
                while let Some(g) = p.bpm.new_page::<ferrite::storage::page::BasicPage>() {
                    hold.push(g);
                    if hold.len() > 100 {
                        return Err("more pages held than there are frames".into());
                    }
                }
                let tup = gens::tuple(&gens::values(rng, &t.types, 4), &t.schema, RID::new(0, 0));
                let m = TupleMeta::new(3);
                let r = t.heap.insert_tuple(Arc::new(m), &tup);
                drop(hold);
                trace.push(format!("insert[{oid}] into an exhausted pool -> {r:?}"));
                if let Ok(rid) = r {
                    t.rows.push(Row { rid, meta: m, vals: gens::keys(&tup.get_values()) });
                } else {
                    ctx.count("inserts_without_a_frame", 1);
                }
                check!(t.heap.get_num_tuples() == t.rows.len(), "table {oid}: {} rows instead of {} after an insert without a free frame", t.heap.get_num_tuples(), t.rows.len());
                t.full(rng)?;
            },
            _ => {},
        }
    }
    for t in tabs.iter() {
        t.full(rng).map_err(|e| format!("table {}: {e}", t.oid))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- threads

fn checked(id: u64, ver: u64, pad: usize, schema: &Schema) -> Tuple {
    let body: String = (0..pad).map(|i| (b'a' + ((id + ver * 7 + i as u64) % 26) as u8) as char).collect();
    let sum = crate::rng::mix(id ^ ver.rotate_left(32) ^ pad as u64);
    Tuple::new(
        &[Value::new(id as i64), Value::new(ver as i64), Value::new_with_type(Val::VarLen(body), TypeId::VarChar), Value::new(sum as i64)],
        schema,
        RID::new(0, 0),
    )
}
fn verify(t: &Tuple) -> Result<(u64, u64), String> {
    let big = |i: usize| match t.get_value(i).get_val() {
        Val::BigInt(x) => Ok(*x as u64),
        o => Err(format!("column {i} came back as {o:?}")),
    };
    let (id, ver, sum) = (big(0)?, big(1)?, big(3)?);
    let body = match t.get_value(2).get_val() {
        Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
        o => return Err(format!("column 2 came back as {o:?}")),
    };
    check!(sum == crate::rng::mix(id ^ ver.rotate_left(32) ^ body.len() as u64), "row {id} version {ver}: mixed content");
    for (i, b) in body.bytes().enumerate() {
        check!(b == b'a' + ((id + ver * 7 + i as u64) % 26) as u8, "row {id} version {ver}: mixed body");
    }
    Ok((id, ver))
}

pub fn threads(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let frames = rng.urange(18, 40);
    let p = Pool::new(frames, 2);
    let _rt = p.rt.enter();
    let schema = Schema::new(vec![
        Column::new("id", TypeId::BigInt),
        Column::new("ver", TypeId::BigInt),
        Column::new("body", TypeId::VarChar),
        Column::new("sum", TypeId::BigInt),
    ]);
    let heap = Arc::new(TableHeap::new(p.bpm.clone(), 1));
    let txn_heap = Arc::new(TransactionalTableHeap::new(heap.clone(), 1));
    let writers = rng.urange(2, 4);
    let rounds = rng.urange(40, 120);
    let pad = *rng.pick(&[10usize, 120, 600]);
    let done = AtomicBool::new(false);
    let acked = AtomicU64::new(0);
    let fail: parking_lot::Mutex<Option<String>> = parking_lot::Mutex::new(None);
    let all: parking_lot::Mutex<BTreeMap<u64, (RID, u64, bool)>> = Default::default();
    let scans = AtomicU64::new(0);
    let h = p.rt.handle().clone();
    std::thread::scope(|s| {
        for w in 0..writers {
            let mut r = rng.fork();
            let (heap, schema, all, fail, acked, h) = (&heap, &schema, &all, &fail, &acked, h.clone());
            s.spawn(move || {
                let _e = h.enter();
                let mut mine: Vec<(u64, RID, u64, bool)> = Vec::new();
                let res = (|| -> Res {
                    for i in 0..rounds {
                        match r.below(10) {
                            0..=4 => {
                                let id = (w as u64) << 32 | i as u64;
                                let tup = checked(id, 0, r.below(pad + 1), schema);
                                let m = Arc::new(TupleMeta::new(w as u64 + 1));
                                let got = match r.below(2) {
                                    0 => heap.insert_tuple_internal(m, &tup),
                                    _ => heap.insert_tuple_from_values(tup.get_values(), schema, m),
                                };
                                match got {
                                    Ok(rid) => {
                                        mine.push((id, rid, 0, false));
                                        all.lock().insert(id, (rid, 0, false));
                                        acked.fetch_add(1, Ordering::SeqCst);
                                    },
                                    Err(e) if e.contains("create new page") || e.contains("fetch") => {},
                                    Err(e) => return Err(format!("insert refused: {e}")),
                                }
                            },
                            5..=7 if !mine.is_empty() => {
                                let k = r.below(mine.len());
                                let (id, rid, ver, dead) = mine[k];
                                if dead {
                                    continue;
                                }
                                let mut tup = checked(id, ver + 1, r.below(pad + 1), schema);
                                tup.set_rid(rid);
                                let m = Arc::new(TupleMeta::new(w as u64 + 1));
                                let ok = if r.chance(1, 2) {
                                    heap.update_tuple(m, &tup, rid, None)
                                } else {
                                    heap.update_tuple_internal(m, &tup, rid)
                                };
                                if ok.is_ok() {
                                    mine[k].2 = ver + 1;
                                }
                            },
                            8 if !mine.is_empty() => {
                                let k = r.below(mine.len());
                                let (_, rid, _, dead) = mine[k];
                                if !dead && heap.update_tuple_meta(Arc::new(TupleMeta::new_with_delete(w as u64 + 1, true)), rid).is_ok() {
                                    mine[k].3 = true;
                                }
                            },
                            _ if !mine.is_empty() => {
                                let (id, rid, ver, dead) = mine[r.below(mine.len())];
                                match heap.get_tuple_internal(rid, true) {
                                    Ok((m, t)) => {
                                        let (gid, gv) = verify(&t)?;
                                        check!((gid, gv) == (id, ver), "own row {id} at {rid:?} version {ver} reads as row {gid} version {gv}");
                                        check!(m.is_deleted() == dead, "own row {id} deleted: {} instead of {dead}", m.is_deleted());
                                    },
                                    Err(e) if e.contains("fetch") => {},
                                    Err(e) => return Err(format!("own row {id} at {rid:?} unreadable: {e}")),
                                }
                            },
                            _ => {},
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = res {
                    fail.lock().get_or_insert(e);
                }
                let mut a = all.lock();
                for (id, rid, ver, dead) in mine {
                    a.insert(id, (rid, ver, dead));
                }
            });
        }
        for _ in 0..2 {
            let (txn_heap, all, fail, done, scans, h) = (&txn_heap, &all, &fail, &done, &scans, h.clone());
            s.spawn(move || {
                let _e = h.enter();
                while !done.load(Ordering::SeqCst) {
                    let res = (|| -> Res {
                        let inv = RID::new(INVALID_PAGE_ID, 0);
                        let mut it = TableIterator::new(txn_heap.clone(), inv, inv, None);
                        let mut ids: HashMap<u64, RID> = HashMap::new();
                        let mut last = (0, 0);
                        while let Some((_, t)) = it.next() {
                            let (id, _) = verify(&t)?;
                            let rid = it.get_last_rid().unwrap();
                            check!(t.get_rid() == rid, "row {id} carries {:?}, scanned at {rid:?}", t.get_rid());
                            check!(ids.insert(id, rid).is_none(), "one scan returned row {id} twice");
                            let at = (rid.get_page_id(), rid.get_slot_num());
                            check!(ids.len() == 1 || at > last, "scan goes back from {last:?} to {at:?}");
                            last = at;
                        }
                        let a = all.lock();
                        for (id, rid) in &ids {
                            if let Some((r, ..)) = a.get(id) {
                                check!(r == rid, "row {id} was stored at {r:?}, scanned at {rid:?}");
                            }
                        }
                        scans.fetch_add(1, Ordering::Relaxed);
                        Ok(())
                    })();
                    if let Err(e) = res {
                        fail.lock().get_or_insert(e);
                        return;
                    }
                }
            });
        }
        // The writers end by themselves; the scanners when told to.
        let done = &done;
        s.spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(30));
            done.store(true, Ordering::SeqCst);
        });
    });
    if let Some(e) = fail.into_inner() {
        return Err(e);
    }
    let all = all.into_inner();
    check!(all.len() as u64 == acked.load(Ordering::SeqCst), "bookkeeping");
    let rids: HashSet<RID> = all.values().map(|x| x.0).collect();
    check!(rids.len() == all.len(), "one RID was given to two rows");
    check!(heap.get_num_tuples() == all.len(), "{} rows acknowledged, {} stored", all.len(), heap.get_num_tuples());
    for (id, (rid, ver, dead)) in &all {
        let (m, t) = heap.get_tuple_internal(*rid, true)?;
        let got = verify(&t)?;
        check!(got == (*id, *ver), "row {id} version {ver} reads as {got:?}");
        check!(m.is_deleted() == *dead, "row {id} deleted {} instead of {dead}", m.is_deleted());
    }
    let inv = RID::new(INVALID_PAGE_ID, 0);
    let seen = TableIterator::new(txn_heap, inv, inv, None).count();
    let live = all.values().filter(|x| !x.2).count();
    check!(seen == live, "the final scan returns {seen} of {live} rows");
    ctx.count("concurrent_rows", all.len() as u64);
    ctx.count("concurrent_scans", scans.load(Ordering::Relaxed));
    ctx.seen(&("threads", seed));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (pool size, rows and pages per table) reached by a random history of one to three heaps on one pool, or one concurrent run; every history ends with a full comparison of rows, scans and page chain");
    ctx.assume("transactional visibility is P04's; here the raw heap is used, with the creator/committed rule of update_tuple checked");
    ctx.explore("heap", 6, 7.0, 40, 1_000_000, model);
    ctx.explore("heap_threads", 2, 4.0, 10, 1_000_000, threads);
}

//! P17: crash recovery. Transactions write real log records and real pages; a crash keeps a
//! prefix of the log (torn at any byte) and, of every page, some image no newer than that
//! prefix; what recovery makes of it is compared with the effects of the committed transactions.
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::{DB_PAGE_SIZE, INVALID_LSN, INVALID_PAGE_ID};
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{Page, PageTrait};
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::table_iterator::TableIterator;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use parking_lot::RwLock;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;
use crate::util;

type Image = [u8; DB_PAGE_SIZE as usize];

/// What happens to one row.
#[derive(Clone, Debug)]
enum What {
    Begin,
    Commit,
    Abort,
    Insert(RID, Vec<String>),
    Update(RID, Vec<String>),
    Delete(RID),
    Undelete(RID),
    NewPage(u64),
    Other,
}
struct Logged {
    inc: usize,
    what: What,
    bytes: Vec<u8>,
}
/// An opened database: log, pool, disk.
struct Open {
    rt: Arc<tokio::runtime::Runtime>,
    dir: util::Scratch,
    lm: Arc<RwLock<LogManager>>,
    bpm: Arc<BufferPoolManager>,
    disk: Arc<AsyncDiskManager>,
}
impl Open {
    fn new(db: &[u8], log: &[u8]) -> Result<Open, String> {
        let rt = util::runtime_n(2);
        let dir = util::Scratch::new("recov");
        std::fs::write(dir.file("t.db"), db).map_err(|e| e.to_string())?;
        std::fs::write(dir.file("t.log"), log).map_err(|e| e.to_string())?;
        let disk = rt
            .block_on(AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default()))
            .map_err(|e| format!("open: {e}"))?;
        let disk = Arc::new(disk);
        let _g = rt.enter();
        let lm = Arc::new(RwLock::new(LogManager::new(disk.clone())));
        lm.write().run_flush_thread();
        let bpm = BufferPoolManager::new(64, disk.clone(), Arc::new(RwLock::new(LRUKReplacer::new(64, 2))))
            .map_err(|e| format!("pool: {e:?}"))?;
        drop(_g);
        Ok(Open { rt, dir, lm, bpm: Arc::new(bpm), disk })
    }
    fn recover(&self) -> Res {
        let r = LogRecoveryManager::new(self.disk.clone(), self.lm.clone(), self.bpm.clone());
        self.rt.block_on(r.start_recovery()).map_err(|e| format!("recovery fails: {e}"))
    }
    fn log_file(&self) -> Vec<u8> {
        std::fs::read(self.dir.file("t.log")).unwrap_or_default()
    }
    fn image(&self, id: u64) -> Result<Box<Image>, String> {
        let _g = self.rt.enter();
        let g = self.bpm.fetch_page::<TablePage>(id).ok_or(format!("page {id} cannot be fetched"))?;
        let g = g.read();
        Ok(Box::new(*g.get_data()))
    }
    fn close(&self) {
        let _g = self.rt.enter();
        self.lm.write().shut_down();
        drop(_g);
    }
}

/// One incarnation of a transaction (identifiers may come back after a restart).
struct Txn {
    id: u64,
    inc: usize,
    prev: u64,
    undo: Vec<(u64, RID, Option<Tuple>, TupleMeta)>,
}
#[derive(Clone)]
struct RowState {
    vals: Vec<String>,
    live: bool,
}

static INC: AtomicU64 = AtomicU64::new(1);

struct World {
    schema: Schema,
    types: Vec<TypeId>,
    npages: u64,
    /// Pages in the file; those after it were never written out.
    disk_pages: u64,
    /// The pages as they are in memory.
    pages: BTreeMap<u64, TablePage>,
    /// Images every page had, with the number of records logged before it.
    images: BTreeMap<u64, Vec<(usize, Box<Image>)>>,
    /// Of the current generation.
    logged: Vec<Logged>,
    /// The number of records that must survive (a commit was acknowledged).
    acked: usize,
    /// State of the rows at the start of the generation: what recovery had to produce.
    base: BTreeMap<RID, RowState>,
    trace: Vec<String>,
}

impl World {
    fn snapshot(&mut self, id: u64) {
        let n = self.logged.len();
        let im = Box::new(*self.pages[&id].get_data());
        self.images.get_mut(&id).unwrap().push((n, im));
    }
    fn log(&mut self, o: &Open, t: &mut Txn, rec: LogRecord, what: What) -> Res {
        let rec = Arc::new(rec);
        let _g = o.rt.enter();
        let lsn = o.lm.write().append_log_record(rec.clone());
        check!(rec.get_lsn() == lsn, "the record carries LSN {} after append answered {lsn}", rec.get_lsn());
        t.prev = lsn;
        let bytes = rec.to_bytes().map_err(|e| e.to_string())?;
        self.trace.push(format!("T{}#{} lsn {lsn} {}", t.id, t.inc, short(&what)));
        let commit = matches!(what, What::Commit);
        self.logged.push(Logged { inc: t.inc, what, bytes });
        if commit {
            self.acked = self.logged.len();
        }
        Ok(())
    }
    fn locked(&self, txns: &[Txn], me: usize, rid: RID) -> bool {
        txns.iter().enumerate().any(|(i, t)| i != me && t.undo.iter().any(|u| u.1 == rid))
    }
    fn live_rows(&self, txns: &[Txn], me: usize) -> Vec<RID> {
        let mut v = Vec::new();
        for (id, p) in &self.pages {
            for s in 0..p.get_num_tuples() as u32 {
                let r = RID::new(*id, s);
                if p.get_tuple(&r, false).is_ok() && !self.locked(txns, me, r) {
                    v.push(r);
                }
            }
        }
        v
    }
    fn rollback(&mut self, t: &mut Txn) {
        while let Some((pg, rid, old, meta)) = t.undo.pop() {
            let p = self.pages.get_mut(&pg).unwrap();
            match old {
                Some(tup) => p.update_tuple(meta, &tup, rid).expect("rollback"),
                None => p.update_tuple_meta(meta, &rid).expect("rollback"),
            }
            self.snapshot(pg);
        }
    }
    fn used(&self, id: u64) -> usize {
        let p = &self.pages[&id];
        (0..p.get_num_tuples() as u32)
            .map(|s| p.get_tuple(&RID::new(id, s), true).ok().and_then(|(_, t)| t.get_length().ok()).unwrap_or(0) + 40)
            .sum()
    }
    /// One generation of work on an open database.
    fn work(&mut self, o: &Open, rng: &mut Rng, steps: usize, ctx: &Ctx) -> Res {
        let mut txns: Vec<Txn> = Vec::new();
        for _ in 0..steps {
            if txns.is_empty() || (txns.len() < 5 && rng.chance(1, 6)) {
                let id = loop {
                    let id = 1 + rng.below(12) as u64;
                    if !txns.iter().any(|t| t.id == id) {
                        break id;
                    }
                };
                let mut t = Txn { id, inc: INC.fetch_add(1, Ordering::Relaxed) as usize, prev: INVALID_LSN, undo: vec![] };
                self.log(o, &mut t, LogRecord::new_transaction_record(id, INVALID_LSN, LogRecordType::Begin), What::Begin)?;
                txns.push(t);
            }
            let me = rng.below(txns.len());
            let k = rng.below(20);
            match k {
                0..=5 => {
                    let pg = rng.below(self.npages as usize) as u64;
                    if self.used(pg) > 1300 {
                        continue;
                    }
                    let vals = gens::values(rng, &self.types, 30);
                    let rid = self.pages[&pg].get_next_rid();
                    let tup = Tuple::new(&vals, &self.schema, rid);
                    let id = txns[me].id;
                    let meta = TupleMeta::new(id);
                    let got = self.pages.get_mut(&pg).unwrap().insert_tuple_with_rid(&meta, &tup, rid);
                    check!(got == Some(rid), "the page refuses a row");
                    let prev = txns[me].prev;
                    self.log(
                        o,
                        &mut txns[me],
                        LogRecord::new_insert_delete_record(id, prev, LogRecordType::Insert, rid, Arc::new(tup)),
                        What::Insert(rid, gens::keys(&vals)),
                    )?;
                    self.snapshot(pg);
                    txns[me].undo.push((pg, rid, None, TupleMeta::new_with_delete(id, true)));
                },
                6..=11 => {
                    let rows = self.live_rows(&txns, me);
                    if rows.is_empty() {
                        continue;
                    }
                    let rid = *rng.pick(&rows);
                    let pg = rid.get_page_id();
                    if self.used(pg) > 1500 {
                        continue;
                    }
                    let (om, old) = self.pages[&pg].get_tuple(&rid, false)?;
                    let vals = gens::values(rng, &self.types, 30);
                    let new = Tuple::new(&vals, &self.schema, rid);
                    let id = txns[me].id;
                    if self.pages.get_mut(&pg).unwrap().update_tuple(TupleMeta::new(id), &new, rid).is_err() {
                        continue;
                    }
                    let prev = txns[me].prev;
                    self.log(
                        o,
                        &mut txns[me],
                        LogRecord::new_update_record(id, prev, LogRecordType::Update, rid, Arc::new(old.clone()), Arc::new(new)),
                        What::Update(rid, gens::keys(&vals)),
                    )?;
                    self.snapshot(pg);
                    txns[me].undo.push((pg, rid, Some(old), om));
                },
                12..=13 => {
                    let rows = self.live_rows(&txns, me);
                    if rows.is_empty() {
                        continue;
                    }
                    let rid = *rng.pick(&rows);
                    let pg = rid.get_page_id();
                    let (om, old) = self.pages[&pg].get_tuple(&rid, false)?;
                    let id = txns[me].id;
                    let mut m = om;
                    m.set_deleted(true);
                    m.set_creator_txn_id(id);
                    self.pages.get_mut(&pg).unwrap().update_tuple_meta(m, &rid)?;
                    let prev = txns[me].prev;
                    let old = Arc::new(old);
                    self.log(
                        o,
                        &mut txns[me],
                        LogRecord::new_insert_delete_record(id, prev, LogRecordType::MarkDelete, rid, old.clone()),
                        What::Delete(rid),
                    )?;
                    self.snapshot(pg);
                    txns[me].undo.push((pg, rid, None, om));
                    if rng.chance(1, 3) {
                        // The transaction takes its own delete back, or makes it final.
                        let back = rng.chance(1, 2);
                        if back {
                            self.pages.get_mut(&pg).unwrap().update_tuple_meta(om, &rid)?;
                        }
                        let prev = txns[me].prev;
                        let ty = if back { LogRecordType::RollbackDelete } else { LogRecordType::ApplyDelete };
                        self.log(
                            o,
                            &mut txns[me],
                            LogRecord::new_insert_delete_record(id, prev, ty, rid, old),
                            if back { What::Undelete(rid) } else { What::Other },
                        )?;
                        self.snapshot(pg);
                    }
                },
                14..=16 => {
                    let mut t = txns.remove(me);
                    let rec = LogRecord::new_transaction_record(t.id, t.prev, LogRecordType::Commit);
                    self.log(o, &mut t, rec, What::Commit)?;
                    for (pg, rid, ..) in &t.undo {
                        let p = self.pages.get_mut(pg).unwrap();
                        let (mut m, _) = p.get_tuple(rid, true)?;
                        m.set_commit_timestamp(1 + rng.next() % 3);
                        p.update_tuple_meta(m, rid)?;
                    }
                    let mut pgs: Vec<u64> = t.undo.iter().map(|u| u.0).collect();
                    pgs.dedup();
                    for pg in pgs {
                        self.snapshot(pg);
                    }
                    ctx.count("committed_transactions", 1);
                },
                17..=18 => {
                    let mut t = txns.remove(me);
                    self.rollback(&mut t);
                    let rec = LogRecord::new_transaction_record(t.id, t.prev, LogRecordType::Abort);
                    self.log(o, &mut t, rec, What::Abort)?;
                    ctx.count("aborted_transactions", 1);
                },
                _ => {
                    let (id, prev) = (txns[me].id, txns[me].prev);
                    let again = self.npages >= 7 || rng.chance(1, 3);
                    let pg = if again { rng.below(self.npages as usize) as u64 } else { self.npages };
                    let before = if pg == 0 { INVALID_PAGE_ID } else { pg - 1 };
                    self.log(
                        o,
                        &mut txns[me],
                        LogRecord::new_page_record(id, prev, LogRecordType::NewPage, before, pg),
                        What::NewPage(pg),
                    )?;
                    if !again {
                        let mut p = TablePage::new(pg);
                        p.init();
                        p.set_prev_page_id(before);
                        self.images.insert(pg, vec![]);
                        self.pages.insert(pg, p);
                        self.snapshot(pg);
                        self.pages.get_mut(&before).unwrap().set_next_page_id(pg);
                        self.snapshot(before);
                        self.npages += 1;
                        ctx.count("new_pages", 1);
                    }
                },
            }
        }
        ctx.count("unfinished_transactions", txns.len() as u64);
        Ok(())
    }

    /// The state after the first `n` records of the generation.
    fn expect(&self, n: usize) -> BTreeMap<RID, RowState> {
        let mut rows = self.base.clone();
        let won: Vec<usize> = self.logged[..n].iter().filter(|l| matches!(l.what, What::Commit)).map(|l| l.inc).collect();
        for l in &self.logged[..n] {
            let won = won.contains(&l.inc);
            match &l.what {
                What::Insert(r, v) => {
                    rows.insert(*r, RowState { vals: v.clone(), live: won });
                },
                What::Update(r, v) if won => rows.get_mut(r).unwrap().vals = v.clone(),
                What::Delete(r) if won => rows.get_mut(r).unwrap().live = false,
                What::Undelete(r) if won => rows.get_mut(r).unwrap().live = true,
                _ => {},
            }
        }
        rows
    }
}

fn short(w: &What) -> String {
    let s = format!("{w:?}");
    s.chars().take(110).collect()
}

/// Rows of the recovered database against what has to be there.
fn compare(o: &Open, w: &World, want: &BTreeMap<RID, RowState>, what: &str) -> Res {
    let _g = o.rt.enter();
    let heap = Arc::new(TableHeap::reopen(o.bpm.clone(), 1, 0, w.npages - 1));
    for (r, s) in want {
        match heap.get_tuple_internal(*r, true) {
            Err(e) => check!(!s.live, "{what}: committed row {r:?} is gone: {e}"),
            Ok((m, t)) => {
                if s.live {
                    check!(!m.is_deleted(), "{what}: committed row {r:?} is deleted");
                    let g = gens::keys(&t.get_values());
                    check!(g == s.vals, "{what}: {r:?} holds {g:?} instead of {:?}", s.vals);
                    check!(t.get_rid() == *r, "{what}: {r:?} carries {:?}", t.get_rid());
                } else {
                    check!(m.is_deleted(), "{what}: {r:?}, deleted or never committed, is back: {:?}", gens::keys(&t.get_values()));
                }
            },
        }
    }
    let th = Arc::new(TransactionalTableHeap::new(heap, 1));
    let inv = RID::new(INVALID_PAGE_ID, 0);
    let mut got: BTreeMap<RID, Vec<String>> = BTreeMap::new();
    let mut it = TableIterator::new(th.clone(), inv, inv, None);
    while let Some((_, t)) = it.next() {
        let rid = it.get_last_rid().unwrap();
        got.insert(rid, gens::keys(&t.get_values()));
    }
    let live: BTreeMap<RID, Vec<String>> = want.iter().filter(|x| x.1.live).map(|(r, s)| (*r, s.vals.clone())).collect();
    for r in got.keys() {
        check!(live.contains_key(r), "{what}: a scan finds {r:?}, which is no committed row: {:?}", got[r]);
    }
    check!(got == live, "{what}: a scan finds {} of {} committed rows", got.len(), live.len());
    // A new transaction sees them.
    let tm = Arc::new(TransactionManager::new());
    tm.register_table(th.clone());
    for _ in 0..20 {
        // Identifiers start anew, so some are those of the transactions in the log.
        let t = tm.begin(IsolationLevel::ReadCommitted).map_err(|e| format!("{e:?}"))?;
        let c = Arc::new(TransactionContext::new(t.clone(), Arc::new(LockManager::new()), tm.clone()));
        let n = TableIterator::new(th.clone(), inv, inv, Some(c)).count();
        check!(n == live.len(), "{what}: transaction {} sees {n} of {} committed rows", t.get_transaction_id(), live.len());
        tm.abort(t);
    }
    Ok(())
}

fn offsets(log: &[u8], from: usize, logged: &[Logged]) -> Result<Vec<usize>, String> {
    let mut at = from;
    let mut ends = Vec::new();
    for (i, l) in logged.iter().enumerate() {
        let pos = (at..log.len().saturating_sub(l.bytes.len() - 1)).find(|p| log[*p..*p + l.bytes.len()] == l.bytes[..]);
        match pos {
            Some(p) => at = p + l.bytes.len(),
            None => return Err(format!("record {i} ({}) is not in the log file, after byte {at} of {}", short(&l.what), log.len())),
        }
        ends.push(at);
    }
    Ok(ends)
}

fn crash(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let (schema, types) = {
        let n = 1 + rng.below(4);
        let types: Vec<TypeId> = (0..n).map(|_| *rng.pick(&gens::SCALARS)).collect();
        let cols = types.iter().enumerate().map(|(i, t)| Column::new(&format!("c{i}"), *t)).collect();
        (Schema::new(cols), types)
    };
    let npages = rng.urange(1, 4) as u64;
    let mut pages = BTreeMap::new();
    let mut images = BTreeMap::new();
    for id in 0..npages {
        let mut p = TablePage::new(id);
        p.init();
        if id > 0 {
            p.set_prev_page_id(id - 1);
        }
        if id + 1 < npages {
            p.set_next_page_id(id + 1);
        }
        images.insert(id, vec![(0, Box::new(*p.get_data()))]);
        pages.insert(id, p);
    }
    let mut w = World { schema, types, npages, disk_pages: npages, pages, images, logged: vec![], acked: 0, base: BTreeMap::new(), trace: vec![] };
    let r = generations(ctx, rng, &mut w);
    ctx.sample("crash history", || json!({"seed": seed, "history": w.trace.iter().take(25).collect::<Vec<_>>()}));
    r.map_err(|e| {
        let k = w.trace.len().saturating_sub(80);
        format!("{e}\n{}", w.trace[k..].join("\n"))
    })
}

fn generations(ctx: &Ctx, rng: &mut Rng, w: &mut World) -> Res {
    let mut db: Vec<u8> = Vec::new();
    for id in 0..w.npages {
        db.extend_from_slice(&w.images[&id][0].1[..]);
    }
    let mut log: Vec<u8> = Vec::new();
    // Where the last whole record of `log` ends.
    let mut valid = 0;
    let gens = rng.urange(1, 4);
    for g in 0..=gens {
        let o = Open::new(&db, &log)?;
        if g > 0 {
            o.recover()?;
            compare(&o, w, &w.base, &format!("after crash {g}"))?;
            ctx.count("recoveries", 1);
            ctx.seen(&("crash", g, w.base.len(), w.trace.len(), log.len()));
            if rng.chance(1, 5) {
                o.recover()?;
                compare(&o, w, &w.base, &format!("after crash {g}, recovered twice"))?;
                ctx.count("repeated_recoveries", 1);
            }
            for id in 0..w.npages {
                let im = o.image(id)?;
                w.pages.insert(id, TablePage::deserialize(&im).map_err(|e| format!("page {id}: {e}"))?);
                // On disk is still what the crash left, or what recovery made of it.
                let at = id as usize * DB_PAGE_SIZE as usize;
                if id >= w.disk_pages {
                    w.images.insert(id, vec![(0, im)]);
                    continue;
                }
                let mut old: Image = [0; DB_PAGE_SIZE as usize];
                old.copy_from_slice(&db[at..at + DB_PAGE_SIZE as usize]);
                w.images.insert(id, vec![(0, Box::new(old)), (0, im)]);
            }
        }
        if g == gens {
            o.close();
            break;
        }
        w.logged.clear();
        w.acked = 0;
        let from = valid;
        // A crash during or right after recovery leaves no new work.
        let steps = if g > 0 && rng.chance(1, 5) { 0 } else { rng.urange(5, 60) };
        w.trace.push(format!("--- generation {g}"));
        w.work(&o, rng, steps, ctx)?;
        // Every acknowledged commit is in the file now, before anything is shut down.
        let now = o.log_file();
        if w.acked > 0 {
            offsets(&now, from, &w.logged[..w.acked]).map_err(|e| format!("a commit was acknowledged, but {e}"))?;
        }
        o.close();
        let file = o.log_file();
        let ends = offsets(&file, from, &w.logged)?;
        let keep = if rng.chance(1, 3) { w.logged.len() } else { rng.urange(w.acked, w.logged.len()) };
        let mut cut = if keep == 0 {
            if rng.chance(1, 2) { from } else { ends.first().map_or(file.len(), |e| e - w.logged[0].bytes.len()) }
        } else {
            ends[keep - 1]
        };
        valid = cut;
        if keep < w.logged.len() && rng.chance(1, 2) {
            // Torn record.
            let start = ends[keep] - w.logged[keep].bytes.len();
            cut = start + rng.below(w.logged[keep].bytes.len());
            ctx.count("torn_log_tails", 1);
        }
        log = file[..cut.max(from)].to_vec();
        db.clear();
        let mut mix = Vec::new();
        // Pages whose creation the log does not know are gone, and some others never got to disk.
        for l in &w.logged[keep..] {
            if let What::NewPage(p) = l.what
                && !w.logged[..keep].iter().any(|k| matches!(k.what, What::NewPage(x) if x == p))
                && w.images[&p].first().is_some_and(|v| v.0 > keep)
            {
                w.npages = w.npages.min(p);
            }
        }
        w.pages.retain(|id, _| *id < w.npages);
        w.images.retain(|id, _| *id < w.npages);
        w.disk_pages = rng.urange(w.disk_pages as usize, w.npages as usize) as u64;
        for id in 0..w.disk_pages {
            let fit: Vec<&(usize, Box<Image>)> = w.images[&id].iter().filter(|v| v.0 <= keep).collect();
            let pick = match rng.below(4) {
                0 => 0,
                1 => fit.len() - 1,
                _ => rng.below(fit.len()),
            };
            mix.push(fit[pick].0);
            db.extend_from_slice(&fit[pick].1[..]);
        }
        w.base = w.expect(keep);
        w.trace.push(format!("--- crash: {keep} of {} records survive, log cut at byte {cut} of {}, pages as of records {mix:?}", w.logged.len(), file.len()));
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (crash number, rows, history length, log length) that recovery was run on; a history is up to 60 operations of interleaved transactions per generation, up to 4 crashes in a row, the log cut at any byte after the last acknowledged commit, every page at any image not newer than the surviving log");
    ctx.assume("write-ahead rule kept by the workload: no page image newer than the surviving log; pages reach the file in the order of their ids and are at most half full, so that replaying older versions of rows never runs out of page space");
    ctx.assume("transactions do not touch rows another unfinished transaction changed (two-phase locking), and an abort restores the rows before its record is logged");
    ctx.explore("crash", 8, 12.0, 40, 1_000_000, crash);
}

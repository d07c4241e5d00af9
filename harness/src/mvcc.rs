//! P03 (watermark, garbage collection) and P04 (isolation and atomicity): transactions on the
//! real transactional table heap, compared with a multi-version reference.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::concurrency::watermark::Watermark;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

pub struct Env {
    pub rt: Arc<tokio::runtime::Runtime>,
    _dir: crate::util::Scratch,
    pub bpm: Arc<BufferPoolManager>,
    pub tm: Arc<TransactionManager>,
    pub lm: Arc<LockManager>,
    pub heap: Arc<TransactionalTableHeap>,
    pub schema: Schema,
}
const ISO: [IsolationLevel; 5] = [
    IsolationLevel::ReadUncommitted,
    IsolationLevel::ReadCommitted,
    IsolationLevel::RepeatableRead,
    IsolationLevel::Serializable,
    IsolationLevel::Snapshot,
];

impl Env {
    pub fn new(pool: usize) -> Env {
        let rt = crate::util::runtime_n(2);
        let dir = crate::util::Scratch::new("mvcc");
        let bpm = rt.block_on(async {
            let disk = AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default())
                .await
                .expect("disk manager");
            Arc::new(
                BufferPoolManager::new(pool, Arc::new(disk), Arc::new(RwLock::new(LRUKReplacer::new(pool, 2)))).expect("pool"),
            )
        });
        let _g = rt.enter();
        let heap = Arc::new(TransactionalTableHeap::new(Arc::new(TableHeap::new(bpm.clone(), 1)), 1));
        let tm = Arc::new(TransactionManager::new());
        tm.register_table(heap.clone());
        drop(_g);
        let schema = Schema::new(vec![
            Column::new("id", TypeId::Integer),
            Column::new("v", TypeId::BigInt),
            Column::new("pad", TypeId::VarChar),
        ]);
        Env { rt, _dir: dir, bpm, tm, lm: Arc::new(LockManager::new()), heap, schema }
    }
    fn ctx(&self, t: &Arc<Transaction>) -> Arc<TransactionContext> {
        Arc::new(TransactionContext::new(t.clone(), self.lm.clone(), self.tm.clone()))
    }
    fn tuple(&self, id: i32, v: i64, pad: usize) -> Tuple {
        Tuple::new(&[Value::new(id), Value::new(v), Value::new("p".repeat(pad))], &self.schema, RID::new(0, 0))
    }
    fn commit(&self, t: &Arc<Transaction>) -> bool {
        self.rt.block_on(self.tm.commit(t.clone(), self.bpm.clone()))
    }
    fn read(&self, t: &Arc<Transaction>, r: RID) -> Option<(i32, i64, usize)> {
        self.heap.get_tuple(r, self.ctx(t)).ok().map(|(_, t)| decode(&t))
    }
    /// the same read, asked of the table heap underneath
    fn read_below(&self, t: &Arc<Transaction>, r: RID) -> Option<(i32, i64, usize)> {
        self.heap.get_table_heap().get_tuple_with_txn(r, self.ctx(t)).ok().map(|(_, t)| decode(&t))
    }
    fn update(&self, t: &Arc<Transaction>, r: RID, id: i32, v: i64, pad: usize) -> Result<(), String> {
        let got = self.heap.update_tuple(&TupleMeta::new(t.get_transaction_id()), &self.tuple(id, v, pad), r, self.ctx(t))?;
        if got != r {
            return Err(format!("MOVED to {got:?}"));
        }
        Ok(())
    }
    fn insert(&self, t: &Arc<Transaction>, id: i32, v: i64, pad: usize) -> Result<RID, String> {
        self.heap.insert_tuple(Arc::new(TupleMeta::new(t.get_transaction_id())), &self.tuple(id, v, pad), self.ctx(t))
    }
}
pub fn decode(t: &Tuple) -> (i32, i64, usize) {
    let i = match t.get_value(0).get_val() {
        Val::Integer(i) => *i,
        o => panic!("id came back as {o:?}"),
    };
    let v = match t.get_value(1).get_val() {
        Val::BigInt(i) => *i,
        o => panic!("v came back as {o:?}"),
    };
    let p = match t.get_value(2).get_val() {
        Val::VarLen(s) | Val::ConstLen(s) => s.len(),
        o => panic!("pad came back as {o:?}"),
    };
    (i, v, p)
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug)]
struct Ver {
    by: u64,
    seq: Option<u64>,
    row: Option<(i32, i64, usize)>,
}
#[derive(Clone)]
struct MTxn {
    t: Arc<Transaction>,
    iso: IsolationLevel,
    snap: u64,
    writes: HashSet<RID>,
    /// marked as aborted by a refused lock, not yet rolled back
    doomed: bool,
}
#[derive(Default)]
struct Model {
    rows: BTreeMap<(u64, u32), Vec<Ver>>,
    seq: u64,
    txns: Vec<MTxn>,
}
fn key(r: RID) -> (u64, u32) {
    (r.get_page_id(), r.get_slot_num())
}
fn snapshotting(i: IsolationLevel) -> bool {
    !matches!(i, IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted)
}
impl Model {
    fn visible(&self, m: &MTxn, k: (u64, u32)) -> Option<(i32, i64, usize)> {
        let vs = self.rows.get(&k)?;
        let id = m.t.get_transaction_id();
        let top = vs.last()?;
        if top.by == id || m.iso == IsolationLevel::ReadUncommitted {
            return top.row;
        }
        let lim = if snapshotting(m.iso) { m.snap } else { u64::MAX };
        vs.iter().rev().find(|v| v.seq.is_some_and(|s| s <= lim)).and_then(|v| v.row)
    }
    /// Err(why) if the write must be refused.
    fn writable(&self, m: &MTxn, k: (u64, u32)) -> Result<(), String> {
        let top = self.rows[&k].last().ok_or("no version")?;
        let own = top.by == m.t.get_transaction_id();
        if top.row.is_none() {
            return Err("deleted".into());
        }
        if !own && top.seq.is_none() {
            return Err("another transaction's uncommitted version".into());
        }
        if !own && snapshotting(m.iso) && top.seq.unwrap() > m.snap {
            return Err("committed after the snapshot".into());
        }
        Ok(())
    }
}

fn history(ctx: &Ctx, rng: &mut Rng, gc_heavy: bool) -> Res {
    let env = Env::new(64);
    let _g = env.rt.enter();
    let mut m = Model::default();
    let mut log: Vec<String> = Vec::new();
    let mut rids: Vec<RID> = Vec::new();
    let mut nid = 0i32;
    let mut nval = 0i64;
    let steps = rng.range(40, 160);
    let levels: Vec<IsolationLevel> = if rng.chance(1, 3) { vec![*rng.pick(&ISO)] } else { ISO.to_vec() };
    let r = (|| -> Res {
        for _ in 0..steps {
            let n = m.txns.len();
            let act = rng.below(100);
            if n == 0 || (n < 6 && act < 10) {
                let iso = *rng.pick(&levels);
                let t = env.tm.begin(iso)?;
                log.push(format!("begin T{} {iso} read_ts={}", t.get_transaction_id(), t.read_ts()));
                m.txns.push(MTxn { t, iso, snap: m.seq, writes: HashSet::new(), doomed: false });
                continue;
            }
            let ti = rng.below(n);
            let me = m.txns[ti].clone();
            let id = me.t.get_transaction_id();
            if act < 20 {
                // end
                let commit = !me.doomed && rng.chance(2, 3);
                m.txns.remove(ti);
                if commit {
                    log.push(format!("commit T{id}"));
                    check!(env.commit(&me.t), "T{id} was refused its commit");
                    check!(me.t.get_state() == TransactionState::Committed, "T{id} committed but is {:?}", me.t.get_state());
                    m.seq += 1;
                    for r in &me.writes {
                        let vs = m.rows.get_mut(&key(*r)).unwrap();
                        // only the last version survives the commit
                        let last = vs.pop().unwrap();
                        vs.retain(|v| v.by != id || v.seq.is_some());
                        vs.push(Ver { seq: Some(m.seq), ..last });
                    }
                    ctx.count("commits", 1);
                } else {
                    log.push(format!("abort T{id}"));
                    env.tm.abort(me.t.clone());
                    check!(me.t.get_state() == TransactionState::Aborted, "T{id} aborted but is {:?}", me.t.get_state());
                    for r in &me.writes {
                        m.rows.get_mut(&key(*r)).unwrap().retain(|v| v.by != id || v.seq.is_some());
                    }
                    ctx.count("aborts", 1);
                    if !me.writes.is_empty() {
                        ctx.count("aborts_with_writes", 1);
                    }
                }
                if rng.chance(1, 6) {
                    // ending twice changes nothing
                    log.push(format!("abort T{id} again"));
                    env.tm.abort(me.t.clone());
                }
            } else if act < if gc_heavy { 34 } else { 23 } {
                log.push("gc".into());
                env.tm.garbage_collection();
                ctx.count("gc_runs", 1);
            } else if act < 36 || rids.is_empty() {
                if me.doomed {
                    continue;
                }
                nid += 1;
                nval += 1;
                let pad = rng.below(40);
                let rid = env.insert(&me.t, nid, nval, pad).map_err(|e| format!("T{id} insert refused: {e}"))?;
                log.push(format!("T{id} insert {:?} -> {:?}", (nid, nval, pad), key(rid)));
                check!(!m.rows.contains_key(&key(rid)), "insert reused {:?}", key(rid));
                m.rows.insert(key(rid), vec![Ver { by: id, seq: None, row: Some((nid, nval, pad)) }]);
                m.txns[ti].writes.insert(rid);
                rids.push(rid);
            } else if act < 62 {
                if me.doomed {
                    continue;
                }
                // write; prefer few rows so transactions meet
                let rid = rids[rids.len() - 1 - rng.below(rids.len().min(5))];
                let want = m.writable(&me, key(rid));
                let cur = m.rows[&key(rid)].last().and_then(|v| v.row);
                if rng.chance(1, 4) {
                    let got = env.heap.delete_tuple(rid, env.ctx(&me.t));
                    log.push(format!("T{id} delete {:?} -> {got:?}", key(rid)));
                    check!(got.is_ok() == want.is_ok(), "T{id} delete {:?}: got {got:?}, expected {want:?}", key(rid));
                    if want.is_ok() {
                        m.rows.get_mut(&key(rid)).unwrap().push(Ver { by: id, seq: None, row: None });
                        m.txns[ti].writes.insert(rid);
                        ctx.count("deletes", 1);
                    }
                } else {
                    nval += 1;
                    let (rowid, _, pad0) = cur.unwrap_or((0, 0, 0));
                    let pad = match rng.below(8) {
                        0 => pad0 / 2,
                        1 => pad0 + rng.below(20),
                        2 => 3990 + rng.below(300),
                        _ => pad0,
                    };
                    if pad > 3400 {
                        ctx.count("oversized_updates", 1);
                    }
                    let got = env.update(&me.t, rid, rowid, nval, pad);
                    log.push(format!("T{id} update {:?} := {:?} -> {got:?}", key(rid), (rowid, nval, pad)));
                    match (&got, &want) {
                        (Ok(()), Ok(())) => {
                            check!(pad < 3400, "an update larger than a page was accepted");
                            m.rows.get_mut(&key(rid)).unwrap().push(Ver { by: id, seq: None, row: Some((rowid, nval, pad)) });
                            m.txns[ti].writes.insert(rid);
                            ctx.count("updates", 1);
                        },
                        (Err(e), Ok(())) => {
                            check!(pad > pad0 && !e.starts_with("MOVED"), "T{id} update {:?}: refused ({e}), expected it to succeed", key(rid));
                        },
                        (Ok(()), Err(w)) => return Err(format!("T{id} update {:?} accepted, expected refusal: {w}", key(rid))),
                        (Err(_), Err(_)) => ctx.count("write_conflicts", 1),
                    }
                }
            } else if act < 64 && !me.doomed {
                // a refused lock marks the transaction as aborted; its writes are still to be undone
                log.push(format!("T{id} marked aborted"));
                me.t.set_state(TransactionState::Aborted);
                m.txns[ti].doomed = true;
                ctx.count("doomed", 1);
            } else if act < 85 {
                if me.doomed {
                    continue;
                }
                let rid = *rng.pick(&rids);
                let got = env.read(&me.t, rid);
                let want = m.visible(&me, key(rid));
                log.push(format!("T{id} read {:?} -> {got:?}", key(rid)));
                check!(got == want, "T{id} ({}) read {:?}: got {got:?}, expected {want:?}; versions {:?}", me.iso, key(rid), m.rows[&key(rid)]);
                let got = env.read_below(&me.t, rid);
                check!(got == want, "T{id} ({}) reads {:?} from the table heap as {got:?}, expected {want:?}; versions {:?}", me.iso, key(rid), m.rows[&key(rid)]);
                ctx.count("reads", 2);
                ctx.seen(&(format!("{:?}", m.rows[&key(rid)].iter().map(|v| (v.by == id, v.seq.map(|s| s <= me.snap), v.row.is_some())).collect::<Vec<_>>()), format!("{}", me.iso), m.txns.len()));
            } else {
                if me.doomed {
                    continue;
                }
                let mut it = env.heap.make_iterator(Some(env.ctx(&me.t)));
                let mut got = Vec::new();
                let mut at = Vec::new();
                while let Some((_, t)) = it.next() {
                    got.push(decode(&t));
                    at.push(it.get_last_rid().map(key));
                    check!(got.len() < 5000, "scan does not end");
                }
                let want: Vec<_> = m.rows.keys().filter_map(|k| m.visible(&me, *k)).collect();
                log.push(format!("T{id} scan"));
                let mut g = got.clone();
                g.sort();
                let mut w = want.clone();
                w.sort();
                check!(g == w, "T{id} ({}) scan: got {g:?}, expected {w:?}", me.iso);
                for (row, at) in got.iter().zip(&at) {
                    let there = at.and_then(|k| m.rows.contains_key(&k).then(|| m.visible(&me, k)).flatten());
                    check!(there == Some(*row), "T{id} ({}) scan: {row:?} is said to be at {at:?}, where {there:?} is", me.iso);
                }
                ctx.count("scans", 1);
            }
            // watermark
            let act: Vec<u64> = m.txns.iter().map(|x| x.t.read_ts()).collect();
            if let Some(min) = act.iter().min() {
                check!(env.tm.get_watermark() == *min, "watermark {} but the oldest active snapshot is {min}", env.tm.get_watermark());
            }
            ctx.eval(1);
            if gc_heavy && rng.chance(1, 8) {
                // every active reader still finds everything it may see
                for x in m.txns.iter().filter(|x| !x.doomed) {
                    for k in m.rows.keys() {
                        let got = env.read(&x.t, RID::new(k.0, k.1));
                        let want = m.visible(x, *k);
                        check!(got == want, "T{} ({}) reads {k:?} as {got:?}, expected {want:?}; versions {:?}", x.t.get_transaction_id(), x.iso, m.rows[k]);
                        let got = env.read_below(&x.t, RID::new(k.0, k.1));
                        check!(got == want, "T{} ({}) reads {k:?} from the table heap as {got:?}, expected {want:?}; versions {:?}", x.t.get_transaction_id(), x.iso, m.rows[k]);
                        ctx.count("reads", 1);
                    }
                }
            }
        }
        // everything ends; a fresh reader sees exactly the committed state
        for x in m.txns.drain(..) {
            let id = x.t.get_transaction_id();
            log.push(format!("final abort T{id}"));
            env.tm.abort(x.t.clone());
            for r in &x.writes {
                m.rows.get_mut(&key(*r)).unwrap().retain(|v| v.by != id || v.seq.is_some());
            }
        }
        for gc in [false, true] {
            if gc {
                env.tm.garbage_collection();
                for r in &rids {
                    check!(env.tm.get_undo_link(*r).is_none(), "nobody is active and garbage was collected, but {:?} still has an undo link", key(*r));
                }
                let left: Vec<_> = env.tm.get_transactions().iter().map(|t| (t.get_transaction_id(), t.get_state())).collect();
                check!(left.is_empty(), "nobody is active and garbage was collected, but the manager still keeps {left:?}");
                ctx.count("full_reclaims", 1);
            }
            for iso in ISO {
                let t = env.tm.begin(iso)?;
                let x = MTxn { t: t.clone(), iso, snap: m.seq, writes: HashSet::new(), doomed: false };
                for k in m.rows.keys() {
                    let got = env.read(&t, RID::new(k.0, k.1));
                    let want = m.visible(&x, *k);
                    check!(got == want, "after everything ended (gc={gc}) {iso} reads {k:?} as {got:?}, expected {want:?}; versions {:?}", m.rows[k]);
                    let got = env.read_below(&t, RID::new(k.0, k.1));
                    check!(got == want, "after everything ended (gc={gc}) {iso} reads {k:?} from the table heap as {got:?}, expected {want:?}; versions {:?}", m.rows[k]);
                }
                if rng.chance(1, 2) {
                    env.commit(&t);
                } else {
                    env.tm.abort(t);
                }
            }
        }
        Ok(())
    })();
    ctx.sample("history", || json!(log.iter().take(25).collect::<Vec<_>>()));
    r.map_err(|e| format!("{e}\n{}", log.join("\n")))
}

// ---------------------------------------------------------------- threads

/// Money moves between rows at one isolation level while auditors look; aborts are frequent.
pub fn bank(ctx: &Ctx, rng: &mut Rng) -> Res {
    let env = Env::new(64);
    let _g = env.rt.enter();
    let rows = rng.range(2, 8) as usize;
    let iso = *rng.pick(&ISO[2..]);
    let t = env.tm.begin(iso)?;
    let rids: Vec<RID> = (0..rows).map(|i| env.insert(&t, i as i32, 1000, 5).unwrap()).collect();
    env.commit(&t);
    let total = 1000 * rows as i64;
    let stop = AtomicBool::new(false);
    let commits = AtomicU64::new(0);
    let audits = AtomicU64::new(0);
    let conflicts = AtomicU64::new(0);
    let bad: parking_lot::Mutex<Option<String>> = parking_lot::Mutex::new(None);
    let fail = |s: String| {
        bad.lock().get_or_insert(s);
        stop.store(true, Ordering::Relaxed);
    };
    let net: Vec<AtomicU64> = (0..rows).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|s| {
        let (env, rids, stop, commits, audits, conflicts, fail, net) = (&env, &rids, &stop, &commits, &audits, &conflicts, &fail, &net);
        let mut ws = Vec::new();
        for _ in 0..3 {
            let mut g = Rng::new(rng.next());
            ws.push(s.spawn(move || {
                let _g = env.rt.enter();
                for _ in 0..60 {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let t = env.tm.begin(iso).unwrap();
                    let (a, b) = (g.below(rows), g.below(rows));
                    if a == b {
                        env.tm.abort(t);
                        continue;
                    }
                    let amt = g.range(1, 9);
                    let (Some(x), Some(y)) = (env.read(&t, rids[a]), env.read(&t, rids[b])) else {
                        fail(format!("{iso}: a row that was never deleted is not visible to T{} (read_ts {})", t.get_transaction_id(), t.read_ts()));
                        return;
                    };
                    if g.chance(1, 4) {
                        std::thread::yield_now();
                    }
                    let ok = env.update(&t, rids[a], x.0, x.1 - amt, x.2).is_ok() && {
                        if g.chance(1, 3) {
                            std::thread::yield_now();
                        }
                        env.update(&t, rids[b], y.0, y.1 + amt, y.2).is_ok()
                    };
                    if !ok {
                        conflicts.fetch_add(1, Ordering::Relaxed);
                    }
                    if ok && g.chance(3, 4) {
                        if env.commit(&t) {
                            commits.fetch_add(1, Ordering::Relaxed);
                            net[a].fetch_sub(amt as u64, Ordering::Relaxed);
                            net[b].fetch_add(amt as u64, Ordering::Relaxed);
                        } else {
                            fail("commit of a running transaction refused".into());
                        }
                    } else {
                        env.tm.abort(t);
                    }
                    if g.chance(1, 20) {
                        env.tm.garbage_collection();
                    }
                }
            }));
        }
        for _ in 0..2 {
            let scan = rng.chance(1, 2);
            s.spawn(move || {
                let _g = env.rt.enter();
                while !stop.load(Ordering::Relaxed) {
                    let t = env.tm.begin(iso).unwrap();
                    let look = || -> Option<Vec<i64>> {
                        if scan {
                            let mut v: Vec<_> = env.heap.make_iterator(Some(env.ctx(&t))).map(|(_, t)| decode(&t)).collect();
                            v.sort();
                            (v.len() == rows).then(|| v.iter().map(|x| x.1).collect())
                        } else {
                            rids.iter().map(|r| env.read(&t, *r).map(|x| x.1)).collect()
                        }
                    };
                    let (a, b) = (look(), look());
                    match (&a, &b) {
                        (Some(x), Some(y)) => {
                            if x.iter().sum::<i64>() != total {
                                fail(format!("{iso}: T{} (read_ts {}) sees {x:?}, which does not add up to {total}: part of another transaction", t.get_transaction_id(), t.read_ts()));
                            } else if x != y {
                                fail(format!("{iso}: T{} (read_ts {}) read {x:?} and then {y:?}", t.get_transaction_id(), t.read_ts()));
                            }
                        },
                        _ => fail(format!("{iso}: T{} (read_ts {}) lost rows: {a:?} {b:?}", t.get_transaction_id(), t.read_ts())),
                    }
                    audits.fetch_add(1, Ordering::Relaxed);
                    env.tm.abort(t);
                }
            });
        }
        for w in ws {
            let _ = w.join();
        }
        stop.store(true, Ordering::Relaxed);
    });
    if let Some(b) = bad.into_inner() {
        return Err(b);
    }
    let t = env.tm.begin(iso)?;
    for i in 0..rows {
        let got = env.read(&t, rids[i]).map(|x| x.1);
        let want = 1000 + net[i].load(Ordering::Relaxed) as i64;
        check!(got == Some(want), "{iso}: row {i} ends as {got:?}, but the committed changes leave {want} (lost or resurrected update)");
    }
    ctx.eval(commits.load(Ordering::Relaxed) + audits.load(Ordering::Relaxed));
    ctx.count("bank_commits", commits.load(Ordering::Relaxed));
    ctx.count("bank_audits", audits.load(Ordering::Relaxed));
    ctx.count("bank_conflicts", conflicts.load(Ordering::Relaxed));
    ctx.seen(&(iso.to_string(), rows, commits.load(Ordering::Relaxed), conflicts.load(Ordering::Relaxed)));
    Ok(())
}

/// READ COMMITTED and READ UNCOMMITTED readers beside writers that often abort: a committed reader
/// never sees a value of a transaction that did not commit, and no row ever disappears.
fn dirty(ctx: &Ctx, rng: &mut Rng) -> Res {
    let env = Env::new(64);
    let _g = env.rt.enter();
    let t = env.tm.begin(IsolationLevel::ReadCommitted)?;
    let rids: Vec<RID> = (0..3).map(|i| env.insert(&t, i, 0, 5).unwrap()).collect();
    env.commit(&t);
    let aborted: Vec<AtomicBool> = (0..4000).map(|_| AtomicBool::new(false)).collect();
    let stop = AtomicBool::new(false);
    let reads = AtomicU64::new(0);
    let bad: parking_lot::Mutex<Option<String>> = parking_lot::Mutex::new(None);
    let vals = AtomicU64::new(1);
    std::thread::scope(|s| {
        let (env, rids, stop, aborted, bad, vals, reads) = (&env, &rids, &stop, &aborted, &bad, &vals, &reads);
        let mut ws = Vec::new();
        for _ in 0..2 {
            let mut g = Rng::new(rng.next());
            ws.push(s.spawn(move || {
                let _g = env.rt.enter();
                for _ in 0..120 {
                    let t = env.tm.begin(IsolationLevel::ReadCommitted).unwrap();
                    let v = vals.fetch_add(1, Ordering::SeqCst) as usize;
                    let commit = g.chance(1, 2);
                    // decided before anything is written, so a reader can tell
                    aborted[v].store(!commit, Ordering::SeqCst);
                    let r = *g.pick(rids);
                    let ok = env.update(&t, r, 0, v as i64, 5).is_ok();
                    if ok && g.chance(1, 3) {
                        let _ = env.update(&t, r, 0, v as i64, 5);
                    }
                    if ok && commit {
                        env.commit(&t);
                    } else {
                        env.tm.abort(t);
                    }
                }
            }));
        }
        for _ in 0..2 {
            let mut g = Rng::new(rng.next());
            s.spawn(move || {
                let _g = env.rt.enter();
                while !stop.load(Ordering::Relaxed) {
                    let t = env.tm.begin(IsolationLevel::ReadCommitted).unwrap();
                    for _ in 0..g.range(1, 6) {
                        let r = *g.pick(rids);
                        match env.read(&t, r) {
                            None => {
                                bad.lock().get_or_insert(format!("READ COMMITTED: row {r:?} was never deleted but is not there"));
                            },
                            Some((_, v, _)) if aborted[v as usize].load(Ordering::SeqCst) => {
                                bad.lock().get_or_insert(format!("READ COMMITTED: read {v}, written by a transaction that never commits"));
                            },
                            _ => {},
                        }
                        reads.fetch_add(1, Ordering::Relaxed);
                    }
                    env.tm.abort(t);
                }
            });
        }
        for w in ws {
            let _ = w.join();
        }
        stop.store(true, Ordering::Relaxed);
    });
    ctx.count("dirty_read_checks", reads.load(Ordering::Relaxed));
    ctx.eval(reads.load(Ordering::Relaxed));
    match bad.into_inner() {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

/// Transactions on several threads update or delete the same rows at the same moment: each row
/// goes to exactly one of them, whose end alone decides what the row becomes.
fn race(ctx: &Ctx, rng: &mut Rng) -> Res {
    let env = Env::new(64);
    let _g = env.rt.enter();
    let iso = *rng.pick(&ISO);
    for round in 0..rng.range(6, 14) {
        let n = rng.urange(1, 4);
        let k = rng.urange(2, 4);
        let t = env.tm.begin(iso)?;
        let rids: Vec<RID> = (0..n).map(|i| env.insert(&t, i as i32, -1, 5).unwrap()).collect();
        check!(env.commit(&t), "commit of the rows refused");
        let start = std::sync::Barrier::new(k);
        // per thread: (row, deleted, worked), and whether it commits
        let done: Vec<(Vec<(usize, bool, bool)>, bool)> = std::thread::scope(|s| {
            let (env, rids, start) = (&env, &rids, &start);
            let hs: Vec<_> = (0..k)
                .map(|me| {
                    let mut g = Rng::new(rng.next());
                    s.spawn(move || {
                        let _g = env.rt.enter();
                        let t = env.tm.begin(iso).unwrap();
                        let mut order: Vec<usize> = (0..rids.len()).collect();
                        if g.chance(1, 3) {
                            g.shuffle(&mut order);
                        }
                        let del = g.below(3);
                        let commit = g.chance(1, 2);
                        start.wait();
                        let mut out = Vec::new();
                        for r in order {
                            let delete = del == 0 || del == 1 && g.chance(1, 2);
                            let r_ = if delete {
                                env.heap.delete_tuple(rids[r], env.ctx(&t))
                            } else {
                                env.update(&t, rids[r], r as i32, me as i64, 5)
                            };
                            out.push((r, delete, r_.is_ok()));
                        }
                        start.wait();
                        if commit {
                            assert!(env.commit(&t), "commit refused");
                        } else {
                            env.tm.abort(t);
                        }
                        (out, commit)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("a racing transaction panicked")).collect()
        });
        let t = env.tm.begin(IsolationLevel::Snapshot)?;
        for (r, rid) in rids.iter().enumerate() {
            let who: Vec<(usize, bool)> =
                done.iter().enumerate().flat_map(|(i, (v, _))| v.iter().filter(|x| x.0 == r && x.2).map(move |x| (i, x.1))).collect();
            check!(who.len() == 1, "{iso}, round {round}: row {r} was changed by {} of {k} transactions running at once: {who:?}", who.len());
            let (w, deleted) = who[0];
            let want = match (done[w].1, deleted) {
                (false, _) => Some((r as i32, -1, 5)),
                (true, true) => None,
                (true, false) => Some((r as i32, w as i64, 5)),
            };
            let got = env.read(&t, *rid);
            check!(
                got == want,
                "{iso}, round {round}: row {r} was {} by transaction {w}, which {}; it now reads {got:?}",
                if deleted { "deleted" } else { "updated" },
                if done[w].1 { "committed" } else { "aborted" }
            );
            ctx.eval(1);
            ctx.count("raced_rows", 1);
            ctx.seen(&(iso as u8, k, w, deleted, done[w].1));
        }
        env.tm.abort(t);
    }
    Ok(())
}

// ---------------------------------------------------------------- watermark alone

fn watermark(ctx: &Ctx, rng: &mut Rng) -> Res {
    let mut w = Watermark::new();
    let mut next = 1u64;
    let mut active: Vec<u64> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut log = Vec::new();
    let mut last = w.get_watermark();
    for _ in 0..rng.range(5, 60) {
        let mut fresh = true;
        match rng.below(8) {
            0 | 1 => {
                let t = w.get_next_ts_and_register();
                log.push(format!("register -> {t}"));
                check!(seen.insert(t), "timestamp {t} was handed out twice: {log:?}");
                next = t + 1;
                active.push(t);
            },
            2 => {
                let t = w.get_next_ts();
                log.push(format!("next -> {t}"));
                check!(seen.insert(t), "timestamp {t} was handed out twice: {log:?}");
                check!(t >= next, "timestamps go backwards: {t} after {}: {log:?}", next - 1);
                next = t + 1;
                fresh = false;
            },
            3 => {
                let ts = next + rng.below(4) as u64;
                let ts = if rng.chance(1, 2) { ts.saturating_sub(5) } else { ts };
                log.push(format!("commit {ts}"));
                let g = if rng.chance(1, 2) {
                    w.update_commit_ts(ts);
                    w.get_watermark()
                } else {
                    w.update_commit_ts_and_get_watermark(ts)
                };
                next = next.max(ts + 1);
                check!(g == w.get_watermark(), "update_commit_ts_and_get_watermark returned {g}, get_watermark {}", w.get_watermark());
            },
            4 => {
                // an older snapshot registered from outside
                let ts = next + 1 + rng.below(5) as u64;
                log.push(format!("add {ts}"));
                w.add_txn(ts);
                if !active.contains(&ts) {
                    active.push(ts);
                }
                w.update_commit_ts(ts);
                next = next.max(ts + 1);
                seen.insert(ts);
            },
            5 => {
                let c = w.clone_watermark();
                check!(c.get_watermark() == w.get_watermark(), "clone reports {}, original {}", c.get_watermark(), w.get_watermark());
                w = c;
                fresh = false;
            },
            _ => {
                if active.is_empty() {
                    continue;
                }
                let t = active.swap_remove(rng.below(active.len()));
                log.push(format!("end {t}"));
                if rng.chance(1, 2) {
                    w.remove_txn(t);
                } else {
                    let g = w.unregister_txn(t);
                    check!(g == w.get_watermark(), "unregister_txn returned {g}");
                }
            },
        }
        let got = w.get_watermark();
        if let Some(m) = active.iter().min() {
            check!(got == *m, "watermark {got}, oldest active {m}: {log:?}");
        } else if fresh {
            check!(got == next, "nobody active: watermark {got}, expected the next timestamp {next}: {log:?}");
        }
        check!(got >= last, "watermark moved back from {last} to {got}: {log:?}");
        last = got;
        ctx.eval(1);
        ctx.seen(&(active.clone(), got));
    }
    Ok(())
}

/// Timestamps and the watermark while several threads begin and end transactions.
fn stamps(ctx: &Ctx, rng: &mut Rng) -> Res {
    let env = Env::new(16);
    let all = parking_lot::Mutex::new(HashMap::<u64, String>::new());
    let bad: parking_lot::Mutex<Option<String>> = parking_lot::Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..4 {
            let mut g = Rng::new(rng.next());
            let (env, all, bad) = (&env, &all, &bad);
            s.spawn(move || {
                let put = |ts: u64, what: String| {
                    if let Some(o) = all.lock().insert(ts, what.clone()) {
                        bad.lock().get_or_insert(format!("timestamp {ts} given to {o} and to {what}"));
                    }
                };
                let mut mine: Vec<Arc<Transaction>> = Vec::new();
                for _ in 0..80 {
                    if mine.len() < 3 && g.chance(1, 2) {
                        let t = env.tm.begin(*g.pick(&ISO)).unwrap();
                        put(t.read_ts(), format!("T{} (begin)", t.get_transaction_id()));
                        mine.push(t);
                    } else if !mine.is_empty() {
                        let t = mine.swap_remove(g.below(mine.len()));
                        if g.chance(1, 2) {
                            env.commit(&t);
                            put(t.commit_ts(), format!("T{} (commit)", t.get_transaction_id()));
                            if t.commit_ts() <= t.read_ts() {
                                bad.lock().get_or_insert(format!("T{} committed at {} but began at {}", t.get_transaction_id(), t.commit_ts(), t.read_ts()));
                            }
                        } else {
                            env.tm.abort(t);
                        }
                    }
                    let w = env.tm.get_watermark();
                    for t in &mine {
                        if w > t.read_ts() {
                            bad.lock().get_or_insert(format!("watermark {w} is past active T{}'s snapshot {}", t.get_transaction_id(), t.read_ts()));
                        }
                        if env.tm.get_transaction(&t.get_transaction_id()).is_none() {
                            bad.lock().get_or_insert(format!("active T{} is no longer known", t.get_transaction_id()));
                        }
                    }
                }
                for t in mine {
                    env.tm.abort(t);
                }
            });
        }
    });
    ctx.count("stamped", all.lock().len() as u64);
    if let Some(b) = bad.into_inner() {
        return Err(b);
    }
    env.tm.garbage_collection();
    check!(env.tm.get_transactions().is_empty(), "every transaction ended, {} are still kept", env.tm.get_transactions().len());
    Ok(())
}

/// Transactions of SQL statements that touch more pages than the pool has frames, and rows that
/// outgrow their pages, beside readers with older snapshots.
fn wide(ctx: &Ctx, rng: &mut Rng) -> Res {
    use crate::sqlkit::Db;
    let frames = 6 + rng.below(8);
    let db = Db::new(frames, IsolationLevel::ReadCommitted);
    let read = |tx: &Arc<TransactionContext>| -> Result<Vec<(i128, String)>, String> {
        let (_, r) = db.exec_in("SELECT a, s FROM t", tx)?;
        let mut v: Vec<(i128, String)> = r.rows.iter().map(|r| (crate::values::int_of(&r[0]).unwrap_or(-1), if let Val::VarLen(s) = r[1].get_val() { s.clone() } else { "NULL".into() })).collect();
        v.sort();
        Ok(v)
    };
    let mut log = format!("{frames} frames");
    db.exec("CREATE TABLE t (a INTEGER, s VARCHAR(3000))").map_err(|e| format!("create: {e}"))?;
    let mut rows: Vec<(i128, String)> = vec![];
    let mut next = 0i128;
    let mut readers: Vec<(Arc<TransactionContext>, Vec<(i128, String)>)> = vec![];
    for _ in 0..2 + rng.below(5) {
        let tx = db.begin(*rng.pick(&ISO[1..]));
        let mut now = rows.clone();
        log += "; begin";
        for _ in 0..1 + rng.below(4) {
            let len = *rng.pick(&[0, 5, 40, 300, 900, 1500]);
            let at = rng.range(0, next as i64 + 1) as i128;
            let text = |rng: &mut Rng| (b'a' + rng.below(26) as u8) as char;
            let sql = match rng.below(5) {
                0..=1 => {
                    let k = 1 + rng.below(if len >= 300 { 20 } else { 60 });
                    let s = text(rng).to_string().repeat(len);
                    let new: Vec<(i128, String)> = (0..k as i128).map(|i| (next + i, s.clone())).collect();
                    next += k as i128;
                    log += &format!("; insert {k} of {len}");
                    let sql = format!("INSERT INTO t VALUES {}", new.iter().map(|(a, s)| format!("({a}, '{s}')")).collect::<Vec<_>>().join(", "));
                    now.extend(new);
                    sql
                },
                2 | 3 => {
                    let to = at + rng.below(60) as i128;
                    let s = text(rng).to_string().repeat(len);
                    log += &format!("; update {at}..={to} to {len}");
                    for r in now.iter_mut().filter(|r| r.0 >= at && r.0 <= to) {
                        r.1 = s.clone();
                    }
                    format!("UPDATE t SET s = '{s}' WHERE a >= {at} AND a <= {to}")
                },
                _ => {
                    log += &format!("; delete from {at}");
                    let to = at + rng.below(20) as i128;
                    now.retain(|r| r.0 < at || r.0 > to);
                    format!("DELETE FROM t WHERE a >= {at} AND a <= {to}")
                },
            };
            db.exec_in(&sql, &tx).map_err(|e| format!("{e} ({})", &sql[..sql.len().min(60)]))
                .map_err(|e| format!("refused: {e} after {log}"))?;
            let got = read(&tx)?;
            now.sort();
            check!(got == now, "the writer reads {} rows, {} of them as it left them, of {} after {log}", got.len(), got.iter().filter(|r| now.contains(r)).count(), now.len());
            ctx.eval(1);
        }
        if rng.chance(2, 3) {
            log += "; commit";
            check!(db.commit(tx), "the commit failed: {log}");
            rows = now;
        } else {
            log += "; abort";
            db.abort(tx);
        }
        let reader = db.begin(*rng.pick(&ISO[2..]));
        let got = read(&reader)?;
        check!(got == rows, "a new transaction reads {} rows, {} as committed, of {} after {log}", got.len(), got.iter().filter(|r| rows.contains(r)).count(), rows.len());
        for (r, saw) in &readers {
            let got = read(r)?;
            check!(got == *saw, "a snapshot of {} rows has {} rows, {} as before, after {log}", saw.len(), got.len(), got.iter().filter(|r| saw.contains(r)).count());
            ctx.eval(1);
        }
        if rng.chance(1, 2) { readers.push((reader, rows.clone())) } else { check!(db.commit(reader), "a reader's commit failed: {log}") }
        ctx.count("wide_transactions", 1);
        ctx.seen(&("wide", rows.len().min(60), rows.iter().map(|r| r.1.len()).sum::<usize>() / 4096, frames));
    }
    for (r, _) in readers {
        check!(db.commit(r), "a reader's commit failed: {log}");
    }
    Ok(())
}

pub fn run_gc(ctx: &Arc<Ctx>) {
    ctx.rule("watermark call sequences, interleaved transaction histories with garbage collection at random points (every active transaction re-reads every row), and threads beginning and ending transactions; non-trivial = distinct (version chain shape as the reader sees it, isolation level) and watermark states");
    ctx.explore("watermark", 2, 3.0, 500, u64::MAX, |c, r, _| watermark(c, r));
    ctx.explore("gc_history", 6, 10.0, 40, u64::MAX, |c, r, _| history(c, r, true));
    ctx.explore("stamps", 2, 3.0, 5, u64::MAX, |c, r, _| stamps(c, r));
}
pub fn run_iso(ctx: &Arc<Ctx>) {
    ctx.rule("random interleavings of up to six transactions at all five isolation levels on one table, each read, scan and write outcome compared with a multi-version reference; threads moving money with auditors; dirty-read hunters; non-trivial = distinct (version chain shape as the reader sees it, isolation level, open transactions)");
    ctx.explore("history", 6, 10.0, 60, u64::MAX, |c, r, _| history(c, r, false));
    ctx.explore("bank", 3, 8.0, 10, u64::MAX, |c, r, _| bank(c, r));
    ctx.explore("race", 2, 4.0, 20, u64::MAX, |c, r, _| race(c, r));
    ctx.explore("dirty", 3, 4.0, 5, u64::MAX, |c, r, _| dirty(c, r));
    ctx.explore("wide", 6, 6.0, 10, u64::MAX, |c, r, _| wide(c, r));
}

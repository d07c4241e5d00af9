//! P01 (lock manager against a reference lock table) and P02 (deadlock detection).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::{Duration, Instant};

use ferrite::common::exception::LockError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{DeadlockDetector, LockManager, LockMode};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use parking_lot::Mutex;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

type T = u64;
const MODES: [LockMode; 5] = [
    LockMode::IntentionShared,
    LockMode::IntentionExclusive,
    LockMode::Shared,
    LockMode::SharedIntentionExclusive,
    LockMode::Exclusive,
];
fn mi(m: LockMode) -> usize {
    MODES.iter().position(|x| *x == m).unwrap()
}
/// The compatibility matrix of the multi-granularity protocol.
fn compat(a: LockMode, b: LockMode) -> bool {
    const C: [[bool; 5]; 5] = [
        [true, true, true, true, false],
        [true, true, false, false, false],
        [true, false, true, false, false],
        [true, false, false, false, false],
        [false, false, false, false, false],
    ];
    C[mi(a)][mi(b)]
}
fn covers(held: LockMode, req: LockMode) -> bool {
    use LockMode::*;
    match held {
        Exclusive => true,
        SharedIntentionExclusive => req != Exclusive,
        Shared => matches!(req, Shared | IntentionShared),
        IntentionExclusive => matches!(req, IntentionExclusive | IntentionShared),
        IntentionShared => req == IntentionShared,
    }
}
fn upgradable(held: LockMode, req: LockMode) -> bool {
    use LockMode::*;
    match held {
        IntentionShared => true,
        Shared | IntentionExclusive => matches!(req, Exclusive | SharedIntentionExclusive),
        SharedIntentionExclusive => req == Exclusive,
        Exclusive => false,
    }
}

#[derive(Default, Clone, Debug)]
struct Res_ {
    held: BTreeMap<T, Vec<LockMode>>,
    wait: Vec<(T, LockMode)>,
    upgrading: Option<T>,
}
impl Res_ {
    fn compatible(&self, t: T, m: LockMode) -> bool {
        if self.upgrading.is_some_and(|u| u != t) {
            return false;
        }
        self.held.iter().all(|(h, ms)| {
            if *h == t {
                ms.iter().all(|x| upgradable(*x, m) || *x == m)
            } else {
                ms.iter().all(|x| compat(*x, m))
            }
        })
    }
    fn grant(&mut self, t: T, m: LockMode) {
        let v = self.held.entry(t).or_default();
        v.retain(|x| {
            matches!(
                (*x, m),
                (LockMode::IntentionShared, LockMode::Shared) | (LockMode::IntentionExclusive, LockMode::Exclusive)
            )
        });
        v.push(m);
        if self.upgrading == Some(t) {
            self.upgrading = None;
        }
    }
    fn request(&mut self, t: T, m: LockMode) -> bool {
        if self.wait.contains(&(t, m)) {
            return false;
        }
        let mut up = false;
        if let Some(h) = self.held.get(&t) {
            if h.iter().any(|x| covers(*x, m)) {
                return true;
            }
            if h.iter().any(|x| !upgradable(*x, m)) {
                return false;
            }
            up = true;
        }
        if self.compatible(t, m) {
            self.grant(t, m);
            return true;
        }
        if up {
            if self.upgrading.is_some_and(|u| u != t) {
                return false;
            }
            self.upgrading = Some(t);
        }
        self.wait.push((t, m));
        false
    }
    fn drop_txn(&mut self, t: T) -> usize {
        self.held.remove(&t);
        self.wait.retain(|w| w.0 != t);
        if self.upgrading == Some(t) {
            self.upgrading = None;
        }
        let mut n = 0;
        loop {
            let Some(i) = self.wait.iter().position(|(w, m)| self.compatible(*w, *m)) else { break };
            let (w, m) = self.wait.remove(i);
            self.grant(w, m);
            n += 1;
        }
        n
    }
    fn holds(&self, t: T) -> bool {
        self.held.contains_key(&t)
    }
}

/// Table locks as the lock manager reports them: oid -> [(txn, mode, granted)].
fn observed(lm: &LockManager, oids: &BTreeSet<u64>) -> BTreeMap<u64, Vec<(T, String, bool)>> {
    let mut out: BTreeMap<u64, Vec<(T, String, bool)>> = BTreeMap::new();
    let mut cur = None;
    for l in lm.debug_state().lines() {
        if let Some(r) = l.strip_prefix("Table ") {
            let o: u64 = r.trim_end_matches(':').parse().unwrap_or(u64::MAX);
            cur = oids.contains(&o).then_some(o);
        } else if let (Some(o), Some(r)) = (cur, l.trim().strip_prefix("Txn:")) {
            let p: Vec<&str> = r.split_whitespace().collect();
            out.entry(o).or_default().push((
                p[0].parse().unwrap_or(0),
                p[1].trim_start_matches("Mode:").to_string(),
                p[2] == "Granted:true",
            ));
        }
    }
    out
}

fn shrinks(iso: IsolationLevel, m: LockMode) -> bool {
    match iso {
        IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
            matches!(m, LockMode::Shared | LockMode::Exclusive)
        },
        _ => m == LockMode::Exclusive,
    }
}

/// What isolation level and phase say about a request: Some(error name) when it must be refused.
fn refused(iso: IsolationLevel, st: TransactionState, m: LockMode) -> Option<&'static str> {
    use TransactionState::*;
    match st {
        Aborted => return Some("TransactionAborted"),
        Committed => return Some("TransactionCommitted"),
        _ => {},
    }
    match iso {
        IsolationLevel::ReadUncommitted => {
            if matches!(m, LockMode::Shared | LockMode::IntentionShared | LockMode::SharedIntentionExclusive) {
                return Some("LockSharedOnReadUncommitted");
            }
            (st == Shrinking).then_some("LockOnShrinking")
        },
        IsolationLevel::ReadCommitted => {
            (st == Shrinking && !matches!(m, LockMode::Shared | LockMode::IntentionShared)).then_some("LockOnShrinking")
        },
        _ => (st == Shrinking).then_some("LockOnShrinking"),
    }
}

fn ename(e: &LockError) -> String {
    format!("{e:?}")
}

const ISO: [IsolationLevel; 4] = [
    IsolationLevel::ReadUncommitted,
    IsolationLevel::ReadCommitted,
    IsolationLevel::RepeatableRead,
    IsolationLevel::Serializable,
];

struct Sys {
    lm: LockManager,
    txns: Vec<Arc<Transaction>>,
    st: Vec<TransactionState>,
    tables: BTreeMap<u64, Res_>,
    rows: BTreeMap<(u64, u32), Res_>,
    row_of: BTreeMap<RID, u64>,
    /// who was ever told to wait for whom
    waited: BTreeMap<T, BTreeSet<T>>,
}

fn model_case(ctx: &Ctx, rng: &mut Rng) -> Res {
    let lm = LockManager::new();
    let nt = rng.range(2, 5) as u64;
    // oids deliberately overlap with page ids of rows of other tables
    let oids: Vec<u64> = (0..rng.range(1, 3)).map(|i| i as u64 + 1).collect();
    let oidset: BTreeSet<u64> = oids.iter().copied().collect();
    let mut s = Sys {
        lm,
        txns: (0..nt).map(|i| Arc::new(Transaction::new(i + 1, *rng.pick(&ISO)))).collect(),
        st: Vec::new(),
        tables: BTreeMap::new(),
        rows: BTreeMap::new(),
        row_of: BTreeMap::new(),
        waited: BTreeMap::new(),
    };
    s.st = s.txns.iter().map(|t| t.get_state()).collect();
    let rids: Vec<(u64, RID)> = (0..4).map(|i| (oids[i % oids.len()], RID::new(rng.range(1, 3) as u64 * 10 + i as u64, i as u32))).collect();
    for (o, r) in &rids {
        s.row_of.insert(*r, *o);
    }
    let mut trace: Vec<String> = Vec::new();
    let mut next_id = nt + 1;
    let n = rng.range(15, 70);
    for _ in 0..n {
        let i = rng.below(s.txns.len());
        let t = s.txns[i].clone();
        let id = t.get_transaction_id();
        let iso = t.get_isolation_level();
        let st = s.st[i];
        if t.get_state() == TransactionState::Aborted && st != TransactionState::Aborted && highest_of_a_cycle(&s.waited, id) {
            // the background detector chose it as the victim of a cycle
            s.st[i] = TransactionState::Aborted;
            ctx.count("deadlock_victims", 1);
            continue;
        }
        check!(t.get_state() == st, "txn {id} is {:?}, expected {st:?}; trace {trace:?}", t.get_state());
        match rng.below(20) {
            0..=7 => {
                let o = *rng.pick(&oids);
                let m = *rng.pick(&MODES);
                // a transaction waits for one thing at a time
                if s.tables.values().any(|r| r.wait.iter().any(|w| w.0 == id && !(s.tables.get(&o).is_some_and(|x| x.wait.contains(&(id, m)))))) || s.rows.values().any(|r| r.wait.iter().any(|w| w.0 == id)) {
                    continue;
                }
                let want = match refused(iso, st, m) {
                    Some(e) => Err(e),
                    None => Ok(s.tables.entry(o).or_default().request(id, m)),
                };
                let got = s.lm.lock_table(t.clone(), m, o);
                trace.push(format!("T{id}({iso:?}) lock_table {o} {m} -> {got:?}"));
                ctx.count("table_lock_requests", 1);
                match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => {
                        if !*a {
                            ctx.count("requests_queued", 1);
                            let h: Vec<T> = s.tables[&o].held.keys().copied().filter(|x| *x != id).collect();
                            s.waited.entry(id).or_default().extend(h);
                        }
                    },
                    (Err(a), Err(b)) if *a == ename(b) => ctx.count("requests_refused", 1),
                    // an upgrade that can never be granted may be refused with an error instead
                    _ => return Err(format!("lock_table: expected {want:?}, got {got:?}; trace {trace:?}")),
                }
            },
            8..=11 => {
                let (o, rid) = *rng.pick(&rids);
                let m = if rng.chance(1, 12) {
                    *rng.pick(&MODES)
                } else {
                    *rng.pick(&[LockMode::Shared, LockMode::Exclusive])
                };
                let key = (o, rid.get_slot_num());
                let waits_table = s.tables.values().any(|r| r.wait.iter().any(|w| w.0 == id));
                if s.rows.iter().any(|(k, r)| r.wait.iter().any(|w| w.0 == id && (*k != key || w.1 != m)))
                {
                    continue;
                }
                let mut abort = false;
                let want = if let Some(e) = refused(iso, st, m) {
                    Err(e)
                } else if !matches!(m, LockMode::Shared | LockMode::Exclusive) {
                    abort = true;
                    Err("IntentionLockOnRow")
                } else {
                    let ok = s.tables.get(&o).and_then(|r| r.held.get(&id)).is_some_and(|h| {
                        h.iter().any(|x| match m {
                            LockMode::Exclusive => matches!(
                                x,
                                LockMode::Exclusive | LockMode::IntentionExclusive | LockMode::SharedIntentionExclusive
                            ),
                            _ => matches!(
                                x,
                                LockMode::Shared | LockMode::IntentionShared | LockMode::SharedIntentionExclusive
                            ),
                        })
                    });
                    if !ok {
                        abort = true;
                        Err("TableLockNotPresent")
                    } else if waits_table {
                        continue;
                    } else {
                        Ok(s.rows.entry(key).or_default().request(id, m))
                    }
                };
                // a stronger table lock than needed is not modelled (X/IX table, S row): skip it
                if m == LockMode::Shared
                    && want == Err("TableLockNotPresent")
                    && s.tables.get(&o).is_some_and(|r| r.holds(id))
                {
                    continue;
                }
                if abort && !rng.chance(1, 6) {
                    continue;
                }
                let got = s.lm.lock_row(t.clone(), m, o, rid);
                trace.push(format!("T{id}({iso:?}) lock_row {o} {rid:?} {m} -> {got:?}"));
                ctx.count("row_lock_requests", 1);
                match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => {
                        if !*a {
                            let h: Vec<T> = s.rows[&key].held.keys().copied().filter(|x| *x != id).collect();
                            s.waited.entry(id).or_default().extend(h);
                        }
                    },
                    (Err(a), Err(b)) if *a == ename(b) => {},
                    _ => return Err(format!("lock_row: expected {want:?}, got {got:?}; trace {trace:?}")),
                }
                if abort {
                    s.st[i] = TransactionState::Aborted;
                }
            },
            12 | 13 => {
                let o = *rng.pick(&oids);
                let r = s.tables.get(&o);
                let held: Option<LockMode> = r.and_then(|r| r.held.get(&id)).and_then(|h| h.last().copied());
                let rows_held = s.rows.iter().any(|(k, r)| k.0 == o && r.holds(id));
                if held.is_none() && !rng.chance(1, 8) || rows_held && !rng.chance(1, 4) {
                    continue;
                }
                let m = held.unwrap_or(LockMode::Shared);
                let got = s.lm.unlock_table(t.clone(), m, o);
                trace.push(format!("T{id}({iso:?}) unlock_table {o} {m} -> {got:?}"));
                let want: Result<bool, &str> = if held.is_none() {
                    s.st[i] = TransactionState::Aborted;
                    Err("NoLockHeld")
                } else if rows_held {
                    s.st[i] = TransactionState::Aborted;
                    Err("TableUnlockedBeforeRows")
                } else {
                    let g = s.tables.get_mut(&o).unwrap().drop_txn(id);
                    ctx.count("waiters_granted", g as u64);
                    if shrinks(iso, m) {
                        s.st[i] = TransactionState::Shrinking;
                    }
                    ctx.count("unlocks", 1);
                    Ok(true)
                };
                match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => {},
                    (Err(a), Err(b)) if *a == ename(b) => {},
                    _ => return Err(format!("unlock_table: expected {want:?}, got {got:?}; trace {trace:?}")),
                }
            },
            14..=16 => {
                let (o, rid) = *rng.pick(&rids);
                let key = (o, rid.get_slot_num());
                let held = s.rows.get(&key).and_then(|r| r.held.get(&id)).and_then(|h| h.last().copied());
                if held.is_none() && !rng.chance(1, 8) {
                    continue;
                }
                let m = held.unwrap_or(LockMode::Shared);
                let got = s.lm.unlock_row(t.clone(), m, o, rid);
                trace.push(format!("T{id}({iso:?}) unlock_row {o} {rid:?} {m} -> {got:?}"));
                let want: Result<bool, &str> = if held.is_none() {
                    s.st[i] = TransactionState::Aborted;
                    Err("NoLockHeld")
                } else {
                    let g = s.rows.get_mut(&key).unwrap().drop_txn(id);
                    ctx.count("waiters_granted", g as u64);
                    if shrinks(iso, m) {
                        s.st[i] = TransactionState::Shrinking;
                    }
                    ctx.count("unlocks", 1);
                    Ok(true)
                };
                match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => {},
                    (Err(a), Err(b)) if *a == ename(b) => {},
                    _ => return Err(format!("unlock_row: expected {want:?}, got {got:?}; trace {trace:?}")),
                }
            },
            _ => {
                if !rng.chance(1, 3) {
                    continue;
                }
                // the transaction ends: everything it held or waited for goes
                s.lm.force_release_txn(id).map_err(|e| format!("force_release_txn: {e:?}"))?;
                trace.push(format!("T{id} ends"));
                let mut g = 0;
                for r in s.tables.values_mut() {
                    g += r.drop_txn(id);
                }
                for r in s.rows.values_mut() {
                    g += r.drop_txn(id);
                }
                ctx.count("waiters_granted", g as u64);
                ctx.count("transactions_ended", 1);
                let nt = Arc::new(Transaction::new(next_id, *rng.pick(&ISO)));
                next_id += 1;
                s.st[i] = nt.get_state();
                s.txns[i] = nt;
            },
        }
        // what the lock manager says it granted
        let obs = observed(&s.lm, &oidset);
        for o in &oids {
            let v = obs.get(o).cloned().unwrap_or_default();
            let granted: Vec<(T, LockMode)> = v
                .iter()
                .filter(|x| x.2)
                .map(|x| (x.0, *MODES.iter().find(|m| format!("{m:?}") == x.1).unwrap()))
                .collect();
            for a in &granted {
                for b in &granted {
                    check!(a.0 == b.0 || compat(a.1, b.1), "table {o}: T{} holds {} while T{} holds {}; trace {trace:?}", a.0, a.1, b.0, b.1);
                }
            }
            ctx.count("granted_pairs_checked", (granted.len() * granted.len()) as u64);
            let model = s.tables.get(o).cloned().unwrap_or_default();
            let gm: BTreeSet<(T, usize)> = granted.iter().map(|(t, m)| (*t, mi(*m))).collect();
            let wm: BTreeSet<(T, usize)> = model.held.iter().flat_map(|(t, ms)| ms.iter().map(|m| (*t, mi(*m)))).collect();
            // strength, not representation: what each holder's locks add up to
            let strength = |x: &BTreeSet<(T, usize)>| {
                let mut r: BTreeMap<T, BTreeSet<usize>> = BTreeMap::new();
                for (t, m) in x {
                    for k in 0..5 {
                        if covers(MODES[*m], MODES[k]) {
                            r.entry(*t).or_default().insert(k);
                        }
                    }
                }
                r
            };
            check!(strength(&gm) == strength(&wm), "table {o}: granted {granted:?}, expected {:?}; trace {trace:?}", model.held);
            let waiting: BTreeSet<T> = v.iter().filter(|x| !x.2).map(|x| x.0).collect();
            let ww: BTreeSet<T> = model.wait.iter().map(|w| w.0).collect();
            check!(waiting == ww, "table {o}: waiting {waiting:?}, expected {ww:?}; trace {trace:?}");
            if !wm.is_empty() {
                ctx.seen(&(wm, ww, model.upgrading.is_some()));
            }
        }
    }
    ctx.sample("lock trace", || json!(trace.iter().take(25).collect::<Vec<_>>()));
    Ok(())
}

/// Threads lock, check a shadow table under their own bookkeeping, and release.
pub fn concurrent(ctx: &Ctx, rng: &mut Rng) -> Res {
    let lm = Arc::new(LockManager::new());
    let nrows = 3usize;
    // shadow[row] = (readers, writers) as seen by holders
    let shadow: Arc<Vec<Mutex<(i32, i32)>>> = Arc::new((0..nrows).map(|_| Mutex::new((0, 0))).collect());
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let ids = Arc::new(std::sync::atomic::AtomicU64::new(1));
    let seeds: Vec<u64> = (0..4).map(|_| rng.next()).collect();
    std::thread::scope(|sc| {
        for sd in seeds {
            let (lm, shadow, bad, ids) = (lm.clone(), shadow.clone(), bad.clone(), ids.clone());
            sc.spawn(move || {
                let mut g = Rng::new(sd);
                for _ in 0..60 {
                    let id = ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let t = Arc::new(Transaction::new(id, IsolationLevel::RepeatableRead));
                    let row = g.below(nrows);
                    let rid = RID::new(7, row as u32);
                    let x = g.chance(1, 2);
                    let (tm, rm) = if x {
                        (LockMode::IntentionExclusive, LockMode::Exclusive)
                    } else {
                        (LockMode::IntentionShared, LockMode::Shared)
                    };
                    let t0 = Instant::now();
                    let wait = |f: &dyn Fn() -> Result<bool, LockError>| -> Result<bool, String> {
                        loop {
                            match f() {
                                Ok(true) => return Ok(true),
                                Ok(false) => {
                                    if t.get_state() == TransactionState::Aborted {
                                        return Ok(false);
                                    }
                                    if t0.elapsed() > Duration::from_secs(20) {
                                        return Err(format!("T{id} waited 20 s for a lock nobody holds for long"));
                                    }
                                    std::thread::yield_now();
                                },
                                Err(LockError::TransactionAborted) => return Ok(false),
                                Err(e) => return Err(format!("{e:?}")),
                            }
                        }
                    };
                    let r = wait(&|| lm.lock_table(t.clone(), tm, 1))
                        .and_then(|a| if a { wait(&|| lm.lock_row(t.clone(), rm, 1, rid)) } else { Ok(false) });
                    match r {
                        Ok(true) => {
                            {
                                let mut s = shadow[row].lock();
                                if x {
                                    s.1 += 1;
                                } else {
                                    s.0 += 1;
                                }
                                if s.1 > 1 || s.1 == 1 && s.0 > 0 {
                                    *bad.lock() = Some(format!("row {row}: {} readers and {} writers hold the lock at once", s.0, s.1));
                                }
                            }
                            if g.chance(1, 3) {
                                std::thread::yield_now();
                            }
                            let mut s = shadow[row].lock();
                            if x {
                                s.1 -= 1;
                            } else {
                                s.0 -= 1;
                            }
                            drop(s);
                            if g.chance(1, 2)
                                && let Err(e) = lm.unlock_row(t.clone(), rm, 1, rid)
                            {
                                *bad.lock() = Some(format!("unlock_row of a held lock: {e:?}"));
                            }
                        },
                        Ok(false) => {
                            // no cycle is possible here: one table mode order, one row each
                            *bad.lock() = Some(format!("T{id} was chosen as deadlock victim although nothing waits in a cycle"));
                        },
                        Err(e) => *bad.lock() = Some(e),
                    }
                    let _ = lm.force_release_txn(id);
                }
            });
        }
    });
    ctx.count("concurrent_runs", 1);
    ctx.count("concurrent_transactions", ids.load(std::sync::atomic::Ordering::SeqCst) - 1);
    let b = bad.lock().take();
    match b {
        Some(b) => Err(b),
        None => {
            let left = observed(&lm, &[1u64].into_iter().collect());
            check!(left.values().all(|v| v.is_empty()), "locks left behind after every transaction ended: {left:?}");
            Ok(())
        },
    }
}

pub fn run_locks(ctx: &Arc<Ctx>) {
    ctx.rule("random table/row lock, unlock and end-of-transaction histories of 2-5 transactions at every 2PL isolation level, each answer and the manager's whole reported lock table compared with a reference lock table; plus 4 threads locking rows with a reader/writer shadow counter. Non-trivial = distinct (granted set, waiting set, upgrade pending) of a table");
    ctx.assume("a transaction waits for one lock at a time; lock calls do not block, waiters poll");
    ctx.explore("model", 4, 9.0, 1500, u64::MAX, |c, r, _| model_case(c, r));
    ctx.explore("concurrent", 1, 3.0, 10, u64::MAX, |c, r, _| concurrent(c, r));
}

fn cyclic_nodes(g: &BTreeMap<T, BTreeSet<T>>) -> BTreeSet<T> {
    // nodes that can reach themselves
    let mut out = BTreeSet::new();
    for s in g.keys() {
        let mut st: Vec<T> = g[s].iter().copied().collect();
        let mut seen = BTreeSet::new();
        while let Some(x) = st.pop() {
            if x == *s {
                out.insert(*s);
                break;
            }
            if seen.insert(x)
                && let Some(n) = g.get(&x)
            {
                st.extend(n.iter().copied());
            }
        }
    }
    out
}

/// Is `v` the highest id of some simple cycle of `g`?
fn highest_of_a_cycle(g: &BTreeMap<T, BTreeSet<T>>, v: T) -> bool {
    // restrict to nodes <= v and look for a path v -> v
    let mut st: Vec<T> = g.get(&v).into_iter().flatten().copied().filter(|x| *x <= v).collect();
    let mut seen = BTreeSet::new();
    while let Some(x) = st.pop() {
        if x == v {
            return true;
        }
        if seen.insert(x) {
            st.extend(g.get(&x).into_iter().flatten().copied().filter(|y| *y <= v));
        }
    }
    false
}

fn graph_case(ctx: &Ctx, rng: &mut Rng) -> Res {
    let d = DeadlockDetector::new();
    let mut g: BTreeMap<T, BTreeSet<T>> = BTreeMap::new();
    let n = rng.range(2, 10) as usize;
    let mut trace = Vec::new();
    for _ in 0..rng.range(3, 30) {
        if rng.chance(1, 7) {
            let a = rng.below(n) as T + 1;
            d.remove_edge(a);
            g.remove(&a);
            trace.push(format!("remove {a}"));
        } else {
            let a = rng.below(n) as T + 1;
            let b = rng.below(n) as T + 1;
            if a == b {
                continue;
            }
            d.add_edge(a, b);
            g.entry(a).or_default().insert(b);
            trace.push(format!("{a}->{b}"));
        }
        let cyc = cyclic_nodes(&g);
        let mut v = 0;
        let got = d.has_cycle(&mut v);
        check!(got != cyc.is_empty(), "has_cycle = {got}, nodes on cycles: {cyc:?}; {trace:?}");
        if got {
            check!(cyc.contains(&v), "victim {v} is on no cycle; {trace:?}");
            check!(highest_of_a_cycle(&g, v), "victim {v} is not the youngest transaction of a cycle; {trace:?}");
            ctx.count("cycles_found", 1);
        } else {
            ctx.count("acyclic_graphs", 1);
        }
        ctx.seen(&g);
    }
    ctx.sample("waits-for graph", || json!(trace));
    Ok(())
}

/// Transactions block each other through the lock manager: a ring must be broken by aborting a
/// member, a chain must not abort anybody.
fn end_to_end(ctx: &Ctx, rng: &mut Rng) -> Res {
    let lm = LockManager::new();
    let n = rng.range(2, 5) as usize;
    let ring = rng.chance(1, 2);
    let rows = rng.chance(1, 2);
    let base = rng.range(1, 1000) as u64;
    let mut order: Vec<u64> = (0..n as u64).map(|i| base + i).collect();
    rng.shuffle(&mut order);
    let txns: Vec<_> = order.iter().map(|i| Arc::new(Transaction::new(*i, IsolationLevel::RepeatableRead))).collect();
    let lock = |i: usize, res: usize| -> Result<bool, LockError> {
        if rows {
            lm.lock_row(txns[i].clone(), LockMode::Exclusive, 99, RID::new(3, res as u32))
        } else {
            lm.lock_table(txns[i].clone(), LockMode::Exclusive, res as u64 + 1)
        }
    };
    for i in 0..n {
        if rows {
            check!(lm.lock_table(txns[i].clone(), LockMode::IntentionExclusive, 99).unwrap_or(false), "IX table lock refused");
        }
        check!(lock(i, i).unwrap_or(false), "first lock of T{} refused", order[i]);
    }
    // everybody waits for its successor (the last one only in a ring)
    let waiters: Vec<usize> = if ring { (0..n).collect() } else { (0..n - 1).collect() };
    let t0 = Instant::now();
    let mut victim = None;
    let mut granted: Vec<bool> = vec![false; n];
    let quiet = Duration::from_millis(220);
    'o: while t0.elapsed() < Duration::from_secs(20) {
        for &i in &waiters {
            if granted[i] || txns[i].get_state() == TransactionState::Aborted {
                continue;
            }
            match lock(i, (i + 1) % n) {
                Ok(true) => granted[i] = true,
                Ok(false) | Err(LockError::TransactionAborted) => {},
                Err(e) => return Err(format!("lock call failed: {e:?}")),
            }
            if txns[i].get_state() == TransactionState::Aborted {
                victim = Some(i);
                break 'o;
            }
        }
        if !ring && t0.elapsed() > quiet {
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let kind = if ring { "ring" } else { "chain" };
    match (ring, victim) {
        (true, None) => return Err(format!("a ring of {n} waiting transactions {order:?} was not broken within 20 s")),
        (false, Some(v)) => return Err(format!("T{} aborted as deadlock victim in a waiting chain {order:?}", order[v])),
        (true, Some(v)) => {
            check!(order[v] == *order.iter().max().unwrap(), "victim T{} is not the youngest of the cycle {order:?}", order[v]);
            check!(txns.iter().filter(|t| t.get_state() == TransactionState::Aborted).count() == 1, "more than one victim");
            // once the victim's locks go, everybody else gets through
            let _ = lm.force_release_txn(order[v]);
            let mut i = (v + n - 1) % n;
            while i != v {
                let ok = lock(i, (i + 1) % n);
                check!(matches!(ok, Ok(true)), "T{} still cannot lock after the victim was rolled back: {ok:?}", order[i]);
                let _ = lm.force_release_txn(order[i]);
                i = (i + n - 1) % n;
            }
        },
        (false, None) => {
            let mut i = n - 1;
            let _ = lm.force_release_txn(order[i]);
            while i > 0 {
                i -= 1;
                let ok = lock(i, i + 1);
                check!(matches!(ok, Ok(true)), "T{} cannot lock although its blocker ended: {ok:?}", order[i]);
                let _ = lm.force_release_txn(order[i]);
            }
        },
    }
    ctx.count(&format!("{kind}s_resolved"), 1);
    ctx.seen(&(kind, &order, rows));
    Ok(())
}

pub fn run_deadlock(ctx: &Arc<Ctx>) {
    ctx.rule("random waits-for graphs of 2-10 transactions built edge by edge, every detection answer compared with an independent cycle search; plus real rings and chains of waiters through the lock manager with the background detector. Non-trivial = distinct graph / waiting arrangement");
    ctx.assume("waiters poll their lock request, as the non-blocking API requires");
    ctx.explore("graph", 4, 4.0, 2000, u64::MAX, |c, r, _| graph_case(c, r));
    ctx.explore("rings", 6, 6.0, 40, u64::MAX, |c, r, _| end_to_end(c, r));
}

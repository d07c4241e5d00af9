//! P16: the write-ahead log. Records appended by concurrent writers are followed to the file and
//! its syncs (observed at the system call boundary), also on a device that fills up or fails to sync.
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::{INVALID_LSN, Lsn};
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::wal_manager::WALManager;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use parking_lot::{Mutex, RwLock};
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;
use crate::sys;
use crate::util;

struct Log {
    rt: Arc<tokio::runtime::Runtime>,
    dir: util::Scratch,
    lm: Arc<RwLock<LogManager>>,
    disk: Arc<AsyncDiskManager>,
    h: sys::Handle,
}
impl Log {
    fn new(log: &[u8]) -> Result<Log, String> {
        Log::with_config(log, DiskManagerConfig::default())
    }
    fn with_config(log: &[u8], cfg: DiskManagerConfig) -> Result<Log, String> {
        let rt = util::runtime_n(2);
        let dir = util::Scratch::new("wal");
        std::fs::write(dir.file("t.db"), b"").map_err(|e| e.to_string())?;
        std::fs::write(dir.file("t.log"), log).map_err(|e| e.to_string())?;
        let h = sys::watch(&dir.file("t.log"));
        let disk = rt.block_on(AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), cfg)).map_err(|e| format!("open: {e}"))?;
        let disk = Arc::new(disk);
        let _g = rt.enter();
        let lm = Arc::new(RwLock::new(LogManager::new(disk.clone())));
        lm.write().run_flush_thread();
        drop(_g);
        Ok(Log { rt, dir, lm, disk, h })
    }
    fn bytes(&self) -> Vec<u8> {
        std::fs::read(self.dir.file("t.log")).unwrap_or_default()
    }
}

fn tuple_text(t: Option<&Tuple>) -> String {
    t.map_or("-".into(), |t| format!("{:?}", gens::keys(&t.get_values())))
}
/// Everything a record says, apart from its number.
fn text(r: &LogRecord) -> String {
    format!(
        "{:?} txn {} prev {} del {:?} {} ins {:?} {} upd {:?} {} {} page {:?} after {:?}",
        r.get_log_record_type(),
        r.get_txn_id(),
        r.get_prev_lsn(),
        r.get_delete_rid(),
        tuple_text(r.get_delete_tuple()),
        r.get_insert_rid(),
        tuple_text(r.get_insert_tuple()),
        r.get_update_rid(),
        tuple_text(r.get_original_tuple()),
        tuple_text(r.get_update_tuple()),
        r.get_page_id(),
        r.get_new_page_record(),
    )
}

fn record(rng: &mut Rng, txn: u64, commit: usize) -> LogRecord {
    let prev = if rng.chance(1, 4) { INVALID_LSN } else { rng.next() >> rng.below(60) };
    let types: Vec<TypeId> = (0..1 + rng.below(4)).map(|_| *rng.pick(&gens::SCALARS)).collect();
    let schema = Schema::new(types.iter().enumerate().map(|(i, t)| Column::new(&format!("c{i}"), *t)).collect());
    let max = if rng.chance(1, 8) { 1200 } else { 40 };
    let rid = RID::new(rng.next() >> rng.below(60), (rng.next() >> 32) as u32 >> rng.below(30));
    let mut tup = || {
        let vals = gens::values(rng, &types, max);
        Arc::new(Tuple::new(&vals, &schema, rid))
    };
    let (a, b) = (tup(), tup());
    if rng.chance(commit, 10) {
        return LogRecord::new_transaction_record(txn, prev, LogRecordType::Commit);
    }
    match rng.below(8) {
        0 => LogRecord::new_transaction_record(txn, prev, LogRecordType::Begin),
        1 => LogRecord::new_transaction_record(txn, prev, LogRecordType::Abort),
        2 => LogRecord::new_insert_delete_record(txn, prev, LogRecordType::Insert, rid, a),
        3 => LogRecord::new_insert_delete_record(txn, prev, LogRecordType::MarkDelete, rid, a),
        4 => LogRecord::new_insert_delete_record(txn, prev, LogRecordType::ApplyDelete, rid, a),
        5 => LogRecord::new_insert_delete_record(txn, prev, LogRecordType::RollbackDelete, rid, a),
        6 => LogRecord::new_page_record(txn, prev, LogRecordType::NewPage, rng.next(), rng.next() >> 8),
        _ => LogRecord::new_update_record(txn, prev, LogRecordType::Update, rid, a, b),
    }
}

/// Whole records of a log file: (start, end, record). Independent of the code under test but for
/// the decoding of one record.
fn parse(b: &[u8]) -> Vec<(usize, usize, LogRecord)> {
    let mut out = Vec::new();
    let mut at = 0;
    while at + 4 <= b.len() {
        let n = i32::from_le_bytes(b[at..at + 4].try_into().unwrap());
        if n <= 4 || at + n as usize > b.len() {
            break;
        }
        match LogRecord::from_bytes(&b[at..at + n as usize]) {
            Ok(r) => out.push((at, at + n as usize, r)),
            Err(_) => break,
        }
        at += n as usize;
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Full(usize, bool),
    Sync(usize, bool),
}
fn fault(rng: &mut Rng) -> Fault {
    match rng.below(6) {
        0..=2 => Fault::None,
        3..=4 => Fault::Full(rng.below(6000), rng.chance(1, 2)),
        _ => Fault::Sync(rng.below(6), rng.chance(1, 2)),
    }
}
fn arm(h: &sys::Handle, f: Fault) {
    match f {
        Fault::None => {},
        Fault::Full(n, t) => {
            h.w.transient.store(t, SeqCst);
            h.w.room.store(n as i64, SeqCst);
        },
        Fault::Sync(n, t) => {
            h.w.transient.store(t, SeqCst);
            h.w.syncs_left.store(n as i64, SeqCst);
        },
    }
}

/// The file holds the records numbered from `first` on without a gap, in order; returns the end of
/// each.
fn in_order(recs: &[(usize, usize, LogRecord)], first: Lsn) -> Result<HashMap<Lsn, (usize, String)>, String> {
    let mut m = HashMap::new();
    for (i, (_, end, r)) in recs.iter().enumerate() {
        check!(
            r.get_lsn() == first + i as u64,
            "record {i} of the file, {:?} of transaction {}, has LSN {}, expected {}",
            r.get_log_record_type(),
            r.get_txn_id(),
            r.get_lsn(),
            first + i as u64
        );
        m.insert(r.get_lsn(), (*end, text(r)));
    }
    Ok(m)
}

fn append(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let fault = fault(rng);
    let mut old: Vec<u8> = Vec::new();
    let mut first: Lsn = 0;
    for round in 0..rng.urange(1, 3) {
        let l = Log::new(&old)?;
        l.h.w.sync_delay.store(if rng.chance(1, 3) { rng.below(3000) as u64 } else { 0 }, SeqCst);
        if round > 0 {
            // As recovery does.
            let mut it = LogIterator::new(l.disk.clone());
            let last = l.rt.block_on(async {
                let mut last = None;
                while let Some(r) = it.next().await {
                    last = Some(r.get_lsn());
                }
                last
            });
            check!(last == first.checked_sub(1), "the last record of the log read after a restart is {last:?}, expected {:?}", first.checked_sub(1));
            if let Some(x) = last {
                l.lm.write().continue_after(x);
            }
        }
        arm(&l.h, fault);
        let nthreads = rng.urange(1, 6);
        let per = if rng.chance(1, 16) { rng.urange(60, 300) } else { rng.urange(2, 24) };
        let commits = rng.below(6);
        let done = AtomicBool::new(false);
        // (LSN said to be persistent, synced length read afterwards)
        let seen: Mutex<Vec<(Lsn, u64)>> = Mutex::new(Vec::new());
        let said: Mutex<Vec<(Lsn, String)>> = Mutex::new(Vec::new());
        let errs: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let seeds: Vec<u64> = (0..nthreads).map(|_| rng.next()).collect();
        let quiet = fault == Fault::None;
        std::thread::scope(|s| {
            let ws: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(me, sd)| {
                    let (l, seen, said, errs) = (&l, &seen, &said, &errs);
                    s.spawn(move || {
                        let mut rng = Rng::new(*sd);
                        let wm = WALManager::new(l.lm.clone());
                        let mut last = None;
                        for i in 0..per {
                            if rng.chance(1, 10) {
                                std::thread::sleep(Duration::from_micros(rng.below(2000) as u64));
                            }
                            let txn = (me * 1000 + i) as u64;
                            let (lsn, what, commit) = if rng.chance(1, 4) {
                                let t = Transaction::new(txn, IsolationLevel::ReadCommitted);
                                let p = rng.next();
                                t.set_prev_lsn(p);
                                let (lsn, ty, prev) = match rng.below(6) {
                                    0 if commits > 0 => (wm.write_commit_record(&t), LogRecordType::Commit, p),
                                    1..=3 => (wm.write_begin_record(&t), LogRecordType::Begin, INVALID_LSN),
                                    _ => (wm.write_abort_record(&t), LogRecordType::Abort, p),
                                };
                                (lsn, text(&LogRecord::new_transaction_record(txn, prev, ty)), ty == LogRecordType::Commit)
                            } else {
                                let r = Arc::new(record(&mut rng, txn, commits));
                                let t = text(&r);
                                let c = r.is_commit();
                                (l.lm.write().append_log_record(r), t, c)
                            };
                            said.lock().push((lsn, what));
                            if last.is_some_and(|x| lsn <= x) {
                                errs.lock().push(format!("a writer was given LSN {lsn} after {last:?}"));
                            }
                            last = Some(lsn);
                            if l.lm.read().get_next_lsn() <= lsn {
                                errs.lock().push(format!("the next LSN is not after {lsn}, which was given out"));
                            }
                            if commit {
                                let p = l.lm.read().get_persistent_lsn();
                                let ok = p != INVALID_LSN && p >= lsn;
                                if ok {
                                    seen.lock().push((lsn, l.h.w.synced.load(SeqCst)));
                                } else if quiet {
                                    errs.lock().push(format!("a commit record with LSN {lsn} was appended, but is not persistent ({p})"));
                                }
                            }
                        }
                    })
                })
                .collect();
            let watcher = s.spawn(|| {
                let mut last = None;
                while !done.load(SeqCst) {
                    if let Some(g) = l.lm.try_read() {
                        let p = g.get_persistent_lsn();
                        drop(g);
                        let y = l.h.w.synced.load(SeqCst);
                        if p != INVALID_LSN {
                            if last.is_some_and(|x| p < x) {
                                errs.lock().push(format!("the persistent LSN went back from {last:?} to {p}"));
                            }
                            if last != Some(p) {
                                seen.lock().push((p, y));
                            }
                            last = Some(p);
                        }
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            });
            for w in ws {
                if w.join().is_err() {
                    errs.lock().push("a writer panicked".into());
                }
            }
            done.store(true, SeqCst);
            let _ = watcher.join();
        });
        l.lm.write().shut_down();
        let p = l.lm.read().get_persistent_lsn();
        let mut seen = seen.into_inner();
        if p != INVALID_LSN {
            seen.push((p, l.h.w.synced.load(SeqCst)));
        }
        if let Some(e) = errs.into_inner().first() {
            return Err(e.clone());
        }
        let mut said = said.into_inner();
        said.sort();
        let file = l.bytes();
        check!(file.starts_with(&old), "the log written before the restart has changed");
        let recs = parse(&file);
        let m = in_order(&recs, 0)?;
        for (i, (lsn, _)) in said.iter().enumerate() {
            check!(*lsn == first + i as u64, "{} LSNs were given out from {first} on, among them {lsn} where {} belongs", said.len(), first + i as u64);
        }
        for (lsn, what) in &said {
            match m.get(lsn) {
                Some((_, w)) => check!(w == what, "record {lsn} was\n {what}\nbut the file holds\n {w}"),
                None => check!(fault != Fault::None, "record {lsn} ({what}) is not in the log after the shutdown, {} of {} records are", recs.len(), first as usize + said.len()),
            }
        }
        if fault == Fault::None {
            check!(recs.last().map_or(0, |r| r.1) == file.len(), "the log file has {} bytes behind its last record", file.len() - recs.last().map_or(0, |r| r.1));
            check!(recs.len() == first as usize + said.len(), "{} records were appended, the file holds {}", first as usize + said.len(), recs.len());
            check!(p == first + said.len() as u64 - 1, "after the shutdown the persistent LSN is {p}, the last record's is {}", first as usize + said.len() - 1);
        }
        for (lsn, synced) in &seen {
            match m.get(lsn) {
                Some((end, _)) => check!(*synced >= *end as u64, "LSN {lsn} was persistent, but its record ends at byte {end} and {synced} bytes were synced ({fault:?})"),
                None => return Err(format!("LSN {lsn} was persistent, but is not in the log ({fault:?}); the log ends with {:?}", recs.last().map(|r| r.2.get_lsn()))),
            }
        }
        ctx.count("records", said.len() as u64);
        ctx.count("syncs_observed", l.h.w.syncs.load(SeqCst));
        ctx.count("persistent_lsns_checked", seen.len() as u64);
        ctx.count("faults_hit", l.h.w.faults.load(SeqCst));
        ctx.eval(said.len() as u64);
        ctx.seen(&("append", format!("{fault:?}"), said.len(), l.h.w.syncs.load(SeqCst), seen.clone()));
        ctx.sample("append", || json!({"seed": seed, "threads": nthreads, "records": said.len(), "fault": format!("{fault:?}"), "persistent (lsn, synced bytes)": seen.iter().take(8).collect::<Vec<_>>()}));
        if l.h.w.faults.load(SeqCst) > 0 {
            break;
        }
        readers(ctx, &l, rng, &recs)?;
        first += said.len() as u64;
        old = file;
    }
    Ok(())
}

/// The log's readers agree with the file.
fn readers(ctx: &Ctx, l: &Log, rng: &mut Rng, recs: &[(usize, usize, LogRecord)]) -> Res {
    let at = rng.below(recs.len().max(1));
    for from in [0, at] {
        let mut it = LogIterator::with_offset(l.disk.clone(), recs.get(from).map_or(0, |r| r.0) as u64);
        let mut got = Vec::new();
        l.rt.block_on(async {
            while let Some(r) = it.next().await {
                got.push((r, it.get_offset()));
            }
        });
        check!(it.is_end(), "the iterator is through, but not at the end");
        check!(got.len() == recs.len() - from.min(recs.len()), "the iterator from record {from} on returns {} records, the log holds {} more", got.len(), recs.len() - from);
        for ((r, off), (_, end, want)) in got.iter().zip(&recs[from..]) {
            check!(r.get_lsn() == want.get_lsn() && text(r) == text(want), "the iterator returns LSN {}, {}, expected {}, {}", r.get_lsn(), text(r), want.get_lsn(), text(want));
            check!(*off == *end as u64, "after record {} the iterator is at offset {off}, not {end}", r.get_lsn());
        }
        ctx.count("iterated", got.len() as u64);
    }
    for _ in 0..recs.len().min(12) {
        let (start, _, want) = rng.pick(recs);
        let got = l.lm.read().read_log_record(*start as u64);
        match got {
            Some(r) => check!(r.get_lsn() == want.get_lsn() && text(&r) == text(want), "reading the record at {start} returns {}, expected {}", text(&r), text(want)),
            None => return Err(format!("the record at {start} ({} bytes before the end, LSN {}) cannot be read", recs.last().unwrap().1 - start, want.get_lsn())),
        }
        ctx.count("read_by_offset", 1);
    }
    Ok(())
}

/// Encoding of single records.
fn codec(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..60 {
        let r = record(rng, rng.clone().next() >> rng.clone().below(60), 1);
        let lsn = rng.next() >> rng.below(64);
        r.set_lsn(lsn);
        let b = r.to_bytes().map_err(|e| format!("encoding fails: {e:?}"))?;
        check!(i32::from_le_bytes(b[..4].try_into().unwrap()) as usize == b.len(), "the length in front of a record of {} bytes is wrong", b.len());
        let d = LogRecord::from_bytes(&b).map_err(|e| format!("decoding fails: {e:?}"))?;
        check!(d.get_lsn() == lsn && text(&d) == text(&r), "decoded LSN {} {}\nencoded LSN {lsn} {}", d.get_lsn(), text(&d), text(&r));
        check!(d.to_bytes().ok().as_ref() == Some(&b), "a decoded record is encoded differently");
        let cut = rng.below(b.len());
        check!(LogRecord::from_bytes(&b[..cut]).is_err(), "the first {cut} of {} bytes are taken for a record", b.len());
        let mut x = b.clone();
        let i = rng.below(x.len());
        x[i] ^= 1 << rng.below(8);
        let _ = LogRecord::from_bytes(&x);
        ctx.eval(1);
        ctx.seen(&("codec", &b));
    }
    Ok(())
}

/// A log cut anywhere is read up to its last whole record.
fn torn(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let n = rng.urange(1, 30);
    let mut file = Vec::new();
    for i in 0..n {
        let r = record(rng, i as u64, 2);
        r.set_lsn(i as u64);
        file.extend(r.to_bytes().map_err(|e| format!("{e:?}"))?);
    }
    let cut = match rng.below(3) {
        0 => file.len() - rng.below(8).min(file.len()),
        _ => rng.below(file.len() + 1),
    };
    let recs = parse(&file[..cut]);
    let l = Log::new(&file[..cut])?;
    readers(ctx, &l, rng, &recs).map_err(|e| format!("log cut at byte {cut} of {}: {e}", file.len()))?;
    let mut it = LogIterator::new(l.disk.clone());
    let got = l.rt.block_on(it.collect());
    check!(got.len() == recs.len(), "collect returns {} of {} records", got.len(), recs.len());
    it.reset();
    check!(l.rt.block_on(it.next()).is_some() == !recs.is_empty(), "after a reset the iterator does not start again");
    let _ = l.rt.block_on(it.collect());
    if !recs.is_empty() {
        let at = rng.below(recs.len());
        it.set_offset(recs[at].0 as u64);
        let got = l.rt.block_on(it.next()).map(|r| r.get_lsn());
        check!(got == Some(recs[at].2.get_lsn()), "moved from the end to the record at {}, the iterator returns LSN {got:?}, expected {}", recs[at].0, recs[at].2.get_lsn());
    }
    // Offsets past the end hold no record
    for off in [cut as u64, cut as u64 + 1 + rng.below(5000) as u64] {
        check!(l.lm.read().read_log_record(off).is_none(), "a record is read at {off} of a log of {cut} bytes");
    }
    ctx.eval(1);
    ctx.seen(&("torn", seed));
    l.lm.write().shut_down();
    Ok(())
}

/// Commit through the transaction factory: success is durable, and the records of a transaction
/// are chained.
fn factory(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let fault = fault(rng);
    let l = Log::new(&[])?;
    let bpm = crate::pool::plain(16, &l.disk)?;
    let wm = Arc::new(WALManager::new(l.lm.clone()));
    let f = TransactionManagerFactory::with_wal_manager(bpm, wm.clone());
    arm(&l.h, fault);
    let n = rng.urange(1, 4);
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    // (transaction, its records' LSNs, outcome, synced length at the return)
    let out: Mutex<Vec<(u64, Vec<Lsn>, Option<bool>, u64)>> = Mutex::new(Vec::new());
    let errs: Mutex<Vec<String>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for sd in &seeds {
            let (f, l, wm, out, errs) = (&f, &l, &wm, &out, &errs);
            s.spawn(move || {
                let mut rng = Rng::new(*sd);
                let _g = l.rt.enter();
                for _ in 0..rng.urange(1, 12) {
                    let c = f.begin_transaction(*rng.pick(&[IsolationLevel::ReadCommitted, IsolationLevel::Serializable, IsolationLevel::RepeatableRead]));
                    let t = c.get_transaction();
                    let mut lsns = vec![t.get_prev_lsn()];
                    for _ in 0..rng.below(4) {
                        let (a, b) = {
                            let schema = Schema::new(vec![Column::new("a", TypeId::Integer)]);
                            let mut g = || Tuple::new(&[gens::value(&mut rng, TypeId::Integer, 8)], &schema, RID::new(1, 1));
                            (g(), g())
                        };
                        let lsn = wm.write_update_record(&t, RID::new(1, 1), a, b);
                        t.set_prev_lsn(lsn);
                        lsns.push(lsn);
                    }
                    let k = rng.below(8);
                    if k == 0 {
                        // Aborted behind the factory's back: must not be committed afterwards.
                        f.get_transaction_manager().abort(t.clone());
                    }
                    if k < 6 {
                        let ok = futures::executor::block_on(f.commit_transaction(c.clone()));
                        let y = l.h.w.synced.load(SeqCst);
                        if k == 0 && ok {
                            errs.lock().push(format!("an aborted transaction ({}) was committed", t.get_transaction_id()));
                        }
                        if ok != (t.get_state() == TransactionState::Committed) {
                            errs.lock().push(format!("commit returned {ok}, and the transaction is {:?}", t.get_state()));
                        }
                        if ok {
                            lsns.push(t.get_prev_lsn());
                        }
                        out.lock().push((t.get_transaction_id(), lsns, if k == 0 { None } else { Some(ok) }, y));
                    } else {
                        f.abort_transaction(c.clone());
                        lsns.push(t.get_prev_lsn());
                        out.lock().push((t.get_transaction_id(), lsns, None, 0));
                    }
                }
            });
        }
    });
    l.lm.write().shut_down();
    if let Some(e) = errs.into_inner().first() {
        return Err(e.clone());
    }
    let file = l.bytes();
    let recs = parse(&file);
    let ends = in_order(&recs, 0)?;
    let hit = l.h.w.faults.load(SeqCst) > 0;
    let out = out.into_inner();
    for (id, lsns, ok, synced) in &out {
        if *ok == Some(true) {
            let c = lsns.last().unwrap();
            let e = ends.get(c).map(|e| e.0);
            check!(e.is_some_and(|e| e as u64 <= *synced), "transaction {id} was committed, but its commit record (LSN {c}) ends at byte {e:?} of the log and {synced} bytes were synced ({fault:?})");
        }
        check!(hit || *ok != Some(false), "the commit of transaction {id} failed without a fault");
        // Chain.
        let mut prev = INVALID_LSN;
        let mine: Vec<_> = recs.iter().filter(|r| r.2.get_txn_id() == *id).collect();
        for (i, (_, _, r)) in mine.iter().enumerate() {
            check!(r.get_prev_lsn() == prev, "record {} of transaction {id} (LSN {}) points at {}, the one before is {prev}", i, r.get_lsn(), r.get_prev_lsn());
            check!(lsns.get(i).is_none_or(|x| *x == r.get_lsn()), "record {i} of transaction {id} has LSN {}, it was told {:?}", r.get_lsn(), lsns.get(i));
            prev = r.get_lsn();
        }
        check!(hit || mine.len() >= lsns.len(), "transaction {id} wrote {} records, the log holds {}", lsns.len(), mine.len());
        let commits = mine.iter().filter(|r| r.2.is_commit()).count();
        check!(commits == 0 || ok.is_some(), "the log holds a commit record of transaction {id}, which was aborted");
        check!(commits <= 1, "the log holds {commits} commit records of transaction {id}");
    }
    ctx.count("factory_transactions", out.len() as u64);
    ctx.count("faults_hit", l.h.w.faults.load(SeqCst));
    ctx.eval(out.len() as u64);
    ctx.seen(&("factory", &file));
    ctx.sample("factory", || json!({"seed": seed, "fault": format!("{fault:?}"), "outcomes": out.iter().take(6).map(|o| format!("txn {} lsns {:?} committed {:?} synced {}", o.0, o.1, o.2, o.3)).collect::<Vec<_>>()}));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("append: a state is a distinct (fault, record count, syncs, persistent LSNs with the synced length seen then); codec: a distinct encoded record; torn: a distinct log and cut; factory: a distinct log");
    ctx.assume("after a failed sync nothing written before counts as durable, whatever later syncs say; the device is the C library's write and fdatasync calls as seen by the process");
    if let Err(e) = sys::self_test() {
        eprintln!("the system call monitor does not work: {e}");
        std::process::exit(3);
    }
    ctx.explore("append", 8, 8.0, 40, 100_000, append);
    ctx.explore("codec", 8, 1.5, 60, 100_000, codec);
    ctx.explore("torn", 8, 2.5, 40, 100_000, torn);
    ctx.explore("factory", 8, 3.0, 60, 100_000, factory);
}

//! P14: the I/O queue, engine and completion tracker.
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

use ferrite::storage::disk::async_disk::compression::{CompressionAlgorithm, CompressionEngine};
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::async_disk::io::operations::IOOperationType;
use ferrite::storage::disk::async_disk::io::queue::IOQueueManager;
use serde_json::json;
use tokio::sync::Mutex;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::{Rng, mix};
use crate::util;

const PS: usize = 4096;

async fn engine(dir: &util::Scratch) -> Result<AsyncIOEngine, String> {
    let open = |n: &str| {
        std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(dir.file(n))
            .map(|f| Arc::new(Mutex::new(tokio::fs::File::from_std(f))))
            .map_err(|e| e.to_string())
    };
    AsyncIOEngine::new(open("db")?, open("log")?).map_err(|e| e.to_string())
}

/// The priority queue against a sorted list: highest priority first, oldest first among equals.
fn queue(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let q = IOQueueManager::new();
        let mut m: Vec<(u8, u64)> = Vec::new(); // in order of arrival
        let mut tr = Vec::new();
        let levels = rng.urange(1, 12) as u8;
        let mut id = 0;
        for _ in 0..rng.urange(10, 200) {
            match rng.below(9) {
                0..=4 => {
                    let p = rng.below(levels as usize) as u8;
                    id += 1;
                    q.enqueue_operation(IOOperationType::ReadPage { page_id: id }, p, id).await;
                    m.push((p, id));
                    tr.push(format!("put {id}@{p}"));
                    // arrivals are ordered by a clock of nanoseconds
                    let t = std::time::Instant::now();
                    while t.elapsed().as_nanos() < 200 {}
                },
                5..=6 => {
                    let g = q.dequeue_operation().await;
                    let top = m.iter().map(|e| e.0).max();
                    let w = top.and_then(|t| m.iter().position(|e| e.0 == t)).map(|p| m.remove(p));
                    tr.push("take".into());
                    check!(g.as_ref().map(|o| (o.priority, o.id)) == w, "the queue gave {:?}, expected {w:?}; {tr:?}", g.map(|o| (o.priority, o.id)));
                    if let (Some(o), Some((_, id))) = (g, w) {
                        check!(matches!(o.operation_type, IOOperationType::ReadPage { page_id } if page_id == id), "operation {id} came back as {o:?}");
                    }
                },
                7 if rng.chance(1, 8) => {
                    let d: Vec<_> = q.drain_queue().await.iter().map(|o| (o.priority, o.id)).collect();
                    m.sort_by_key(|e| (std::cmp::Reverse(e.0), e.1));
                    check!(d == m, "drained {d:?}, expected {m:?}; {tr:?}");
                    m.clear();
                },
                8 if rng.chance(1, 12) => {
                    check!(q.clear_queue().await == m.len(), "clear_queue counted wrongly");
                    m.clear();
                },
                _ => {},
            }
            check!(q.queue_size().await == m.len() && q.is_empty().await == m.is_empty(), "queue size {}, expected {}; {tr:?}", q.queue_size().await, m.len());
            check!(q.peek_highest_priority().await == m.iter().map(|e| e.0).max(), "peeked priority {:?} of {m:?}", q.peek_highest_priority().await);
            ctx.seen(&(1, m.clone()));
        }
        ctx.sample("queue", || json!(tr.iter().take(25).collect::<Vec<_>>()));
        Ok(())
    })
}

/// Several ends race for each operation: one wins, and everybody hears of that one result.
pub fn tracker(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let rt = util::runtime_n(4);
    let dir = util::Scratch::new("ioq");
    rt.block_on(async {
        let e = engine(&dir).await?; // never started: the tracker alone
        let t = e.completion_tracker();
        let n = rng.urange(1, 40);
        let flood = rng.chance(1, 6); // more events than the channel keeps
        let n = if flood { 1500 } else { n };
        let mut ids = Vec::new();
        let mut rxs = Vec::new();
        let timed = rng.chance(1, 3);
        for _ in 0..n {
            let short = timed && rng.chance(1, 3);
            let (id, rx) = t.start_operation(short.then_some(Duration::from_millis(2))).await;
            ids.push(id);
            rxs.push((id, short, rx));
        }
        let uniq: std::collections::BTreeSet<_> = ids.iter().collect();
        check!(uniq.len() == n, "operation ids repeat");
        check!(t.pending_operations_count().await == n, "{} of {n} operations pending", t.pending_operations_count().await);
        let mut events = t.subscribe_to_events();

        // waiters
        let mut waiters = Vec::new();
        for _ in 0..rng.urange(1, 8) {
            let t = t.clone();
            let id = *rng.pick(&ids);
            let late = rng.chance(1, 3);
            waiters.push(tokio::spawn(async move {
                if late {
                    tokio::task::yield_now().await;
                }
                (id, t.wait_for_operation(id, Duration::from_secs(20)).await.map(|r| format!("{r:?}")))
            }));
        }
        let mut group: Vec<u64> = ids.iter().copied().filter(|_| rng.chance(1, 2)).collect();
        rng.shuffle(&mut group);
        let tg = t.clone();
        let g2 = group.clone();
        let together = tokio::spawn(async move { tg.wait_for_operations(&g2, Duration::from_secs(20)).await.map(|v| v.into_iter().map(|(i, r)| (i, format!("{r:?}"))).collect::<Vec<_>>()) });
        if rng.chance(1, 2) {
            tokio::task::yield_now().await;
        }

        // racing ends; each records what it won
        let wins: Arc<parking_lot::Mutex<Vec<(u64, String)>>> = Default::default();
        let mut ends = Vec::new();
        for w in 0..rng.urange(1, 4) {
            let (t, wins) = (t.clone(), wins.clone());
            let mut order = ids.clone();
            let mut r = rng.fork();
            if !flood {
                r.shuffle(&mut order);
            }
            ends.push(tokio::spawn(async move {
                for id in order {
                    let k = r.below(4);
                    let (ok, what) = match k {
                        0 | 1 => {
                            let d = vec![w as u8, id as u8, k as u8];
                            (t.complete_operation(id, d.clone()).await.is_ok(), format!("Success({d:?})"))
                        },
                        2 => {
                            let m = format!("failed by {w}");
                            (t.fail_operation(id, m.clone()).await.is_ok(), format!("Error({m:?})"))
                        },
                        _ => {
                            let m = format!("by {w}");
                            (t.cancel_operation(id, m.clone()).await.is_ok(), format!("cancelled {m}"))
                        },
                    };
                    if ok {
                        wins.lock().push((id, what));
                    }
                    if r.chance(1, 8) {
                        tokio::task::yield_now().await;
                    }
                }
            }));
        }
        let mut timeouts = 0;
        if timed {
            tokio::time::sleep(Duration::from_millis(3)).await;
            timeouts = t.check_timeouts().await;
        }
        for e in ends {
            e.await.map_err(|e| e.to_string())?;
        }
        let wins = wins.lock().clone();
        let mut res: BTreeMap<u64, String> = BTreeMap::new();
        for (id, w) in &wins {
            if let Some(o) = res.insert(*id, w.clone()) {
                return Err(format!("operation {id} was ended twice: {o} and {w}"));
            }
        }
        let mut late_ops = 0; // the tracker's own task may have found some of them
        for (id, short, rx) in rxs {
            let heard = rx.await.ok().map(|r| format!("{r:?}"));
            match res.get(&id) {
                Some(w) if w.starts_with("cancelled") => check!(heard.is_none(), "operation {id} was cancelled, yet its receiver got {heard:?}"),
                Some(w) => check!(heard.as_ref() == Some(w), "operation {id} ended as {w}, its receiver got {heard:?}"),
                None => {
                    check!(short, "operation {id} was ended by nobody, its receiver got {heard:?}");
                    let w = "Error(\"Operation timed out\")".to_string();
                    check!(heard.as_ref() == Some(&w), "operation {id} timed out, its receiver got {heard:?}");
                    res.insert(id, w);
                    late_ops += 1;
                },
            }
        }
        check!(timeouts <= late_ops, "{timeouts} time-outs reported, {late_ops} operations timed out");
        let same = |got: &str, w: &str| match w.strip_prefix("cancelled ") {
            Some(m) => got.contains("cancelled") && got.contains(m),
            None => got == w,
        };
        for w in waiters {
            let (id, got) = w.await.map_err(|e| e.to_string())?;
            let want = &res[&id];
            match got {
                Ok(g) => check!(same(&g, want), "a waiter of {id} heard {g}, it ended as {want}"),
                Err(g) => check!(want.starts_with("cancelled") && same(&g, want), "a waiter of {id} got the error {g}, it ended as {want}"),
            }
            ctx.count("waiters answered", 1);
        }
        let got = together.await.map_err(|e| e.to_string())?.map_err(|e| format!("a waiter of {} operations: {e}", group.len()))?;
        check!(got.len() == group.len(), "a waiter of {} operations heard of {}", group.len(), got.len());
        let by: BTreeMap<u64, String> = got.into_iter().collect();
        for id in &group {
            check!(by.get(id).map(|g| same(g, &res[id])) == Some(true), "the waiter of many heard {:?} of {id}, it ended as {}", by.get(id), res[id]);
        }
        if !flood {
            let mut ev: BTreeMap<u64, String> = BTreeMap::new();
            while let Ok(x) = events.try_recv() {
                let s = format!("{:?}", x.result);
                check!(same(&s, &res[&x.operation_id]), "an event says {s} of {}, it ended as {}", x.operation_id, res[&x.operation_id]);
                if ev.insert(x.operation_id, s).is_some() {
                    return Err(format!("two events of operation {}", x.operation_id));
                }
            }
            check!(ev.len() == n, "{} events for {n} operations", ev.len());
        }
        // the books
        let (mut ok, mut failed, mut gone, mut late) = (0, 0, 0, 0);
        for w in res.values() {
            if w.contains("timed out") {
                late += 1
            } else if w.starts_with("Success") {
                ok += 1
            } else if w.starts_with("Error") {
                failed += 1
            } else {
                gone += 1
            }
        }
        let x = t.metrics();
        let books = (x.total_operations(), x.completed_operations(), x.failed_operations(), x.cancelled_operations(), x.timed_out_operations(), x.pending_operations());
        check!(books == (n as u64, ok, failed, gone, late, 0), "the books say {books:?} (started, done, failed, cancelled, timed out, pending), ended were {:?}", (n, ok, failed, gone, late));
        check!(t.pending_operations_count().await == 0 && t.tracked_operations_count().await == n, "tracker keeps {} pending", t.pending_operations_count().await);
        let s = t.get_operation_stats().await;
        check!((s.completed_count as u64, s.cancelled_count as u64, s.pending_count) == (ok + failed + late, gone, 0), "statistics {s:?}");
        check!(t.complete_operation(ids[0], vec![]).await.is_err() && t.complete_operation(u64::MAX, vec![]).await.is_err(), "an ended or unknown operation was completed");
        ctx.count("operations ended", n as u64);
        ctx.seen(&(2, wins.iter().map(|w| w.0).collect::<Vec<_>>()));
        Ok(())
    })
}

fn page(id: u64, v: u64) -> Vec<u8> {
    let mut d = vec![0; PS];
    for (i, c) in d.chunks_mut(8).enumerate() {
        c.copy_from_slice(&mix(id << 32 ^ v ^ ((i as u64) << 50)).to_le_bytes());
    }
    d
}

/// Tasks share one engine: every request is answered with its own data, appends do not overlap.
fn shared(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let rt = util::runtime_n(4);
    let dir = util::Scratch::new("ioe");
    rt.block_on(async {
        let mut e = engine(&dir).await?;
        let before = rng.chance(1, 3);
        if !before {
            e.start(rng.urange(1, 6));
        }
        let e = Arc::new(tokio::sync::RwLock::new(e));
        let tasks = rng.urange(1, 6);
        let mut js = Vec::new();
        let appended: Arc<parking_lot::Mutex<Vec<(u64, Vec<u8>)>>> = Default::default();
        let hold = if before { Some(e.clone().write_owned().await) } else { None };
        for w in 0..tasks as u64 {
            let (e, appended) = (e.clone(), appended.clone());
            let mut r = rng.fork();
            let direct = rng.chance(1, 3);
            js.push(tokio::spawn(async move {
                let e = e.read().await;
                let mut cur: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
                for v in 0..r.urange(5, 30) as u64 {
                    let id = w * 8 + r.below(4) as u64;
                    let prio = r.below(11) as u8;
                    match r.below(7) {
                        0..=1 => {
                            let p = page(id, v);
                            e.write_page_with_priority(id, &p, prio).await.map_err(|x| format!("write of page {id}: {x}"))?;
                            cur.insert(id, p);
                        },
                        2..=3 => match (e.read_page_with_priority(id, prio).await, cur.get(&id)) {
                            (Ok(g), Some(p)) => check!(&g == p, "page {id} reads back otherwise than written"),
                            (Err(x), Some(_)) => return Err(format!("read of page {id}: {x}")),
                            _ => {},
                        },
                        4..=5 => {
                            let d: Vec<u8> = (0..r.below(60)).map(|_| (w << 5) as u8 | v as u8).collect();
                            let at = if direct { e.append_log_direct(&d).await } else { e.append_log_with_priority(&d, prio).await };
                            let at = at.map_err(|x| format!("append: {x}"))?;
                            let g = e.read_log_with_priority(at, d.len(), prio).await.map_err(|x| format!("log at {at}: {x}"))?;
                            check!(g == d, "the log at {at} is not what was appended there");
                            appended.lock().push((at, d));
                        },
                        _ => {
                            if r.chance(1, 2) { e.sync().await } else { e.sync_log().await }.map_err(|x| format!("sync: {x}"))?;
                        },
                    }
                }
                check!(e.write_page(1 << 40, &[1, 2, 3]).await.is_err(), "a short page was written");
                check!(e.read_page(1 << 30).await.is_err(), "a page past the end was read");
                Ok::<_, String>(cur)
            }));
        }
        if let Some(mut h) = hold {
            h.start(rng.urange(1, 6));
        }
        let mut all = BTreeMap::new();
        for j in js {
            let r = tokio::time::timeout(Duration::from_secs(40), j).await.map_err(|_| "an engine request got no answer".to_string())?;
            all.extend(r.map_err(|e| e.to_string())??);
        }
        let f = std::fs::read(dir.file("db")).map_err(|e| e.to_string())?;
        for (id, p) in &all {
            let at = *id as usize * PS;
            check!(f.len() >= at + PS && &f[at..at + PS] == p, "page {id} in the file is not what was written last");
        }
        let log = std::fs::read(dir.file("log")).map_err(|e| e.to_string())?;
        let mut a = appended.lock().clone();
        a.sort();
        let mut at = 0u64;
        for (o, d) in a.iter().filter(|x| !x.1.is_empty()) {
            check!(*o == at, "an append of {} bytes was told offset {o}, the log ended at {at}", d.len());
            check!(log[*o as usize..].starts_with(d), "the log at {o} is not what was appended there");
            at += d.len() as u64;
        }
        check!(log.len() as u64 == at, "the log has {} bytes, {at} were appended", log.len());
        let mut e = Arc::try_unwrap(e).map_err(|_| "engine still shared".to_string())?.into_inner();
        check!(e.pending_operations_count().await == 0 && e.queue_size().await == 0, "requests left over");
        ctx.count("appends", a.len() as u64);
        ctx.count("pages", all.len() as u64);
        e.stop().await;
        ctx.seen(&(3, a.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()));
        Ok(())
    })
}

/// One client: the log file is a byte string which writes, appends and truncation change.
fn logfile(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let rt = util::runtime_n(2);
    let dir = util::Scratch::new("iol");
    rt.block_on(async {
        let mut e = engine(&dir).await?;
        e.start(rng.urange(1, 3));
        let mut log: Vec<u8> = Vec::new();
        let mut top = 0u64;
        for step in 0..rng.urange(8, 40) {
            let n = if rng.chance(1, 10) { rng.below(9000) } else { rng.below(80) };
            let d = rng.bytes(n);
            match rng.below(9) {
                0..=1 => {
                    let at = rng.below(log.len() + 1);
                    e.write_log(&d, at as u64).await.map_err(|x| format!("write of {n} bytes at {at}: {x}"))?;
                    log.resize(log.len().max(at + n), 0);
                    log[at..at + n].copy_from_slice(&d);
                    ctx.count("log writes", 1);
                },
                2..=4 => {
                    let at = if rng.chance(1, 2) { e.append_log_direct(&d).await } else { e.append_log(&d).await }.map_err(|x| format!("append: {x}"))?;
                    check!(at as usize == log.len(), "step {step}: an append was told {at}, the log ends at {}", log.len());
                    log.extend(&d);
                },
                5 => {
                    let to = if rng.chance(1, 3) { log.len() + rng.below(20) } else { rng.below(log.len() + 1) };
                    e.truncate_log(to as u64).await.map_err(|x| format!("truncate to {to}: {x}"))?;
                    log.truncate(to);
                    ctx.count("log truncations", 1);
                },
                6 => {
                    let id = rng.below(12) as u64;
                    e.write_page(id, &page(id, step as u64)).await.map_err(|x| format!("page {id}: {x}"))?;
                    top = top.max(id + 1);
                    let size = e.get_db_file_size().await.map_err(|x| x.to_string())?;
                    check!(size == top * PS as u64, "the database file has {size} bytes, pages up to {top} were written");
                },
                _ => {
                    let at = rng.below(log.len() + 1);
                    let n = if rng.chance(1, 5) { rng.below(60) } else { rng.below(log.len() - at + 1) };
                    let got = e.read_log(at as u64, n).await;
                    if at + n <= log.len() {
                        let got = got.map_err(|x| format!("read of {n} at {at} of {}: {x}", log.len()))?;
                        check!(got == log[at..at + n], "step {step}: the log at {at} is not what was written there");
                    } else {
                        check!(got.is_err(), "step {step}: {n} bytes read at {at} of a log of {}", log.len());
                    }
                },
            }
            ctx.eval(1);
        }
        let f = std::fs::read(dir.file("log")).map_err(|x| x.to_string())?;
        check!(f == log, "the log file of {} bytes is not what was written to it ({} bytes)", f.len(), log.len());
        e.stop().await;
        ctx.seen(&(6, log.len(), top));
        Ok(())
    })
}

/// Requests queued before the workers start are served by priority; cleared ones get an error.
fn ordered(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let rt = util::runtime_n(2);
    let dir = util::Scratch::new("ioo");
    rt.block_on(async {
        let mut eng = engine(&dir).await?;
        let n = rng.urange(2, 30) as u64;
        let t = eng.completion_tracker();
        let mut ev = t.subscribe_to_events();
        let mut want = Vec::new();
        let cancel = rng.chance(1, 3);
        {
            // poll each request once, so that they are queued in this order
            let eng = &eng;
            let mut futs: Vec<std::pin::Pin<Box<dyn Future<Output = std::io::Result<()>> + '_>>> = Vec::new();
            for i in 0..n {
                let prio = rng.below(4) as u8;
                let p = page(i, 1);
                let mut f: std::pin::Pin<Box<dyn Future<Output = std::io::Result<()>> + '_>> = Box::pin(async move { eng.write_page_with_priority(i, &p, prio).await });
                check!(futures::poll!(&mut f).is_pending(), "a request was answered without workers");
                check!(eng.queue_size().await as u64 == i + 1, "{} requests queued, expected {}", eng.queue_size().await, i + 1);
                want.push((std::cmp::Reverse(prio), i + 1)); // operation ids start at 1
                futs.push(f);
                let t = std::time::Instant::now();
                while t.elapsed().as_nanos() < 200 {}
            }
            if cancel {
                let k = if rng.chance(1, 2) { eng.clear_queue().await } else { eng.cancel_all_pending_operations("test").await };
                check!(k as u64 == n, "{k} of {n} requests cancelled");
                for f in futs {
                    let r = tokio::time::timeout(Duration::from_secs(10), f).await.map_err(|_| "a cancelled request got no answer".to_string())?;
                    check!(r.is_err(), "a cancelled request succeeded");
                }
                check!(eng.queue_size().await == 0 && eng.pending_operations_count().await == 0, "requests left over");
                ctx.count("requests cancelled", n);
                let len = std::fs::metadata(dir.file("db")).map_err(|e| e.to_string())?.len();
                check!(len == 0, "a cancelled write reached the file");
                return Ok(());
            }
        }
        eng.start(1);
        let mut got = Vec::new();
        while (got.len() as u64) < n {
            match tokio::time::timeout(Duration::from_secs(10), ev.recv()).await {
                Ok(Ok(x)) => got.push(x.operation_id),
                x => return Err(format!("{} of {n} requests ended ({x:?})", got.len())),
            }
        }
        want.sort();
        let want: Vec<u64> = want.into_iter().map(|w| w.1).collect();
        check!(got == want, "one worker served {got:?}, the priorities say {want:?}");
        eng.stop().await;
        ctx.count("requests served in order", n);
        ctx.seen(&(4, got));
        Ok(())
    })
}

/// Compressed data expands to exactly what went in.
fn compression(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let mut e = CompressionEngine::new();
    let (mut before, mut after) = (0u64, 0u64);
    for _ in 0..rng.urange(1, 8) {
        let n = match rng.below(6) {
            0 => rng.below(4),
            1 => 4096,
            2 => rng.below(70_000),
            _ => rng.below(600),
        };
        let d: Vec<u8> = match rng.below(5) {
            0 => vec![*rng.pick(&[0u8, 0xff, 0xf0, 0xf1, 7]); n],
            1 => rng.bytes(n),
            2 => (0..n).map(|i| (i / 7 % 5) as u8).collect(),
            3 => (0..n).map(|i| if i % 3 == 0 { 0xff } else { rng.below(3) as u8 }).collect(),
            _ => {
                let mut d = rng.bytes(n);
                if n > 1 {
                    d[0] = *rng.pick(&[0xf0, 0xf1, 0xff]);
                    d[1] = *rng.pick(&[0, 0xfe, 4]);
                }
                d
            },
        };
        let alg = *rng.pick(&[CompressionAlgorithm::LZ4, CompressionAlgorithm::Zstd, CompressionAlgorithm::None]);
        let level = rng.below(8) as u32;
        let c = e.compress_data(&d, alg, level);
        before += d.len() as u64;
        after += c.len() as u64;
        if alg == CompressionAlgorithm::None {
            check!(c == d, "without an algorithm the data changed");
        } else {
            let b = e.decompress_data(&c);
            check!(b == d, "{alg:?} level {level}: {} bytes came back as {} others (first bytes {:?})", d.len(), b.len(), &d[..d.len().min(8)]);
            if n >= 4096 && d.iter().all(|b| *b == d[0]) {
                check!(c.len() < d.len() / 4, "{alg:?} made {} bytes of {} equal ones", c.len(), d.len());
            }
        }
        let s = e.get_stats();
        check!((s.0, s.1) == (before, after), "statistics {s:?}, expected {before} -> {after}");
        if after > 0 {
            check!((s.2 - before as f64 / after as f64).abs() < 1e-9 && e.get_compression_ratio() == s.2, "ratio {} of {before}/{after}", s.2);
        }
        // blocks of the format before the algorithms had marks still expand
        if d.first() != Some(&0xf0) && d.first() != Some(&0xf1) {
            let mut old = Vec::new();
            if n > 0 && d.iter().all(|b| *b == 0) {
                old.extend([0xff, 0xfe]);
                old.extend((n as u32).to_le_bytes());
            } else {
                let mut i = 0;
                while i < n {
                    let run = d[i..].iter().take_while(|b| **b == d[i]).count().min(255);
                    if run >= 4 && run != 254 {
                        old.extend([0xff, run as u8, d[i]]);
                        i += run;
                    } else {
                        old.push(d[i]);
                        if d[i] == 0xff {
                            old.push(0);
                        }
                        i += 1;
                    }
                }
            }
            let b = e.decompress_data(&old);
            check!(b == d, "{} bytes packed as runs came back as {} others (packed first bytes {:?})", d.len(), b.len(), &old[..old.len().min(12)]);
            ctx.count("run-length blocks", 1);
        }
        ctx.count("blocks compressed", 1);
        ctx.seen(&(5, n, level, d.first().copied()));
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("online monitor: the priority queue against a list sorted by priority and arrival");
    ctx.rule("racing complete, fail, cancel and time-out calls on each operation: exactly one wins; the receiver, every waiter and the one event tell its result; the counters add up");
    ctx.rule("tasks on one engine: every answer belongs to its request, appends are disjoint and contiguous, the files hold the last writes; queued requests run by priority, cancelled ones fail and leave no trace");
    ctx.rule("compressed blocks expand to the bytes that went in");
    ctx.assume("arrivals in the queue are at least 200 ns apart; data stored without compression is not given to the decompressor");
    ctx.explore("queue", 6, 1.5, 60, u64::MAX, queue);
    ctx.explore("tracker", 3, 3.0, 30, u64::MAX, tracker);
    ctx.explore("shared", 3, 3.0, 20, u64::MAX, shared);
    ctx.explore("ordered", 4, 2.0, 20, u64::MAX, ordered);
    ctx.rule("the log file is exactly what writes, appends and truncation made it");
    ctx.explore("logfile", 4, 1.5, 40, u64::MAX, logfile);
    ctx.explore("compression", 8, 1.5, 60, u64::MAX, compression);
}

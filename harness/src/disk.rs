//! P13: the asynchronous disk manager as a register per page, under every configuration.
use ferrite::common::config::{DB_PAGE_SIZE, PageId};
use ferrite::storage::disk::async_disk::config::{DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::{Rng, mix};
use crate::sys;
use crate::util;

const PS: usize = DB_PAGE_SIZE as usize;

fn config(rng: &mut Rng) -> DiskManagerConfig {
    let hot = rng.range(0, 5) as f64 / 10.0;
    DiskManagerConfig {
        io_threads: rng.urange(1, 5),
        batch_size: *rng.pick(&[1, 2, 3, 8, 64]),
        direct_io: rng.chance(1, 2),
        cache_size_mb: *rng.pick(&[0, 1, 2, 3, 5, 10, 30, 512]), // counts pages
        hot_cache_ratio: hot,
        warm_cache_ratio: rng.range(0, 5) as f64 / 10.0,
        write_buffer_size_mb: *rng.pick(&[0, 1, 64]),
        flush_threshold_pages: *rng.pick(&[1, 2, 5, 16, 128]),
        flush_interval_ms: *rng.pick(&[0, 1, 100, 100_000]),
        compression_enabled: rng.chance(1, 3),
        fsync_policy: rng
            .pick(&[
                FsyncPolicy::Never,
                FsyncPolicy::OnFlush,
                FsyncPolicy::PerWrite,
                FsyncPolicy::Periodic(Duration::from_millis(5)),
            ])
            .clone(),
        durability_level: rng
            .pick(&[DurabilityLevel::None, DurabilityLevel::Buffer, DurabilityLevel::Sync, DurabilityLevel::Durable])
            .clone(),
        wal_enabled: rng.chance(1, 2),
        work_stealing_enabled: rng.chance(1, 2),
        deduplication_enabled: rng.chance(1, 2),
        prefetch_enabled: rng.chance(1, 2),
        ..DiskManagerConfig::default()
    }
}

/// Version `v` of page `id`, or one of a few images that several pages share.
fn image(id: PageId, v: u64) -> Vec<u8> {
    if v % 5 == 0 {
        return vec![(v / 5 % 3) as u8; PS];
    }
    let mut d = vec![0; PS];
    for (i, c) in d.chunks_mut(8).enumerate() {
        c.copy_from_slice(&mix(id ^ (v << 20) ^ ((i as u64) << 44)).to_le_bytes());
    }
    d[..8].copy_from_slice(&v.to_le_bytes());
    d
}

fn diff(a: &[u8], b: &[u8]) -> String {
    format!("{} bytes for {}, first difference {:?}", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y))
}

async fn open(dir: &util::Scratch, c: &DiskManagerConfig) -> Result<AsyncDiskManager, String> {
    AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), c.clone()).await.map_err(|e| format!("open: {e}"))
}

/// Writes to the watched file since its last sync.
fn unsynced(h: &sys::Handle) -> usize {
    let mut ev = h.w.events.lock();
    let n = ev.iter().rev().take_while(|(_, e)| matches!(e, sys::Ev::Write(..))).count();
    ev.clear();
    n
}

fn model(ctx: &Ctx, rng: &mut Rng) -> Res {
    let rt = util::runtime_n(2);
    let dir = util::Scratch::new("disk");
    let mut c = config(rng);
    let mut dm = rt.block_on(open(&dir, &c))?;
    let h = sys::watch(&dir.file("t.db"));
    h.w.record.store(true, Ordering::SeqCst);
    let pages = *rng.pick(&[2u64, 4, 10, 40]);
    let mut cur: BTreeMap<PageId, Vec<u8>> = BTreeMap::new();
    let mut on_disk: BTreeMap<PageId, Vec<Vec<u8>>> = BTreeMap::new(); // flushed image, then newer ones
    let mut v = 1u64;
    let n = rng.urange(10, 150);
    for step in 0..n {
        ctx.count("steps", 1);
        match rng.below(20) {
            0..=5 => {
                let id = rng.below(pages as usize) as u64;
                v += 1;
                let d = if rng.chance(1, 6) && cur.contains_key(&id) { cur[&id].clone() } else { image(id, v) };
                rt.block_on(dm.write_page(id, d.clone())).map_err(|e| format!("step {step}: write of page {id}: {e}"))?;
                on_disk.entry(id).or_default().push(d.clone());
                cur.insert(id, d);
            },
            6 | 7 => {
                let mut batch = vec![];
                for _ in 0..rng.urange(1, 12) {
                    let id = rng.below(pages as usize) as u64;
                    v += 1;
                    batch.push((id, image(id, v)));
                }
                rt.block_on(dm.write_pages_batch(batch.clone())).map_err(|e| format!("step {step}: batch write: {e}"))?;
                for (id, d) in batch {
                    on_disk.entry(id).or_default().push(d.clone());
                    cur.insert(id, d);
                }
            },
            8..=13 => {
                let id = rng.below(pages as usize) as u64;
                let times = if rng.chance(1, 4) { rng.urange(2, 14) } else { 1 };
                for _ in 0..times {
                    let r = rt.block_on(dm.read_page(id));
                    if let Some(want) = cur.get(&id) {
                        let got = r.map_err(|e| format!("step {step}: read of page {id}: {e}"))?;
                        check!(&got == want, "step {step}: page {id} was read as something else than the last write ({}) with {c:?}", diff(&got, want));
                        ctx.count("reads", 1);
                    }
                }
            },
            14 | 15 => {
                let ids: Vec<PageId> = (0..rng.urange(1, 20)).map(|_| rng.below(pages as usize) as u64).filter(|i| cur.contains_key(i)).collect();
                let got = rt.block_on(dm.read_pages_batch(ids.clone())).map_err(|e| format!("step {step}: batch read of {ids:?}: {e}"))?;
                check!(got.len() == ids.len(), "step {step}: {} pages for a batch of {}", got.len(), ids.len());
                for (id, d) in ids.iter().zip(&got) {
                    check!(d == &cur[id], "step {step}: batch read {ids:?}: page {id} is not the last write ({}) with {c:?}", diff(d, &cur[id]));
                    ctx.count("reads", 1);
                }
            },
            16 => {
                let id = rng.below(pages as usize) as u64;
                let len = *rng.pick(&[0, 1, PS - 1, PS + 1, 2 * PS]);
                check!(rt.block_on(dm.write_page(id, vec![7; len])).is_err(), "step {step}: a page of {len} bytes was accepted");
            },
            17 => {
                let all = rng.chance(1, 2);
                let r = if all { rt.block_on(dm.force_flush_all()) } else { rt.block_on(dm.flush()) };
                r.map_err(|e| format!("step {step}: flush: {e}"))?;
                if all || !matches!(c.fsync_policy, FsyncPolicy::Never) {
                    let late = unsynced(&h);
                    check!(late == 0, "step {step}: {late} writes to the file were not synced when the flush (force={all}) returned, with {c:?}");
                    ctx.count("flushes checked for a sync", 1);
                }
                let f = std::fs::read(dir.file("t.db")).map_err(|e| e.to_string())?;
                for (id, want) in &cur {
                    let at = *id as usize * PS;
                    check!(f.len() >= at + PS && &f[at..at + PS] == want, "step {step}: page {id} is not in the file after a flush (force={all}) with {c:?}");
                    on_disk.insert(*id, vec![want.clone()]);
                }
                ctx.count("flushes checked in the file", 1);
            },
            18 => {
                // the file may hold any version since the flush, never an older one or a mixture
                let f = std::fs::read(dir.file("t.db")).map_err(|e| e.to_string())?;
                for (id, ok) in &on_disk {
                    let at = *id as usize * PS;
                    if f.len() < at + PS {
                        continue;
                    }
                    let got = &f[at..at + PS];
                    let never = vec![0; PS];
                    check!(ok.iter().any(|o| o == got) || got == never, "step {step}: the file holds an old version or a mixture for page {id} with {c:?}");
                }
            },
            _ => {
                if rng.chance(1, 2) {
                    rt.block_on(dm.shutdown()).map_err(|e| format!("step {step}: shutdown: {e}"))?;
                    for id in [rng.below(12) as u64, 1_000_000] {
                        let got = rt.block_on(async { tokio::time::timeout(Duration::from_secs(10), dm.read_page(id)).await });
                        match got {
                            Err(_) => return Err(format!("step {step}: a read of page {id} after the shutdown gets no answer with {c:?}")),
                            Ok(Ok(d)) => check!(cur.get(&id).is_none_or(|w| w == &d), "step {step}: page {id} changed with the shutdown"),
                            Ok(Err(_)) => ctx.count("reads refused after shutdown", 1),
                        }
                        let got = rt.block_on(async { tokio::time::timeout(Duration::from_secs(10), dm.read_pages_batch(vec![id, id + 1])).await });
                        check!(got.is_ok(), "step {step}: a batch read after the shutdown gets no answer with {c:?}");
                    }
                } else {
                    rt.block_on(dm.flush()).map_err(|e| format!("step {step}: flush: {e}"))?;
                }
                drop(dm);
                c = config(rng);
                dm = rt.block_on(open(&dir, &c))?;
                for (id, want) in &cur {
                    if rng.chance(1, 2) {
                        let got = rt.block_on(dm.read_page(*id)).map_err(|e| format!("step {step}: page {id} after reopening: {e}"))?;
                        check!(&got == want, "step {step}: page {id} changed over a flush and reopening ({}) with {c:?}", diff(&got, want));
                    }
                }
                for (id, want) in &cur {
                    on_disk.insert(*id, vec![want.clone()]);
                }
                ctx.count("reopened", 1);
            },
        }
    }
    ctx.seen(&format!("{c:?}"));
    Ok(())
}

/// One writer per page, any number of readers: each page is an atomic register.
pub fn registers(ctx: &Ctx, rng: &mut Rng) -> Res {
    register_history(ctx, rng, false)
}

/// `crowded`: many readers of few cached pages, on more threads than there are processors.
fn register_history(ctx: &Ctx, rng: &mut Rng, crowded: bool) -> Res {
    let rt = util::runtime_n(if crowded { rng.urange(6, 16) } else { rng.urange(2, 4) });
    let dir = util::Scratch::new("diskc");
    let mut c = config(rng);
    if crowded {
        c.cache_size_mb = *rng.pick(&[10, 30, 512]);
    }
    let dm = Arc::new(rt.block_on(open(&dir, &c))?);
    let pages = if crowded { rng.urange(1, 3) } else { rng.urange(2, 12) };
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..pages).map(|_| AtomicU64::new(0)).collect());
    let acked: Arc<Vec<AtomicU64>> = Arc::new((0..pages).map(|_| AtomicU64::new(0)).collect());
    let stamp = |id: usize, v: u64| -> Vec<u8> {
        let mut d = vec![0; PS];
        for c in d.chunks_mut(16) {
            c[..8].copy_from_slice(&v.to_le_bytes());
            c[8..].copy_from_slice(&(id as u64).to_le_bytes());
        }
        d
    };
    fn parse(id: usize, d: &[u8]) -> Result<u64, String> {
        check!(d.len() == PS, "page {id} has {} bytes", d.len());
        check!(d.chunks(16).all(|c| c == &d[..16]), "page {id} is a mixture of two writes");
        let v = u64::from_le_bytes(d[..8].try_into().unwrap());
        let p = u64::from_le_bytes(d[8..16].try_into().unwrap());
        check!(v == 0 || p == id as u64, "page {id} holds page {p}");
        Ok(v)
    }
    rt.block_on(async {
        for p in 0..pages {
            dm.write_page(p as u64, stamp(p, 0)).await.map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(())
    })?;
    let writers = rng.urange(1, 3);
    let rounds = rng.urange(20, 120) as u64;
    let mut tasks = vec![];
    for w in 0..writers {
        let (dm, started, acked, mut r) = (dm.clone(), started.clone(), acked.clone(), rng.fork());
        tasks.push(rt.spawn(async move {
            let mine: Vec<usize> = (0..pages).filter(|p| p % writers == w).collect();
            for _ in 0..rounds {
                if mine.is_empty() {
                    break;
                }
                if r.chance(1, 4) {
                    let mut batch = vec![];
                    let mut vs = vec![];
                    for p in &mine {
                        if r.chance(1, 2) {
                            let v = started[*p].fetch_add(1, Ordering::SeqCst) + 1;
                            batch.push((*p as u64, stamp(*p, v)));
                            vs.push((*p, v));
                        }
                    }
                    dm.write_pages_batch(batch).await.map_err(|e| format!("batch write: {e}"))?;
                    for (p, v) in vs {
                        acked[p].store(v, Ordering::SeqCst);
                    }
                } else {
                    let p = *r.pick(&mine);
                    let v = started[p].fetch_add(1, Ordering::SeqCst) + 1;
                    dm.write_page(p as u64, stamp(p, v)).await.map_err(|e| format!("write: {e}"))?;
                    acked[p].store(v, Ordering::SeqCst);
                }
                if r.chance(1, 10) {
                    dm.flush().await.map_err(|e| format!("flush: {e}"))?;
                }
                if r.chance(1, 3) {
                    tokio::task::yield_now().await;
                }
            }
            Ok::<u64, String>(rounds)
        }));
    }
    for _ in 0..if crowded { rng.urange(6, 16) } else { rng.urange(1, 4) } {
        let (dm, started, acked, mut r) = (dm.clone(), started.clone(), acked.clone(), rng.fork());
        tasks.push(rt.spawn(async move {
            let mut last = vec![0u64; pages];
            for _ in 0..rounds {
                let ids: Vec<usize> = (0..if r.chance(1, 3) { r.urange(2, 6) } else { 1 }).map(|_| r.below(pages)).collect();
                let lo: Vec<u64> = ids.iter().map(|p| acked[*p].load(Ordering::SeqCst).max(last[*p])).collect();
                let got = if ids.len() == 1 {
                    vec![dm.read_page(ids[0] as u64).await.map_err(|e| format!("read of page {}: {e}", ids[0]))?]
                } else {
                    dm.read_pages_batch(ids.iter().map(|i| *i as u64).collect()).await.map_err(|e| format!("batch read: {e}"))?
                };
                check!(got.len() == ids.len(), "{} pages for {}", got.len(), ids.len());
                for ((p, d), lo) in ids.iter().zip(&got).zip(lo) {
                    let v = parse(*p, d)?;
                    let hi = started[*p].load(Ordering::SeqCst);
                    check!(v >= lo, "a read of page {p} that began after version {lo} was accepted or read returned version {v}");
                    check!(v <= hi, "page {p} has version {v}, only {hi} were written");
                    last[*p] = last[*p].max(v);
                }
                if r.chance(1, 3) {
                    tokio::task::yield_now().await;
                }
            }
            Ok(rounds)
        }));
    }
    for t in tasks {
        let n = rt.block_on(t).map_err(|e| format!("task: {e}"))?.map_err(|e| format!("{e} with {c:?}"))?;
        ctx.count("concurrent operations", n);
    }
    rt.block_on(dm.flush()).map_err(|e| format!("flush: {e}"))?;
    let f = std::fs::read(dir.file("t.db")).map_err(|e| e.to_string())?;
    for p in 0..pages {
        let v = parse(p, &f[p * PS..(p + 1) * PS]).map_err(|e| format!("in the file: {e}"))?;
        let want = acked[p].load(Ordering::SeqCst);
        check!(v == want, "after all writes and a flush the file has version {v} of page {p}, the last written is {want}, with {c:?}");
        let d = rt.block_on(dm.read_page(p as u64)).map_err(|e| e.to_string())?;
        check!(parse(p, &d)? == want, "page {p} reads as version {}, the last written is {want}", parse(p, &d)?);
    }
    Ok(())
}

/// A device that accepts nothing: no flush may claim success, and nothing accepted is forgotten.
fn full_device(ctx: &Ctx, rng: &mut Rng) -> Res {
    let rt = util::runtime_n(2);
    let dir = util::Scratch::new("full");
    std::os::unix::fs::symlink("/dev/full", dir.file("t.db")).map_err(|e| e.to_string())?;
    let mut c = config(rng);
    c.direct_io = false;
    let Ok(dm) = rt.block_on(open(&dir, &c)) else { return Ok(()) };
    let id = rng.below(5) as u64;
    let d = image(id, 1 + rng.below(1000) as u64);
    let w = rt.block_on(dm.write_page(id, d.clone()));
    let f = rt.block_on(dm.flush());
    check!(w.is_err() || f.is_err(), "a page written to a full device was reported as flushed, with {c:?}");
    let f = rt.block_on(dm.force_flush_all());
    check!(f.is_err(), "a second flush to a full device was reported as done, with {c:?}");
    if w.is_ok() {
        let got = rt.block_on(dm.read_page(id)).map_err(|e| format!("read after a failed flush: {e}"))?;
        check!(got == d, "the accepted write was forgotten after a failed flush, with {c:?}");
    }
    ctx.count("failed flushes", 1);
    Ok(())
}

/// A device that runs full or fails to sync part of the time: a flush that says it is done has put
/// everything in the file, reads never show anything but the last write, and once the device
/// works again a flush loses nothing.
fn faulty(ctx: &Ctx, rng: &mut Rng) -> Res {
    let rt = util::runtime_n(2);
    let dir = util::Scratch::new("faulty");
    let mut c = config(rng);
    c.direct_io = false;
    let dm = rt.block_on(open(&dir, &c))?;
    let h = sys::watch(&dir.file("t.db"));
    let pages = *rng.pick(&[2u64, 4, 10, 30]);
    let mut cur: BTreeMap<PageId, Vec<u8>> = BTreeMap::new();
    let (mut v, mut faulted) = (1u64, 0);
    for round in 0..rng.urange(1, 5) {
        // a working, then a faulty, then again a working device
        for phase in 0..2 {
            let broken = phase == 0;
            if broken {
                h.w.transient.store(rng.chance(1, 2), Ordering::SeqCst);
                if rng.chance(2, 3) {
                    h.w.room.store(rng.below(8 * PS) as i64, Ordering::SeqCst);
                } else {
                    h.w.syncs_left.store(rng.below(3) as i64, Ordering::SeqCst);
                }
            } else {
                h.w.room.store(-1, Ordering::SeqCst);
                h.w.syncs_left.store(-1, Ordering::SeqCst);
            }
            for step in 0..rng.urange(1, 25) {
                match rng.below(10) {
                    0..=5 => {
                        let mut batch = vec![];
                        for _ in 0..if rng.chance(1, 3) { rng.urange(1, 12) } else { 1 } {
                            v += 1;
                            let id = rng.below(pages as usize) as u64;
                            batch.push((id, image(id, v)));
                        }
                        let r = if batch.len() == 1 { rt.block_on(dm.write_page(batch[0].0, batch[0].1.clone())) } else { rt.block_on(dm.write_pages_batch(batch.clone())) };
                        match r {
                            Ok(()) => cur.extend(batch),
                            Err(e) => {
                                check!(broken, "round {round} step {step}: a write to a working device failed: {e} with {c:?}");
                                // each page of a refused write keeps its old contents or has the new ones
                                let new: std::collections::BTreeSet<(PageId, Vec<u8>)> = batch.into_iter().collect();
                                for id in new.iter().map(|n| n.0).collect::<std::collections::BTreeSet<_>>() {
                                    if let Ok(got) = rt.block_on(dm.read_page(id)) {
                                        check!(new.contains(&(id, got.clone())) || cur.get(&id).is_none_or(|o| o == &got), "round {round} step {step}: after a failed write page {id} has neither its old nor its new contents with {c:?}");
                                        cur.insert(id, got);
                                    } else {
                                        cur.remove(&id);
                                    }
                                }
                                ctx.count("writes refused", 1);
                            },
                        }
                    },
                    6 | 7 => {
                        let id = rng.below(pages as usize) as u64;
                        if let Some(want) = cur.get(&id) {
                            let got = rt.block_on(dm.read_page(id)).map_err(|e| format!("round {round} step {step}: read of page {id}: {e} with {c:?}"))?;
                            check!(&got == want, "round {round} step {step}: page {id} was read as something else than the last write ({}) with {c:?}", diff(&got, want));
                        }
                    },
                    _ => {
                        let all = rng.chance(1, 2);
                        let r = if all { rt.block_on(dm.force_flush_all()) } else { rt.block_on(dm.flush()) };
                        check!(r.is_ok() || broken, "round {round} step {step}: a flush (force={all}) to a working device failed: {:?} with {c:?}", r.err());
                        if r.is_err() {
                            ctx.count("flushes refused", 1);
                            faulted += 1;
                            continue;
                        }
                        let f = std::fs::read(dir.file("t.db")).map_err(|e| e.to_string())?;
                        for (id, want) in &cur {
                            let at = *id as usize * PS;
                            check!(f.len() >= at + PS && &f[at..at + PS] == want, "round {round} step {step}: page {id} is not in the file after a flush (force={all}) that succeeded with {c:?}");
                        }
                        ctx.count("flushes checked in the file", 1);
                    },
                }
            }
        }
    }
    for id in 0..pages {
        if let Some(want) = cur.get(&id) {
            let got = rt.block_on(dm.read_page(id)).map_err(|e| format!("read of page {id} at the end: {e} with {c:?}"))?;
            check!(&got == want, "page {id} was read at the end as something else than the last write ({}) with {c:?}", diff(&got, want));
        }
    }
    ctx.seen(&("faulty", format!("{c:?}"), faulted, h.w.faults.load(Ordering::SeqCst)));
    ctx.count("device faults hit", h.w.faults.load(Ordering::SeqCst));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("reads return the last accepted write (batches in order), flush puts exactly that in the file, reopening keeps it; under tasks each page is an atomic register; a failed flush is reported and forgets nothing");
    ctx.assume("one writer per page at a time in the threaded part; the file is looked at through the file system, not after a power cut");
    ctx.explore("model", 4, 7.0, 60, 2000, |c, r, _| model(c, r));
    ctx.explore("registers", 3, 7.0, 30, 2000, |c, r, _| registers(c, r));
    ctx.explore("crowded", 2, 4.0, 30, 2000, |c, r, _| register_history(c, r, true));
    ctx.explore("faulty", 3, 4.0, 40, 2000, |c, r, _| faulty(c, r));
    ctx.explore("full device", 2, 1.5, 10, 100, |c, r, _| full_device(c, r));
}

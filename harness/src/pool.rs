//! P06: the buffer pool against a page model; then many threads on a small pool.
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::config::{DB_PAGE_SIZE, PageId};
use ferrite::common::exception::DeletePageError;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{BasicPage, PAGE_TYPE_OFFSET, Page, PageTrait};
use parking_lot::RwLock;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::{Rng, mix};
use crate::util;

const PS: usize = DB_PAGE_SIZE as usize;
type Image = [u8; PS];

pub struct Pool {
    pub rt: Arc<tokio::runtime::Runtime>,
    pub bpm: Arc<BufferPoolManager>,
    pub disk: Arc<AsyncDiskManager>,
    #[allow(dead_code)]
    pub dir: util::Scratch,
}
impl Pool {
    pub fn new(frames: usize, k: usize) -> Pool {
        let rt = util::runtime_n(2);
        let dir = util::Scratch::new("pool");
        let disk = rt.block_on(async {
            Arc::new(
                AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default())
                    .await
                    .expect("disk manager"),
            )
        });
        let bpm = Arc::new(
            BufferPoolManager::new(frames, disk.clone(), Arc::new(RwLock::new(LRUKReplacer::new(frames, k))))
                .expect("pool"),
        );
        Pool { rt, bpm, disk, dir }
    }
}

/// A pool over a disk manager someone else made.
pub fn plain(frames: usize, disk: &Arc<AsyncDiskManager>) -> Result<Arc<BufferPoolManager>, String> {
    BufferPoolManager::new(frames, disk.clone(), Arc::new(RwLock::new(LRUKReplacer::new(frames, 2))))
        .map(Arc::new)
        .map_err(|e| format!("pool: {e:?}"))
}

fn fill(image: &mut Image, rng: &mut Rng) {
    let ty = image[PAGE_TYPE_OFFSET];
    let s = rng.next();
    match rng.below(3) {
        0 => {
            for (i, c) in image.chunks_mut(8).enumerate() {
                c.copy_from_slice(&mix(s ^ i as u64).to_le_bytes()[..c.len()]);
            }
        },
        1 => image.fill(s as u8),
        _ => {
            let at = rng.below(PS);
            image[at] = image[at].wrapping_add(1 + (s >> 8) as u8 % 200);
        },
    }
    image[PAGE_TYPE_OFFSET] = ty;
}

/// The bookkeeping of the pool, looked at while nothing runs.
fn audit(p: &Pool, frames: usize, guards: &[(PageId, PageGuard<BasicPage>)], live: &BTreeMap<PageId, Box<Image>>) -> Res {
    let table = p.bpm.get_page_table();
    let table = table.read();
    let pages = p.bpm.get_pages();
    let pages = pages.read();
    let used: HashSet<_> = table.values().collect();
    check!(used.len() == table.len(), "two pages share a frame: {table:?}");
    check!(table.len() <= frames, "{} pages in {frames} frames", table.len());
    check!(
        table.len() + p.bpm.get_free_list_size() == frames,
        "frames leaked: {} used + {} free of {frames}",
        table.len(),
        p.bpm.get_free_list_size()
    );
    for (pid, f) in table.iter() {
        check!(live.contains_key(pid), "page {pid} is in the pool but was deleted");
        let pg = pages[*f as usize].as_ref().ok_or(format!("frame {f} of page {pid} is empty"))?;
        let pg = pg.read();
        let n = guards.iter().filter(|g| g.0 == *pid).count();
        check!(pg.get_page_id() == *pid, "frame {f} mapped to page {pid} holds page {}", pg.get_page_id());
        check!(pg.get_pin_count() as usize == n, "page {pid} has pin count {} with {n} guards", pg.get_pin_count());
        check!(pg.get_data()[..] == live[pid][..], "page {pid} changed in the pool (first difference at byte {:?})", pg.get_data().iter().zip(live[pid].iter()).position(|(a, b)| a != b));
    }
    for (pid, g) in guards {
        check!(table.contains_key(pid), "pinned page {pid} was evicted");
        check!(g.read().get_data()[..] == live[pid][..], "a guard of page {pid} looks at other bytes than the pool");
    }
    Ok(())
}

fn model(ctx: &Ctx, rng: &mut Rng) -> Res {
    let frames = rng.urange(1, 9);
    let p = Pool::new(frames, rng.urange(1, 4));
    let mut live: BTreeMap<PageId, Box<Image>> = BTreeMap::new();
    let mut ids: HashSet<PageId> = HashSet::new();
    let mut written: HashSet<PageId> = HashSet::new();
    let mut guards: Vec<(PageId, PageGuard<BasicPage>)> = vec![];
    let n = rng.urange(20, 160);
    let (mut evict, mut full) = (0u64, 0u64);
    for step in 0..n {
        let pinned: HashSet<PageId> = guards.iter().map(|g| g.0).collect();
        let room = pinned.len() < frames;
        let before: HashSet<PageId> = p.bpm.get_page_table().read().keys().copied().collect();
        let pick = |r: &mut Rng| {
            let v: Vec<PageId> = live.keys().copied().collect();
            if v.is_empty() { None } else { Some(*r.pick(&v)) }
        };
        match rng.below(12) {
            0 | 1 => {
                let g = if rng.chance(1, 2) { p.bpm.new_page::<BasicPage>() } else { p.bpm.new_page_with_options::<BasicPage, _>(|id| BasicPage::new(id)) };
                check!(g.is_some() == room, "step {step}: new page = {} with {} of {frames} frames pinned", g.is_some(), pinned.len());
                match g {
                    Some(g) => {
                        let id = g.get_page_id();
                        check!(ids.insert(id), "page id {id} handed out twice");
                        check!(g.read().get_page_id() == id, "guard of page {id} is page {}", g.read().get_page_id());
                        if rng.chance(3, 4) {
                            fill(g.write().get_data_mut(), rng);
                            written.insert(id);
                        }
                        live.insert(id, Box::new(*g.read().get_data()));
                        guards.push((id, g));
                    },
                    None => full += 1,
                }
            },
            2..=5 => {
                let Some(id) = pick(rng) else { continue };
                let ok = room || pinned.contains(&id);
                let g = p.bpm.fetch_page::<BasicPage>(id);
                check!(g.is_some() == ok, "step {step}: fetch of page {id} = {} with {} of {frames} frames pinned", g.is_some(), pinned.len());
                if let Some(g) = g {
                    check!(g.read().get_data()[..] == live[&id][..], "page {id} came back with other bytes than were written (in the pool before: {}, first difference at byte {:?})", before.contains(&id), g.read().get_data().iter().zip(live[&id].iter()).position(|(a, b)| a != b));
                    if rng.chance(1, 2) {
                        fill(g.write().get_data_mut(), rng);
                        written.insert(id);
                        *live.get_mut(&id).unwrap() = Box::new(*g.read().get_data());
                    }
                    if rng.chance(1, 2) {
                        guards.push((id, g));
                    }
                }
            },
            6 | 7 if !guards.is_empty() => {
                let i = rng.below(guards.len());
                if rng.chance(1, 3) {
                    let (id, g) = &guards[i];
                    fill(g.write().get_data_mut(), rng);
                    written.insert(*id);
                    *live.get_mut(id).unwrap() = Box::new(*g.read().get_data());
                }
                drop(guards.swap_remove(i));
            },
            8 if rng.chance(1, 2) => {
                let Some(id) = pick(rng) else { continue };
                let mut img = live[&id].clone();
                fill(&mut img, rng);
                p.bpm.write_page(id, *img);
                // A page outside the pool is not written to
                if before.contains(&id) {
                    live.insert(id, img);
                    written.insert(id);
                }
            },
            8 => {
                let Some(id) = pick(rng) else { continue };
                let r = p.bpm.delete_page(id);
                if !before.contains(&id) {
                    check!(matches!(r, Err(DeletePageError::PageNotFound(_))), "delete of page {id}, not in the pool: {r:?}");
                } else if pinned.contains(&id) {
                    check!(matches!(r, Err(DeletePageError::PagePinned(_))), "delete of pinned page {id}: {r:?}");
                } else {
                    check!(r.is_ok(), "delete of unpinned page {id}: {r:?}");
                    live.remove(&id);
                }
            },
            9 => {
                let Some(id) = pick(rng) else { continue };
                let r = p.rt.block_on(p.bpm.flush_page_async(id));
                check!(r.is_ok() == before.contains(&id), "flush of page {id} (in the pool: {}): {r:?}", before.contains(&id));
                if r.is_ok() {
                    let d = p.rt.block_on(p.disk.read_page(id)).map_err(|e| format!("read of flushed page {id}: {e}"))?;
                    check!(d[..] == live[&id][..], "page {id} on disk differs from the page that was flushed");
                }
            },
            10 => {
                if rng.chance(1, 2) {
                    let m = rng.urange(1, 10);
                    let r = p.rt.block_on(p.bpm.flush_dirty_pages_batch_async(m));
                    let r = r.map_err(|e| format!("batch flush: {e}"))?;
                    check!(r <= m, "asked to flush {m} pages, {r} flushed");
                    ctx.count("pages_flushed_in_batches", r as u64);
                    if r < m {
                        // there was room in the batch, so nothing stayed behind
                        for id in p.bpm.get_page_table().read().keys().filter(|id| written.contains(id)) {
                            let d = p.rt.block_on(p.disk.read_page(*id)).map_err(|e| format!("read of page {id} after a batch flush: {e}"))?;
                            check!(d[..] == live[id][..], "page {id} on disk differs after {r} pages were flushed although {m} were asked for");
                        }
                    }
                } else {
                    p.rt.block_on(p.bpm.flush_all_pages_durable()).map_err(|e| format!("flush all: {e}"))?;
                    let file = std::fs::read(p.dir.file("t.db")).map_err(|e| format!("{e}"))?;
                    for id in p.bpm.get_page_table().read().keys() {
                        let d = p.rt.block_on(p.disk.read_page(*id)).map_err(|e| format!("read of flushed page {id}: {e}"))?;
                        check!(d[..] == live[id][..], "page {id} on disk differs after flushing all");
                        let at = *id as usize * PS;
                        check!(file.get(at..at + PS) == Some(&live[id][..]), "page {id} is not in the file after a durable flush of all pages");
                    }
                }
            },
            _ => {
                if rng.chance(1, 3) {
                    // A page is refused under another type and the refusal costs nothing
                    let Some(id) = pick(rng) else { continue };
                    check!(p.bpm.fetch_page::<TablePage>(id).is_none(), "page {id} was handed out as a table page");
                    check!(p.bpm.fetch_page::<BasicPage>(ids.len() as u64 + 5).is_none(), "a page that was never allocated could be fetched");
                } else {
                    let want: Vec<PageId> = (0..rng.urange(1, 4)).filter_map(|_| pick(rng)).collect();
                    let all: HashSet<PageId> = want.iter().copied().chain(pinned.iter().copied()).collect();
                    let got = p.rt.block_on(p.bpm.load_pages_batch::<BasicPage>(want.clone()));
                    check!(got.len() == want.len(), "batch load of {} pages returned {}", want.len(), got.len());
                    if all.len() <= frames {
                        for (id, g) in want.iter().zip(&got) {
                            let g = g.as_ref().ok_or(format!("step {step}: batch load missed page {id} with room for it"))?;
                            check!(g.get_page_id() == *id, "batch load of {want:?}: guard of page {} in the place of page {id}", g.get_page_id());
                            check!(g.read().get_data()[..] == live[id][..], "batch load: page {id} came back with other bytes");
                        }
                    }
                    drop(got);
                }
            },
        }
        evict += before.iter().filter(|id| live.contains_key(id) && !p.bpm.get_page_table().read().contains_key(id)).count() as u64;
        audit(&p, frames, &guards, &live).map_err(|e| format!("step {step}: {e}"))?;
        ctx.seen(&(frames, guards.len(), live.len(), p.bpm.get_free_list_size()));
    }
    drop(guards);
    for (id, img) in &live {
        let g = p.bpm.fetch_page::<BasicPage>(*id).ok_or(format!("page {id} is gone at the end"))?;
        check!(g.read().get_data()[..] == img[..], "page {id} differs at the end");
    }
    if rng.chance(1, 3) {
        // What was written survives an orderly shutdown
        let Pool { rt, bpm, disk, dir } = p;
        let Ok(mut bpm) = Arc::try_unwrap(bpm) else { return Err("the pool is still referenced after all guards are gone".into()) };
        rt.block_on(bpm.shutdown()).map_err(|e| format!("shutdown: {e}"))?;
        let file = std::fs::read(dir.file("t.db")).map_err(|e| format!("{e}"))?;
        for (id, img) in live.iter().filter(|(id, _)| written.contains(id)) {
            let at = *id as usize * PS;
            check!(file.get(at..at + PS) == Some(&img[..]), "page {id} is not in the file of {} pages after the shutdown", file.len() / PS);
        }
        ctx.count("shutdowns", 1);
        drop((bpm, disk));
    }
    ctx.count("evictions", evict);
    ctx.count("full_pool_refusals", full);
    ctx.count("steps", n as u64);
    ctx.sample("model", || json!({"frames": frames, "pages": live.len(), "evictions": evict}));
    Ok(())
}

/// Each thread adds to its own slot of shared pages; slot 0 is the sum of the others.
pub fn stress(ctx: &Ctx, rng: &mut Rng) -> Res {
    let threads = rng.urange(2, 6);
    let flushers = rng.below(3);
    // one pin per worker, one per flusher and what one batch flush pins: then there is always room
    let frames = {
        let mut f = threads + flushers + 2;
        while f < threads + flushers + f / 4 + 1 {
            f += 1;
        }
        f
    };
    let p = Pool::new(frames, rng.urange(1, 3));
    let npages = frames + rng.urange(1, 12);
    let mut ids = vec![];
    for _ in 0..npages {
        ids.push(p.bpm.new_page::<BasicPage>().ok_or("no room for a new page in an unpinned pool")?.get_page_id());
    }
    let rounds = rng.urange(30, 150);
    let done = AtomicBool::new(false);
    let err: parking_lot::Mutex<Option<String>> = Default::default();
    let fail = |e: String| {
        err.lock().get_or_insert(e);
    };
    let misses = AtomicU64::new(0);
    let fresh: parking_lot::Mutex<Vec<(PageId, u64)>> = Default::default();
    // the slots lie anywhere in the page: next to each other or spread over it
    let (base, stride) = {
        let stride = *rng.pick(&[8, 8, 64, 136, (PS - 16) / (threads + 1)]);
        (8 + rng.below(PS - 8 - stride * (threads + 1)), stride)
    };
    let at = |k: usize| base + k * stride;
    let get = |d: &Image, k: usize| u64::from_le_bytes(d[at(k)..at(k) + 8].try_into().unwrap());
    let table = p.bpm.get_page_table();
    let mut totals: Vec<Vec<u64>> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 1..=threads {
            let mut r = rng.fork();
            let (p, ids, fail, err, misses, fresh, table) = (&p, &ids, &fail, &err, &misses, &fresh, &table);
            hs.push(sc.spawn(move || {
                let mut mine = vec![0u64; ids.len()];
                let mut last = vec![vec![0u64; threads + 1]; ids.len()];
                for _ in 0..rounds {
                    if err.lock().is_some() {
                        break;
                    }
                    if r.chance(1, 25) {
                        // a page of our own, read back through whatever the others do to the pool
                        match p.bpm.new_page::<BasicPage>() {
                            None => fail("new page refused although every thread holds at most one pin".into()),
                            Some(g) => {
                                let v = r.next();
                                g.write().get_data_mut()[at(1)..at(1) + 8].copy_from_slice(&v.to_le_bytes());
                                let id = g.get_page_id();
                                let mut f = fresh.lock();
                                if f.iter().any(|x| x.0 == id) || ids.contains(&id) {
                                    fail(format!("page id {id} handed out twice"));
                                }
                                f.push((id, v));
                            },
                        }
                        continue;
                    }
                    let i = r.below(ids.len());
                    if !table.read().contains_key(&ids[i]) {
                        misses.fetch_add(1, Ordering::Relaxed);
                    }
                    let Some(g) = p.bpm.fetch_page::<BasicPage>(ids[i]) else {
                        fail(format!("fetch of page {} refused although every thread holds at most one pin", ids[i]));
                        break;
                    };
                    let look = |d: &Image, last: &mut Vec<u64>| {
                        let mut sum = 0u64;
                        for k in 1..=threads {
                            let v = get(d, k);
                            sum = sum.wrapping_add(v);
                            if v < last[k] {
                                fail(format!("page {}: the counter of thread {k} went back from {} to {v}", ids[i], last[k]));
                            }
                            last[k] = v;
                        }
                        if sum != get(d, 0) {
                            fail(format!("page {}: half of a write is visible", ids[i]));
                        }
                        if last[t] != mine[i] {
                            fail(format!("page {}: thread {t} reads {} after writing {}", ids[i], last[t], mine[i]));
                        }
                    };
                    if r.chance(2, 3) {
                        let mut w = g.write();
                        if w.get_page_id() != ids[i] {
                            fail(format!("guard of page {} is page {}", ids[i], w.get_page_id()));
                        }
                        look(w.get_data(), &mut last[i]);
                        let add = 1 + r.below(3) as u64;
                        for k in [t, 0] {
                            let v = get(w.get_data(), k).wrapping_add(add);
                            w.get_data_mut()[at(k)..at(k) + 8].copy_from_slice(&v.to_le_bytes());
                            if r.chance(1, 16) {
                                std::thread::yield_now();
                            }
                        }
                        mine[i] += add;
                        last[i][t] = mine[i];
                        drop(w);
                    } else {
                        look(g.read().get_data(), &mut last[i]);
                    }
                    if r.chance(1, 30) {
                        std::thread::yield_now();
                    }
                    drop(g);
                }
                mine
            }));
        }
        for _ in 0..flushers {
            let mut r = rng.fork();
            let (p, ids, fail, done) = (&p, &ids, &fail, &done);
            sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    if r.chance(1, 2) {
                        let _ = p.rt.block_on(p.bpm.flush_page_async(*r.pick(ids)));
                    } else if let Err(e) = p.rt.block_on(p.bpm.flush_dirty_pages_batch_async(r.urange(1, 20))) {
                        fail(format!("batch flush: {e}"));
                    }
                    std::thread::yield_now();
                }
            });
        }
        for h in hs {
            match h.join() {
                Ok(v) => totals.push(v),
                Err(_) => fail("a worker panicked".into()),
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    if let Some(e) = err.lock().take() {
        return Err(e);
    }
    for (i, id) in ids.iter().enumerate() {
        let g = p.bpm.fetch_page::<BasicPage>(*id).ok_or(format!("page {id} is gone"))?;
        let d = *g.read().get_data();
        for t in 1..=threads {
            check!(get(&d, t) == totals[t - 1][i], "page {id}: thread {t} added {} in total, the page says {}", totals[t - 1][i], get(&d, t));
        }
        check!(g.read().get_pin_count() == 1, "page {id}: pin count {} with one guard", g.read().get_pin_count());
    }
    for (id, v) in fresh.lock().iter() {
        let g = p.bpm.fetch_page::<BasicPage>(*id).ok_or(format!("page {id} is gone"))?;
        check!(get(g.read().get_data(), 1) == *v, "page {id}: its only write is gone");
    }
    p.rt.block_on(p.bpm.flush_all_pages_durable()).map_err(|e| format!("flush all: {e}"))?;
    let free = p.bpm.get_free_list_size();
    check!(table.read().len() + free == frames, "frames leaked: {} used + {free} free of {frames}", table.read().len());
    for (i, id) in ids.iter().enumerate() {
        let d = p.rt.block_on(p.disk.read_page(*id)).map_err(|e| format!("read of page {id}: {e}"))?;
        let d: Image = d[..].try_into().map_err(|_| "short page")?;
        for t in 1..=threads {
            check!(get(&d, t) == totals[t - 1][i], "page {id} on disk: thread {t} added {} in total, the page says {}", totals[t - 1][i], get(&d, t));
        }
    }
    let m = misses.load(Ordering::Relaxed);
    ctx.count("stress_page_misses", m);
    ctx.count("stress_operations", (threads * rounds) as u64);
    ctx.seen(&(threads, flushers, npages, m));
    ctx.sample("stress", || json!({"threads": threads, "flushers": flushers, "frames": frames, "pages": npages, "rounds": rounds, "misses": m}));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("model: after every step the frame table, free list, pin counts and page bytes agree with a page model; fetch, new, delete, flush, batch calls succeed exactly when the number of pinned pages allows it, and return the last bytes written, through any number of evictions");
    ctx.rule("stress: per-thread counters in shared pages never go back, never show half a write, and end at the sum of what was added, in the pool and on disk, while other threads evict and flush");
    ctx.assume("guards are only released by dropping them (no direct unpin of a page that is still guarded); the disk accepts every write");
    ctx.explore("model", 4, 9.0, 40, 100_000, |c, r, _| model(c, r));
    ctx.explore("stress", 2, 10.0, 10, 100_000, |c, r, _| stress(c, r));
}

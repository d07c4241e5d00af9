//! P12: the disk caches against reference models of their policies.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

use ferrite::storage::disk::async_disk::cache::cache_manager::CacheManager;
use ferrite::storage::disk::async_disk::cache::cache_traits::*;
use ferrite::storage::disk::async_disk::cache::fifo::FIFOCache;
use ferrite::storage::disk::async_disk::cache::heap_lfu::HeapLFUCache;
use ferrite::storage::disk::async_disk::cache::lfu::LFUCache;
use ferrite::storage::disk::async_disk::cache::lru::{ConcurrentLRUCache, LRUCore};
use ferrite::storage::disk::async_disk::cache::lru_k::LRUKCache;
use ferrite::storage::disk::async_disk::config::DiskManagerConfig;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

/// A value that counts how often it is alive.
struct Tok {
    id: u64,
    live: Arc<AtomicI64>,
}
impl Tok {
    fn new(id: u64, live: &Arc<AtomicI64>) -> Tok {
        live.fetch_add(1, Ordering::SeqCst);
        Tok { id, live: live.clone() }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.live.fetch_sub(1, Ordering::SeqCst);
        self.id = 0xdead_dead_dead_dead;
    }
}

fn tick() {
    let t = std::time::SystemTime::now();
    while t.elapsed().map(|d| d.as_nanos() < 2100).unwrap_or(false) {
        std::hint::spin_loop();
    }
}

fn sizes(rng: &mut Rng) -> (usize, usize, usize) {
    let cap = match rng.below(12) {
        0 => 0,
        1 => 1,
        _ => rng.urange(2, 12),
    };
    let keys = rng.urange(1, cap * 2 + 4);
    let n = rng.urange(20, 220);
    (cap, keys, n)
}

fn fifo(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let (cap, keys, n) = sizes(rng);
    let live = Arc::new(AtomicI64::new(0));
    let mut c: FIFOCache<u64, Tok> = FIFOCache::new(cap);
    let mut m: Vec<(u64, u64)> = Vec::new(); // oldest first
    let mut tr: Vec<String> = Vec::new();
    for i in 0..n as u64 {
        let k = rng.below(keys) as u64;
        let pos = m.iter().position(|e| e.0 == k);
        match rng.below(12) {
            0..=5 => {
                tr.push(format!("insert {k}"));
                let old = c.insert(k, Tok::new(i, &live)).map(|t| t.id);
                let want = match pos {
                    Some(p) => Some(std::mem::replace(&mut m[p].1, i)),
                    None => {
                        if cap > 0 {
                            if m.len() == cap {
                                m.remove(0);
                                ctx.count("evictions", 1);
                            }
                            m.push((k, i));
                        }
                        None
                    },
                };
                check!(old == want, "FIFO insert({k}) returned {old:?}, expected {want:?}; {tr:?}");
            },
            6..=8 => {
                tr.push(format!("get {k}"));
                let g = c.get(&k).map(|t| t.id);
                let w = pos.map(|p| m[p].1);
                check!(g == w, "FIFO get({k}) = {g:?}, expected {w:?}; {tr:?}");
            },
            9 => {
                tr.push("pop".into());
                let g = c.pop_oldest().map(|(k, t)| (k, t.id));
                let w = if m.is_empty() { None } else { Some(m.remove(0)) };
                check!(g == w, "FIFO pop_oldest = {g:?}, expected {w:?}; {tr:?}");
            },
            10 if rng.chance(1, 4) => {
                let n = rng.below(4);
                tr.push(format!("popbatch {n}"));
                let g: Vec<_> = c.pop_oldest_batch(n).into_iter().map(|(k, t)| (k, t.id)).collect();
                let n = n.min(m.len());
                let w: Vec<_> = m.drain(..n).collect();
                check!(g == w, "FIFO pop_oldest_batch = {g:?}, expected {w:?}; {tr:?}");
            },
            11 if rng.chance(1, 12) => {
                tr.push("clear".into());
                c.clear();
                m.clear();
            },
            _ => {},
        }
        check!(c.len() == m.len() && c.capacity() == cap, "FIFO holds {} entries, expected {}; {tr:?}", c.len(), m.len());
        let o = c.peek_oldest().map(|(k, t)| (*k, t.id));
        check!(o == m.first().copied(), "FIFO peek_oldest = {o:?}, expected {:?}; {tr:?}", m.first());
        for k in 0..keys as u64 {
            let p = m.iter().position(|e| e.0 == k);
            check!(c.contains(&k) == p.is_some() && c.age_rank(&k) == p, "FIFO age of {k} is {:?}, expected {p:?}; {tr:?}", c.age_rank(&k));
        }
        let l = live.load(Ordering::SeqCst);
        check!(l == m.len() as i64, "FIFO with {} entries keeps {l} values alive; {tr:?}", m.len());
        ctx.seen(&(1u8, cap, m.iter().map(|e| e.0).collect::<Vec<_>>()));
    }
    drop(c);
    check!(live.load(Ordering::SeqCst) == 0, "dropping the FIFO leaves {} values alive", live.load(Ordering::SeqCst));
    ctx.sample("fifo", || json!({"capacity": cap, "trace": tr.iter().take(20).collect::<Vec<_>>()}));
    Ok(())
}

pub fn lru(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let (cap, keys, n) = sizes(rng);
    let live = Arc::new(AtomicI64::new(0));
    let mut c: LRUCore<u64, Tok> = LRUCore::new(cap);
    let mut m: Vec<(u64, u64)> = Vec::new(); // least recently used first
    let mut held: Vec<Arc<Tok>> = Vec::new();
    let mut tr: Vec<String> = Vec::new();
    for i in 0..n as u64 {
        let k = rng.below(keys) as u64;
        let pos = m.iter().position(|e| e.0 == k);
        match rng.below(14) {
            0..=5 => {
                tr.push(format!("insert {k}"));
                let old = c.insert(k, Arc::new(Tok::new(i, &live))).map(|t| t.id);
                let want = match pos {
                    Some(p) => {
                        let e = m.remove(p);
                        m.push((k, i));
                        Some(e.1)
                    },
                    None => {
                        if cap > 0 {
                            if m.len() == cap {
                                m.remove(0);
                                ctx.count("evictions", 1);
                            }
                            m.push((k, i));
                        }
                        None
                    },
                };
                check!(old == want, "LRU insert({k}) returned {old:?}, expected {want:?}; {tr:?}");
            },
            6..=7 => {
                tr.push(format!("get {k}"));
                let g = c.get(&k).cloned();
                let w = pos.map(|p| m[p].1);
                check!(g.as_ref().map(|t| t.id) == w, "LRU get({k}) = {:?}, expected {w:?}; {tr:?}", g.map(|t| t.id));
                if let Some(p) = pos {
                    let e = m.remove(p);
                    m.push(e);
                }
                if let Some(g) = g
                    && rng.chance(1, 3)
                {
                    held.push(g);
                }
            },
            8 => {
                tr.push(format!("touch {k}"));
                let g = c.touch(&k);
                check!(g == pos.is_some(), "LRU touch({k}) = {g}; {tr:?}");
                if let Some(p) = pos {
                    let e = m.remove(p);
                    m.push(e);
                }
            },
            9 => {
                tr.push(format!("peek {k}"));
                let g = c.peek(&k).map(|t| t.id);
                check!(g == pos.map(|p| m[p].1), "LRU peek({k}) = {g:?}; {tr:?}");
            },
            10 => {
                tr.push(format!("remove {k}"));
                let g = c.remove(&k).map(|t| t.id);
                let w = pos.map(|p| m.remove(p).1);
                check!(g == w, "LRU remove({k}) = {g:?}, expected {w:?}; {tr:?}");
            },
            11 => {
                tr.push("pop".into());
                let g = c.pop_lru().map(|(k, t)| (k, t.id));
                let w = if m.is_empty() { None } else { Some(m.remove(0)) };
                check!(g == w, "LRU pop_lru = {g:?}, expected {w:?}; {tr:?}");
            },
            12 if rng.chance(1, 3) => {
                let ks: Vec<u64> = (0..rng.below(4)).map(|_| rng.below(keys) as u64).collect();
                tr.push(format!("removebatch {ks:?}"));
                let g: Vec<_> = c.remove_batch(&ks).into_iter().map(|t| t.map(|t| t.id)).collect();
                let w: Vec<_> = ks
                    .iter()
                    .map(|k| m.iter().position(|e| e.0 == *k).map(|p| m.remove(p).1))
                    .collect();
                check!(g == w, "LRU remove_batch = {g:?}, expected {w:?}; {tr:?}");
            },
            13 if rng.chance(1, 12) => {
                tr.push("clear".into());
                c.clear();
                m.clear();
            },
            _ => {},
        }
        check!(c.len() == m.len() && c.capacity() == cap, "LRU holds {} entries, expected {}; {tr:?}", c.len(), m.len());
        let o = c.peek_lru().map(|(k, t)| (*k, t.id));
        check!(o == m.first().copied(), "LRU peek_lru = {o:?}, expected {:?}; {tr:?}", m.first());
        for k in 0..keys as u64 {
            let p = m.iter().rev().position(|e| e.0 == k);
            check!(c.contains(&k) == p.is_some() && c.recency_rank(&k) == p, "LRU rank of {k} is {:?}, expected {p:?}; {tr:?}", c.recency_rank(&k));
        }
        for h in &held {
            check!(h.id < n as u64, "a value handed out by the LRU was dropped while held; {tr:?}");
        }
        let mut ids: BTreeSet<u64> = held.iter().map(|h| h.id).collect();
        ids.extend(m.iter().map(|e| e.1));
        let l = live.load(Ordering::SeqCst);
        check!(l == ids.len() as i64, "LRU: {l} values alive, {} reachable; {tr:?}", ids.len());
        ctx.seen(&(2u8, cap, m.iter().map(|e| e.0).collect::<Vec<_>>()));
    }
    drop(c);
    held.clear();
    check!(live.load(Ordering::SeqCst) == 0, "dropping the LRU leaves {} values alive", live.load(Ordering::SeqCst));
    Ok(())
}

/// Both LFU implementations. Ties may fall either way, except that the heap pops the smallest key.
fn lfu_with<C: LFUCacheTrait<u64, u64>>(ctx: &Ctx, rng: &mut Rng, mut c: C, name: &str, cap: usize, keys: usize, n: usize, smallest: bool) -> Res {
    let mut m: BTreeMap<u64, (u64, u64)> = BTreeMap::new(); // key -> value, frequency
    let mut tr: Vec<String> = Vec::new();
    for i in 0..n as u64 {
        let k = rng.below(keys) as u64;
        let min = m.values().map(|e| e.1).min();
        let cur = m.get(&k).copied();
        match rng.below(14) {
            0..=4 => {
                tr.push(format!("insert {k}"));
                let old = c.insert(k, i);
                check!(old == cur.map(|e| e.0), "{name} insert({k}) returned {old:?}, expected {cur:?}; {tr:?}");
                if let Some(e) = m.get_mut(&k) {
                    e.0 = i;
                } else if cap > 0 {
                    if m.len() == cap {
                        // exactly one entry of the lowest frequency goes
                        let gone: Vec<u64> = m.keys().copied().filter(|k| !c.contains(k)).collect();
                        check!(gone.len() == 1, "{name} insert({k}) into a full cache evicted {gone:?}; {tr:?}");
                        let f = m[&gone[0]].1;
                        check!(Some(f) == min, "{name} evicted {} used {f} times, though an entry was used {min:?} times; {m:?} {tr:?}", gone[0]);
                        if smallest {
                            let s = m.iter().filter(|e| Some(e.1.1) == min).map(|e| *e.0).min().unwrap();
                            check!(s == gone[0], "{name} evicted {} before {s} of the same frequency; {tr:?}", gone[0]);
                        }
                        m.remove(&gone[0]);
                        ctx.count("evictions", 1);
                    }
                    m.insert(k, (i, 1));
                }
            },
            5..=8 => {
                tr.push(format!("get {k}"));
                let g = c.get(&k).copied();
                check!(g == cur.map(|e| e.0), "{name} get({k}) = {g:?}, expected {cur:?}; {tr:?}");
                if let Some(e) = m.get_mut(&k) {
                    e.1 += 1;
                }
            },
            9 => {
                tr.push(format!("remove {k}"));
                let g = c.remove(&k);
                check!(g == cur.map(|e| e.0), "{name} remove({k}) = {g:?}, expected {cur:?}; {tr:?}");
                m.remove(&k);
            },
            10 => {
                tr.push("pop".into());
                let p = c.peek_lfu().map(|(k, v)| (*k, *v));
                check!(p.map(|p| m.get(&p.0).copied()) == p.map(|p| Some((p.1, min.unwrap_or(0)))), "{name} peek_lfu = {p:?}, lowest frequency {min:?}; {m:?} {tr:?}");
                check!(p.is_some() == !m.is_empty(), "{name} peek_lfu = {p:?} of {m:?}");
                let g = c.pop_lfu();
                match g {
                    None => check!(m.is_empty(), "{name} pop_lfu found nothing in {m:?}; {tr:?}"),
                    Some((k, v)) => {
                        let e = m.remove(&k);
                        check!(e == Some((v, min.unwrap_or(0))), "{name} pop_lfu = ({k}, {v}), recorded {e:?}, lowest frequency {min:?}; {tr:?}");
                    },
                }
            },
            11 => {
                tr.push(format!("bump {k}"));
                let g = c.increment_frequency(&k);
                if let Some(e) = m.get_mut(&k) {
                    e.1 += 1;
                }
                check!(g == m.get(&k).map(|e| e.1), "{name} increment_frequency({k}) = {g:?}, expected {:?}; {tr:?}", m.get(&k));
            },
            12 => {
                tr.push(format!("reset {k}"));
                let g = c.reset_frequency(&k);
                check!(g == cur.map(|e| e.1), "{name} reset_frequency({k}) = {g:?}, expected {cur:?}; {tr:?}");
                if let Some(e) = m.get_mut(&k) {
                    e.1 = 1;
                }
            },
            _ if rng.chance(1, 12) => {
                tr.push("clear".into());
                c.clear();
                m.clear();
            },
            _ => {},
        }
        check!(c.len() == m.len() && c.capacity() == cap, "{name} holds {} entries, expected {} (capacity {cap}); {tr:?}", c.len(), m.len());
        for k in 0..keys as u64 {
            check!(c.contains(&k) == m.contains_key(&k) && c.frequency(&k) == m.get(&k).map(|e| e.1), "{name} frequency of {k} is {:?}, expected {:?}; {tr:?}", c.frequency(&k), m.get(&k));
        }
        ctx.seen(&(3u8, smallest, cap, m.iter().map(|e| (*e.0, e.1.1)).collect::<Vec<_>>()));
    }
    // drained in order of frequency
    let mut last = 0;
    while let Some((k, v)) = c.pop_lfu() {
        let Some(e) = m.remove(&k) else { return Err(format!("{name} popped {k}, which it does not hold")) };
        check!(e.0 == v && e.1 >= last, "{name} drained {k} (used {} times) after an entry used {last} times; {tr:?}", e.1);
        last = e.1;
    }
    check!(m.is_empty() && c.len() == 0, "{name} drained, yet {m:?} remain");
    Ok(())
}

fn lfu(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let (cap, keys, n) = sizes(rng);
    if rng.chance(1, 2) {
        lfu_with(ctx, rng, LFUCache::new(cap), "LFU", cap, keys, n, false)
    } else {
        lfu_with(ctx, rng, HeapLFUCache::new(cap), "HeapLFU", cap, keys, n, true)
    }
}

fn lruk(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let (cap, keys, n) = sizes(rng);
    let n = n.min(120);
    let k = rng.urange(1, 4);
    let mut c: LRUKCache<u64, u64> = LRUKCache::with_k(cap, k);
    let mut m: BTreeMap<u64, (u64, Vec<u64>)> = BTreeMap::new();
    let mut clock = 0u64;
    let mut tr: Vec<String> = Vec::new();
    let victim = |m: &BTreeMap<u64, (u64, Vec<u64>)>| -> Option<u64> {
        m.iter()
            .min_by_key(|(_, (_, h))| if h.len() < k { (h.len(), h[0]) } else { (k, h[h.len() - k]) })
            .map(|e| *e.0)
    };
    for i in 0..n as u64 {
        let x = rng.below(keys) as u64;
        let cur = m.get(&x).map(|e| e.0);
        let op = rng.below(14);
        if op <= 9 {
            tick();
            clock += 1;
        }
        match op {
            0..=4 => {
                tr.push(format!("insert {x}"));
                let g = c.insert(x, i);
                check!(g == cur, "LRU-K insert({x}) returned {g:?}, expected {cur:?}; {tr:?}");
                if let Some(e) = m.get_mut(&x) {
                    e.0 = i;
                    e.1.push(clock);
                } else if cap > 0 {
                    if m.len() == cap {
                        let v = victim(&m).unwrap();
                        check!(!c.contains(&v), "LRU-K (k={k}) kept {v}, the entry to evict of {m:?}; {tr:?}");
                        m.remove(&v);
                        ctx.count("evictions", 1);
                    }
                    m.insert(x, (i, vec![clock]));
                }
            },
            5..=8 => {
                tr.push(format!("get {x}"));
                let g = c.get(&x).copied();
                check!(g == cur, "LRU-K get({x}) = {g:?}, expected {cur:?}; {tr:?}");
                if let Some(e) = m.get_mut(&x) {
                    e.1.push(clock);
                }
            },
            9 => {
                tr.push(format!("touch {x}"));
                let g = c.touch(&x);
                check!(g == cur.is_some(), "LRU-K touch({x}) = {g}; {tr:?}");
                if let Some(e) = m.get_mut(&x) {
                    e.1.push(clock);
                }
            },
            10 => {
                tr.push(format!("remove {x}"));
                let g = c.remove(&x);
                check!(g == cur, "LRU-K remove({x}) = {g:?}, expected {cur:?}; {tr:?}");
                m.remove(&x);
            },
            11 => {
                tr.push("pop".into());
                let g = c.pop_lru_k();
                let w = victim(&m).map(|v| (v, m.remove(&v).unwrap().0));
                check!(g == w, "LRU-K (k={k}) pop = {g:?}, expected {w:?} of {m:?}; {tr:?}");
            },
            12 if rng.chance(1, 12) => {
                c.clear();
                m.clear();
                tr.push("clear".into());
            },
            _ => {},
        }
        check!(c.len() == m.len() && c.capacity() == cap && c.k_value() == k, "LRU-K holds {} entries, expected {}; {tr:?}", c.len(), m.len());
        let p = c.peek_lru_k().map(|(k, v)| (*k, *v));
        let w = victim(&m).map(|v| (v, m[&v].0));
        check!(p == w, "LRU-K (k={k}) peek = {p:?}, expected {w:?} of {m:?}; {tr:?}");
        let mut order: Vec<(bool, u64, u64)> = m
            .iter()
            .map(|(x, (_, h))| if h.len() < k { (false, h[0], *x) } else { (true, h[h.len() - k], *x) })
            .collect();
        order.sort();
        for x in 0..keys as u64 {
            let e = m.get(&x);
            check!(c.contains(&x) == e.is_some(), "LRU-K contains({x}) = {}; {tr:?}", c.contains(&x));
            let cnt = e.map(|e| e.1.len().min(k));
            check!(c.access_count(&x) == cnt, "LRU-K access count of {x} is {:?}, expected {cnt:?}; {tr:?}", c.access_count(&x));
            check!(c.k_distance(&x).is_some() == (cnt == Some(k)), "LRU-K k-distance of {x} is {:?} after {cnt:?} accesses; {tr:?}", c.k_distance(&x));
            if let Some(h) = c.access_history(&x) {
                check!(h.windows(2).all(|w| w[0] > w[1]), "LRU-K history of {x} is not newest first: {h:?}");
                if h.len() == k {
                    check!(c.k_distance(&x) == h.last().copied(), "LRU-K k-distance of {x} is {:?}, history {h:?}", c.k_distance(&x));
                }
            }
            let r = order.iter().position(|o| o.2 == x);
            check!(c.k_distance_rank(&x) == r, "LRU-K rank of {x} is {:?}, expected {r:?}; {m:?} {tr:?}", c.k_distance_rank(&x));
        }
        ctx.seen(&(4u8, cap, k, order.iter().map(|o| (o.0, o.2)).collect::<Vec<_>>()));
    }
    ctx.sample("lru_k", || json!({"capacity": cap, "k": k, "trace": tr.iter().take(20).collect::<Vec<_>>()}));
    Ok(())
}

/// Threads on one LRU: bounded size, no value lost or freed twice, values belong to their keys.
pub fn lru_threads(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let cap = rng.urange(1, 24);
    let keys = rng.urange(1, 40);
    let live = Arc::new(AtomicI64::new(0));
    let made = AtomicU64::new(0);
    let hits = AtomicU64::new(0);
    let c: ConcurrentLRUCache<u64, Tok> = ConcurrentLRUCache::new(cap);
    let bad = parking_lot::Mutex::new(None::<String>);
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..4 {
            let mut r = rng.fork();
            let (c, live, made, bad, hits, stop) = (&c, &live, &made, &bad, &hits, &stop);
            s.spawn(move || {
                let fail = |m: String| {
                    bad.lock().get_or_insert(m);
                    stop.store(true, Ordering::SeqCst);
                };
                for _ in 0..400 {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let k = r.below(keys) as u64;
                    let got = match r.below(10) {
                        0..=3 => {
                            // the id of a value carries its key
                            let id = made.fetch_add(1, Ordering::SeqCst) << 8 | k;
                            c.insert(k, Tok::new(id, live)).map(|t| (k, t))
                        },
                        4..=5 => c.get(&k).map(|t| (k, t)),
                        6 => c.peek(&k).map(|t| (k, t)),
                        7 => c.remove(&k).map(|t| (k, t)),
                        8 => c.pop_lru(),
                        _ => {
                            c.touch(&k);
                            c.peek_lru()
                        },
                    };
                    if let Some((k, t)) = got {
                        hits.fetch_add(1, Ordering::Relaxed);
                        if t.id & 0xff != k || t.id >> 8 >= made.load(Ordering::SeqCst) {
                            fail(format!("key {k} gave the value {:#x}", t.id));
                        }
                    }
                    let n = c.len();
                    if n > cap {
                        fail(format!("{n} entries in a cache of {cap}"));
                    }
                    if r.chance(1, 200) {
                        c.clear();
                    }
                }
            });
        }
    });
    if let Some(b) = bad.into_inner() {
        return Err(format!("concurrent LRU: {b}"));
    }
    let (l, n) = (live.load(Ordering::SeqCst), c.len());
    check!(l == n as i64, "concurrent LRU of {n} entries keeps {l} values alive");
    let mut drained = 0;
    while let Some((k, t)) = c.pop_lru() {
        check!(t.id & 0xff == k, "key {k} held {:#x}", t.id);
        drained += 1;
    }
    check!(drained == n && c.is_empty(), "{n} entries, {drained} drained");
    check!(live.load(Ordering::SeqCst) == 0, "{} values leaked", live.load(Ordering::SeqCst));
    ctx.count("threaded_hits", hits.into_inner());
    ctx.seen(&(5u8, cap, keys, n, l));
    Ok(())
}

fn img(k: u64, v: u64) -> Vec<u8> {
    let mut p = vec![0u8; 4096];
    for (i, b) in p.iter_mut().enumerate() {
        *b = (v.wrapping_mul(31) as usize + i * 7 + k as usize) as u8;
    }
    p[..8].copy_from_slice(&k.to_le_bytes());
    p[8..16].copy_from_slice(&v.to_le_bytes());
    p
}

/// The three tiers together: a hit is the page stored last, and no tier outgrows its share.
pub fn tiers(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let total = rng.urange(0, 24);
    let cfg = DiskManagerConfig {
        cache_size_mb: total,
        hot_cache_ratio: *rng.pick(&[0.0, 0.2, 0.5, 1.0]),
        warm_cache_ratio: 0.0,
        prefetch_enabled: true,
        prefetch_distance: rng.urange(0, 6),
        ..Default::default()
    };
    let cfg = DiskManagerConfig {
        warm_cache_ratio: if cfg.hot_cache_ratio < 0.9 { *rng.pick(&[0.0, 0.3, 0.5]) } else { 0.0 },
        ..cfg
    };
    let c = CacheManager::new(&cfg);
    let mut m: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let keys = rng.urange(1, total * 2 + 3);
    let (mut hits, mut miss) = (0u64, 0u64);
    for i in 0..rng.urange(30, 400) as u64 {
        let k = rng.below(keys) as u64;
        match rng.below(10) {
            0..=3 => {
                // equal contents under several keys now and then
                let p = if rng.chance(1, 6) { vec![(i % 3) as u8; 4096] } else { img(k, i) };
                c.store_page(k, p.clone());
                m.insert(k, p);
            },
            4..=8 => match c.get_page(k) {
                Some(p) => {
                    hits += 1;
                    match m.get(&k) {
                        None => return Err(format!("a page {k} that was never stored came out of the cache")),
                        Some(w) => check!(*w == p, "the cache gave an old image of page {k} (first bytes {:?}, stored {:?})", &p[..16], &w[..16]),
                    }
                },
                None => miss += 1,
            },
            _ => match rng.below(4) {
                0 => c.evict_if_needed(),
                1 => c.perform_maintenance(),
                2 => c.update_memory_pressure(),
                _ => {
                    let s = c.get_cache_statistics();
                    check!(
                        s.hot_cache_used <= s.hot_cache_size && s.warm_cache_used <= s.warm_cache_size && s.cold_cache_used <= s.cold_cache_size,
                        "tiers over their size: {s:?}"
                    );
                    check!(s.hot_cache_size + s.warm_cache_size + s.cold_cache_size == total, "tier sizes of {total} pages: {s:?}");
                },
            },
        }
        let ps = c.predict_prefetch_pages(k);
        check!(ps.windows(2).all(|w| w[0] < w[1]) && ps.iter().all(|p| *p > k), "prefetch after {k}: {ps:?}");
    }
    ctx.count("tier_hits", hits);
    ctx.count("tier_misses", miss);
    ctx.seen(&(6u8, total, hits, miss));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("online monitor: after every operation on FIFO, LRU, LFU, heap LFU and LRU-K caches the returned value, size, contents, order or frequency and next victim equal a reference model's");
    ctx.rule("values are counted alive by drop counters: an evicted, replaced, popped or cleared value is dropped exactly once, held ones stay valid");
    ctx.rule("threads on the concurrent LRU: size within capacity, values belong to their keys, nothing leaked or freed twice");
    ctx.rule("tiered cache manager: a hit is the image stored last");
    ctx.assume("LRU-K accesses are at least 2 microseconds apart (its clock has microsecond resolution); which of several least frequently used entries a plain LFU evicts is open");
    let q = |s: f64| s;
    ctx.explore("fifo", 8, q(1.2), 60, u64::MAX, fifo);
    ctx.explore("lru", 8, q(1.8), 60, u64::MAX, lru);
    ctx.explore("lfu", 8, q(2.0), 80, u64::MAX, lfu);
    ctx.explore("lru_k", 8, q(2.0), 60, u64::MAX, lruk);
    ctx.explore("lru_threads", 2, q(1.5), 20, u64::MAX, lru_threads);
    ctx.explore("tiers", 8, q(2.0), 40, u64::MAX, tiers);
}

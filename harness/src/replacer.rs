//! P05: the buffer replacer against a reference LRU-K.
use std::collections::BTreeMap;
use std::sync::Arc;

use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

#[derive(Default, Clone, Hash)]
struct F {
    hist: Vec<u64>,
    evictable: bool,
}

fn tick() {
    // the replacer stamps accesses in microseconds: keep distinct accesses apart
    let t = std::time::SystemTime::now();
    while t.elapsed().map(|d| d.as_nanos() < 2100).unwrap_or(false) {
        std::hint::spin_loop();
    }
}

fn victim(m: &BTreeMap<u64, F>, k: usize) -> Option<u64> {
    m.iter()
        .filter(|(_, f)| f.evictable)
        .min_by_key(|(_, f)| {
            let n = f.hist.len();
            if n < k {
                (n, f.hist.first().copied().unwrap_or(u64::MAX))
            } else {
                (k, f.hist[n - k])
            }
        })
        .map(|(i, _)| *i)
}

fn sequence(ctx: &Ctx, rng: &mut Rng) -> Res {
    let frames = rng.range(1, 9) as u64;
    let k = rng.range(1, 5) as usize;
    let mut r = LRUKReplacer::new(frames as usize, k);
    let mut m: BTreeMap<u64, F> = BTreeMap::new();
    let mut clock = 0u64;
    let mut trace = Vec::new();
    let n = rng.range(10, 120);
    let bias = rng.below(3);
    for _ in 0..n {
        let f = rng.below(frames as usize) as u64;
        let at = *rng.pick(&[AccessType::Unknown, AccessType::Lookup, AccessType::Scan, AccessType::Index]);
        match rng.below(10) {
            0..=3 => {
                tick();
                r.record_access(f, at);
                clock += 1;
                m.entry(f).or_default().hist.push(clock);
                trace.push(format!("access {f}"));
                ctx.count("accesses", 1);
            },
            4..=6 => {
                let e = if bias == 0 { rng.chance(1, 2) } else { rng.chance(4, 5) };
                let got = r.set_evictable(f, e);
                let want = match m.get_mut(&f) {
                    Some(x) if x.evictable != e => {
                        x.evictable = e;
                        true
                    },
                    _ => false,
                };
                trace.push(format!("set_evictable {f} {e}"));
                check!(got == want, "set_evictable returned {got}, expected {want}; k={k} trace {trace:?}");
            },
            7 | 8 => {
                let want = victim(&m, k);
                let got = r.evict();
                trace.push(format!("evict -> {got:?}"));
                check!(got == want, "evict returned {got:?}, LRU-K victim is {want:?}; k={k} trace {trace:?}");
                if let Some(v) = got {
                    m.get_mut(&v).unwrap().evictable = false;
                    ctx.count("evictions", 1);
                    ctx.seen(&(k, &m));
                } else {
                    ctx.count("evictions_refused", 1);
                }
            },
            _ => {
                r.remove(f);
                if m.get(&f).is_some_and(|x| x.evictable) {
                    m.remove(&f);
                }
                trace.push(format!("remove {f}"));
            },
        }
        let want = m.values().filter(|f| f.evictable).count();
        check!(
            r.total_evictable_frames() == want,
            "{} frames counted evictable, expected {want}; trace {trace:?}",
            r.total_evictable_frames()
        );
        check!(r.total_frames() == m.len(), "{} frames tracked, expected {}; trace {trace:?}", r.total_frames(), m.len());
    }
    // drain
    loop {
        let want = victim(&m, k);
        let got = r.evict();
        trace.push(format!("drain -> {got:?}"));
        check!(got == want, "drain evicted {got:?}, LRU-K victim is {want:?}; k={k} trace {trace:?}");
        let Some(v) = got else { break };
        m.get_mut(&v).unwrap().evictable = false;
        ctx.count("evictions", 1);
    }
    ctx.sample("replacer", || json!({"k": k, "frames": frames, "trace": trace.iter().take(30).collect::<Vec<_>>()}));
    Ok(())
}

/// Many threads access, pin and evict; pins and single eviction are checked by the log they leave.
fn concurrent(ctx: &Ctx, rng: &mut Rng) -> Res {
    use parking_lot::{Mutex, RwLock};
    let frames = 16usize;
    let r = RwLock::new(LRUKReplacer::new(frames, 2));
    // per-frame state guarded by its own mutex: true = evictable according to the last completed call
    let st: Vec<Mutex<bool>> = (0..frames).map(|_| Mutex::new(false)).collect();
    for f in 0..frames {
        r.read().record_access(f as u64, AccessType::Unknown);
    }
    let bad = Mutex::new(None);
    let seeds: Vec<u64> = (0..4).map(|_| rng.next()).collect();
    std::thread::scope(|s| {
        for sd in seeds {
            let (r, st, bad) = (&r, &st, &bad);
            s.spawn(move || {
                let mut g = Rng::new(sd);
                for _ in 0..400 {
                    let f = g.below(frames);
                    match g.below(3) {
                        0 => r.read().record_access(f as u64, AccessType::Lookup),
                        1 => {
                            let e = g.chance(1, 2);
                            let mut x = st[f].lock();
                            let ch = r.write().set_evictable(f as u64, e);
                            // an eviction may have raced: only true -> reported-unchanged is impossible here
                            if ch && *x == e && e {
                                *bad.lock() = Some(format!("frame {f} became evictable twice without an eviction"));
                            }
                            *x = e;
                        },
                        _ => {
                            // hold every frame state so the outcome is checkable
                            let mut all: Vec<_> = st.iter().map(|m| m.lock()).collect();
                            let v = r.write().evict();
                            match v {
                                Some(v) => {
                                    if !*all[v as usize] {
                                        *bad.lock() = Some(format!("evicted frame {v}, which is pinned"));
                                    }
                                    *all[v as usize] = false;
                                },
                                None => {
                                    if all.iter().any(|x| **x) {
                                        *bad.lock() = Some("evict found nothing although a frame is evictable".into());
                                    }
                                },
                            }
                        },
                    }
                }
            });
        }
    });
    ctx.count("concurrent_runs", 1);
    let n = st.iter().filter(|x| *x.lock()).count();
    check!(r.read().total_evictable_frames() == n, "evictable count {} after the run, expected {n}", r.read().total_evictable_frames());
    match bad.into_inner() {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("random access/set_evictable/evict/remove sequences (k 1-4, 1-9 frames) compared step by step with a reference LRU-K; non-trivial = distinct (k, full replacer state) at a successful eviction");
    ctx.assume("accesses are at least 2 microseconds apart, the resolution of the replacer's clock");
    ctx.explore("sequence", 4, 8.0, 2000, u64::MAX, |c, r, _| sequence(c, r));
    ctx.explore("concurrent", 2, 2.0, 20, u64::MAX, |c, r, _| concurrent(c, r));
}

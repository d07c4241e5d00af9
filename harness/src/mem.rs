//! P25: workloads for the sanitizer builds. What the sanitizer reports ends the process; the
//! behaviour itself is judged by the other properties, except for the aligned buffers.
use std::io::{ErrorKind, Write};
use std::sync::Arc;

use ferrite::storage::disk::direct_io::{
    AlignedBuffer, DirectIOConfig, create_aligned_buffer, is_aligned, is_size_aligned, open_direct_io, read_aligned,
    read_aligned_into, round_up_to_alignment, sync_file, write_aligned,
};
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;
use crate::util::Scratch;
use crate::{btree, caches, disk, heap, ioq, locks, mvcc, pages, pool};

/// Runs a workload for the sanitizer's sake.
fn only_run(f: impl FnOnce() -> Res) -> Res {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    Ok(())
}

fn buffers(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let mut live: Vec<(AlignedBuffer, Vec<u8>, usize)> = vec![];
    for _ in 0..40 {
        let align = *rng.pick(&[1usize, 2, 8, 64, 512, 512, 4096, 4096, 16384]);
        let size = *rng.pick(&[0usize, 1, 7, 511, 512, 513, 4095, 4096, 4097, 9000]);
        let n = if rng.chance(1, 2) { size } else { rng.below(size + 1) };
        let data = rng.bytes(n);
        match rng.below(7) {
            0 => {
                let b = if rng.chance(1, 2) { AlignedBuffer::new(size, align) } else { create_aligned_buffer(size, align) };
                check!(b.iter().all(|x| *x == 0), "a new aligned buffer of {size} is not zeroed");
                live.push((b, vec![0; size], align));
            },
            1 | 2 => {
                let b = AlignedBuffer::from_slice(&data, align);
                let mut m = data.clone();
                m.resize(n.div_ceil(align) * align, 0);
                live.push((b, m, align));
            },
            3 => {
                let more = *rng.pick(&[0, n / 2, n, n + 1, n + 700]);
                let b = AlignedBuffer::from_slice_with_size(&data, more, align);
                let mut m = data.clone();
                m.resize(more.max(n).div_ceil(align) * align, 0);
                live.push((b, m, align));
            },
            4 if !live.is_empty() => {
                let i = rng.below(live.len());
                let (b, m, _) = &mut live[i];
                if !m.is_empty() {
                    let at = rng.below(m.len());
                    let v = rng.below(256) as u8;
                    b[at] = v;
                    m[at] = v;
                    let (first, last) = (rng.below(256) as u8, rng.below(256) as u8);
                    let l = m.len() - 1;
                    b.as_mut_slice()[0] = first;
                    m[0] = first;
                    b.as_mut_slice()[l] = last;
                    m[l] = last;
                }
            },
            5 if !live.is_empty() => {
                let i = rng.below(live.len());
                live.swap_remove(i);
            },
            6 if !live.is_empty() => {
                // read by two threads, then dropped on another
                let i = rng.below(live.len());
                let (b, m, _) = live.swap_remove(i);
                let b = Arc::new(b);
                let sums: Vec<u64> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..2).map(|_| s.spawn(|| b.iter().map(|x| *x as u64).sum())).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let want: u64 = m.iter().map(|x| *x as u64).sum();
                check!(sums.iter().all(|s| *s == want), "two readers of a buffer see {sums:?}, expected {want}");
                std::thread::spawn(move || drop(b)).join().unwrap();
            },
            _ => {},
        }
        for (b, m, align) in &live {
            check!(b.len() == m.len() && b.is_empty() == m.is_empty(), "an aligned buffer of {} bytes says {}", m.len(), b.len());
            check!(b.as_slice() == &m[..] && b.to_vec() == *m, "an aligned buffer of {} bytes (alignment {align}) does not hold what was put in it", m.len());
            check!(m.is_empty() || (b.as_ptr() as usize) % align == 0 && is_aligned(b, *align), "a buffer of {} bytes is not aligned to {align}", m.len());
        }
        check!(round_up_to_alignment(size, align) == size.div_ceil(align) * align, "{size} rounds up to {} for {align}", round_up_to_alignment(size, align));
        check!(is_size_aligned(size, align) == (size % align == 0), "is_size_aligned({size}, {align}) is wrong");
        ctx.eval(live.len() as u64);
        ctx.count("buffers_compared", live.len() as u64);
    }
    ctx.seen(&live.iter().map(|l| (l.1.len(), l.2)).collect::<Vec<_>>());
    Ok(())
}

/// A file written and read through the aligned calls, against its bytes.
fn files(ctx: &Ctx, rng: &mut Rng, _: u64) -> Res {
    let dir = Scratch::new("direct");
    let path = dir.file("f");
    let enabled = rng.chance(2, 3);
    let align = *rng.pick(&[512usize, 4096, 4096]);
    let config = DirectIOConfig { enabled, alignment: align };
    // not every file system takes O_DIRECT: the same calls then run on an ordinary file
    let mut real = true;
    let mut f = match open_direct_io(&path, true, true, true, &config) {
        Ok(f) => f,
        Err(_) if enabled => {
            real = false;
            open_direct_io(&path, true, true, true, &DirectIOConfig { enabled: false, alignment: align }).map_err(|e| e.to_string())?
        },
        Err(e) => return Err(format!("opening a new file: {e}")),
    };
    let mut m: Vec<u8> = vec![];
    let mut tr = vec![];
    for _ in 0..rng.urange(5, 40) {
        let blocks = rng.urange(0, 6);
        let at = rng.below(12) * if rng.chance(5, 6) { align } else { 100 };
        let len = if rng.chance(4, 5) { blocks * align } else { blocks * align + rng.below(align) };
        let off = rng.below(2); // an odd place in memory
        match rng.below(3) {
            0 => {
                let mut d = vec![0u8; off];
                d.extend(rng.bytes(len));
                let r = write_aligned(&mut f, at as u64, &d[off..], &config);
                tr.push(format!("write {at}+{len}"));
                let odd = len > 0 && enabled && (at % align != 0 || len % align != 0);
                match r {
                    Ok(()) => {
                        check!(!odd, "an unaligned write of {len} at {at} was accepted; {tr:?}");
                        if len > 0 {
                            if m.len() < at + len {
                                m.resize(at + len, 0);
                            }
                            m[at..at + len].copy_from_slice(&d[off..]);
                        }
                    },
                    Err(e) if odd => check!(e.kind() == ErrorKind::InvalidInput, "an unaligned write gives {e}; {tr:?}"),
                    // a device may ask for more than we claim
                    Err(e) if real && enabled && e.raw_os_error() == Some(22) => return Ok(()),
                    Err(e) => return Err(format!("write of {len} at {at}: {e}; {tr:?}")),
                }
            },
            k => {
                let odd = len > 0 && enabled && at % align != 0;
                let (r, took) = if k == 1 {
                    let r = read_aligned(&mut f, at as u64, len, &config);
                    let took = r.as_ref().map(|b| b.len()).unwrap_or(0);
                    if let Ok(b) = &r {
                        check!(len == 0 || (b.as_ptr() as usize) % align == 0, "a read gives an unaligned buffer; {tr:?}");
                    }
                    (r.map(|b| b.to_vec()), took)
                } else {
                    let mut b = vec![0xabu8; off + len + 8];
                    let r = read_aligned_into(&mut f, at as u64, &mut b[off..off + len], &config);
                    check!(b[..off].iter().chain(&b[off + len..]).all(|x| *x == 0xab), "a read of {len} wrote outside its buffer; {tr:?}");
                    (r.map(|_| b[off..off + len].to_vec()), len)
                };
                tr.push(format!("read {at}+{len}"));
                let whole = if enabled { len.div_ceil(align) * align } else { len };
                match r {
                    Ok(g) => {
                        check!(!odd, "an unaligned read of {len} at {at} was accepted; {tr:?}");
                        check!(took >= len, "a read of {len} gives {took} bytes; {tr:?}");
                        check!(len == 0 || at + len <= m.len(), "a read of {len} at {at} past the end ({}) succeeded; {tr:?}", m.len());
                        check!(len == 0 || g[..len] == m[at..at + len], "a read of {len} at {at} gives other bytes; {tr:?}");
                        ctx.count("aligned_reads", 1);
                    },
                    Err(e) if odd => check!(e.kind() == ErrorKind::InvalidInput, "an unaligned read gives {e}; {tr:?}"),
                    Err(_) if at + whole > m.len() => {},
                    Err(e) if real && enabled && e.raw_os_error() == Some(22) => return Ok(()),
                    Err(e) => return Err(format!("read of {len} at {at} of {}: {e}; {tr:?}", m.len())),
                }
            },
        }
        ctx.eval(1);
    }
    sync_file(&mut f, rng.chance(1, 2)).map_err(|e| e.to_string())?;
    drop(f);
    check!(std::fs::read(&path).unwrap_or_default() == m, "the file does not hold what was written: {tr:?}");
    ctx.seen(&(align, enabled, m.len()));
    ctx.count(if real && enabled { "files_o_direct" } else { "files_buffered" }, 1);
    ctx.sample("file", || json!({"alignment": align, "direct": enabled && real, "steps": tr}));
    let _ = std::io::stdout().flush();
    Ok(())
}

/// Proves that the sanitizer is there: reads memory after it was freed.
pub fn selftest() {
    let b = Box::new([7u8; 64]);
    let p = Box::into_raw(b);
    unsafe {
        drop(Box::from_raw(p));
        println!("read {}", std::ptr::read_volatile((p as *const u8).add(5)));
    }
}
/// The same for races.
pub fn selftest_race() {
    struct P(*mut u64);
    unsafe impl Send for P {}
    let b = Box::leak(Box::new(0u64)) as *mut u64;
    let hs: Vec<_> = (0..2)
        .map(|_| {
            let p = P(b);
            std::thread::spawn(move || {
                let p = p;
                for _ in 0..1000 {
                    unsafe { std::ptr::write_volatile(p.0, std::ptr::read_volatile(p.0) + 1) };
                    std::thread::yield_now();
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("no access to freed, foreign or uninitialised memory, no double free and no data race in any workload, as watched by the sanitizer this binary is built with");
    ctx.rule("aligned buffers are aligned, in bounds, zero padded and hold what was put in them; aligned file access transfers exactly the bytes asked for and refuses misaligned requests");
    ctx.assume("O_DIRECT is used where the scratch directory's file system takes it, and otherwise the same calls on an ordinary file");
    let q = |s| s;
    ctx.explore("buffers", 8, q(1.5), 40, u64::MAX, buffers);
    ctx.explore("files", 8, q(1.5), 40, u64::MAX, files);
    ctx.explore("lru", 8, q(2.0), 60, u64::MAX, |c, r, s| only_run(|| caches::lru(c, r, s)));
    ctx.explore("lru_threads", 2, q(2.5), 20, u64::MAX, |c, r, s| only_run(|| caches::lru_threads(c, r, s)));
    ctx.explore("tiers", 8, q(1.0), 20, u64::MAX, |c, r, s| only_run(|| caches::tiers(c, r, s)));
    ctx.explore("pages", 8, q(1.0), 20, u64::MAX, |c, r, _| only_run(|| pages::sequence(c, r)));
    ctx.explore("damaged", 8, q(1.0), 20, u64::MAX, |c, r, _| only_run(|| pages::damaged(c, r)));
    ctx.explore("btree", 4, q(1.0), 10, u64::MAX, |c, r, s| only_run(|| btree::concurrent(c, r, s)));
    ctx.explore("disk", 3, q(2.0), 5, u64::MAX, |c, r, _| only_run(|| disk::registers(c, r)));
    ctx.explore("io", 3, q(1.0), 5, u64::MAX, |c, r, s| only_run(|| ioq::tracker(c, r, s)));
    ctx.explore("pool", 2, q(2.0), 3, u64::MAX, |c, r, _| only_run(|| pool::stress(c, r)));
    ctx.explore("heap", 2, q(1.5), 3, u64::MAX, |c, r, s| only_run(|| heap::threads(c, r, s)));
    ctx.explore("locks", 2, q(1.0), 3, u64::MAX, |c, r, _| only_run(|| locks::concurrent(c, r)));
    ctx.explore("transactions", 2, q(1.5), 3, u64::MAX, |c, r, _| only_run(|| mvcc::bank(c, r)));
}

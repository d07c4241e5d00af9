//! Small workloads over the code that manages memory itself, for the Miri interpreter: every
//! access, borrow and lifetime is checked, and each Miri seed is another schedule and workload.
//! usage: memwork [seed|none]
use std::hash::{BuildHasher, Hasher};
use std::sync::Arc;

use ferrite::storage::disk::async_disk::cache::cache_traits::{CoreCache, LRUCacheTrait, MutableCache};
use ferrite::storage::disk::async_disk::cache::lru::{ConcurrentLRUCache, LRUCore};
use ferrite::storage::disk::direct_io::AlignedBuffer;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
type V = Box<u64>;

fn lru(r: &mut Rng, steps: usize) -> u64 {
    let mut ops = 0;
    let cap = r.below(5) as usize;
    let keys = 1 + r.below(7);
    let mut c: LRUCore<u64, V> = LRUCore::new(cap);
    let mut held: Vec<Arc<V>> = vec![];
    for i in 0..steps as u64 {
        let k = r.below(keys);
        match r.below(16) {
            0..=5 => held.extend(c.insert(k, Arc::new(Box::new(i)))),
            6 => held.extend(c.get(&k).cloned()),
            7 => drop(c.touch(&k)),
            8 => held.extend(c.remove(&k)),
            9 => held.extend(c.pop_lru().map(|p| p.1)),
            10 => held.extend(c.peek(&k)),
            11 => {
                if let Some((_, v)) = c.peek_lru() {
                    assert!(***v <= i);
                }
            },
            12 => drop(c.recency_rank(&k)),
            13 if r.below(4) == 0 => c.clear(),
            14 => drop(c.remove_batch(&[k, k, 0])),
            _ => assert!(c.contains(&k) || c.len() <= cap),
        }
        ops += 1;
        if held.len() > 4 {
            held.swap_remove(r.below(5) as usize);
        }
        assert!(held.iter().all(|h| ***h <= i));
    }
    if r.below(2) == 0 {
        drop(c);
        assert!(held.iter().all(|h| ***h < steps as u64));
    } else {
        let t = std::thread::spawn(move || drop(c));
        drop(held);
        t.join().unwrap();
    }
    ops
}

fn lru_threads(r: &mut Rng, steps: usize) -> u64 {
    let c: Arc<ConcurrentLRUCache<u64, V>> = Arc::new(ConcurrentLRUCache::new(1 + r.below(3) as usize));
    let hs: Vec<_> = (0..3)
        .map(|_| {
            let (c, mut r) = (c.clone(), Rng(r.next()));
            std::thread::spawn(move || {
                for i in 0..steps as u64 {
                    let k = r.below(4);
                    let got = match r.below(9) {
                        0..=2 => c.insert(k, Box::new(k)).map(|v| (k, v)),
                        3 => c.get(&k).map(|v| (k, v)),
                        4 => c.peek(&k).map(|v| (k, v)),
                        5 => c.remove(&k).map(|v| (k, v)),
                        6 => c.pop_lru(),
                        7 => c.peek_lru(),
                        _ => {
                            if i % 7 == 0 {
                                c.clear();
                            } else {
                                c.touch(&k);
                            }
                            None
                        },
                    };
                    if let Some((k, v)) = got {
                        assert!(**v == k);
                    }
                    assert!(c.len() <= c.capacity());
                    if r.below(3) == 0 {
                        std::thread::yield_now();
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    3 * steps as u64
}

fn buffers(r: &mut Rng, steps: usize) -> u64 {
    let mut live: Vec<(AlignedBuffer, usize)> = vec![];
    for _ in 0..steps {
        let align = 1usize << r.below(10);
        let n = r.below(70) as usize;
        let data: Vec<u8> = (0..n).map(|x| x as u8).collect();
        match r.below(5) {
            0 => live.push((AlignedBuffer::new(n, align), align)),
            1 => live.push((AlignedBuffer::from_slice(&data, align), align)),
            2 => live.push((AlignedBuffer::from_slice_with_size(&data, r.below(140) as usize, align), align)),
            3 if !live.is_empty() => {
                let i = r.below(live.len() as u64) as usize;
                let (mut b, _) = live.swap_remove(i);
                let t = std::thread::spawn(move || {
                    for x in b.as_mut_slice() {
                        *x = x.wrapping_add(1);
                    }
                    b
                });
                drop(t.join().unwrap().to_vec());
            },
            _ if !live.is_empty() => {
                let i = r.below(live.len() as u64) as usize;
                let b = &mut live[i].0;
                let s: u64 = b.iter().map(|x| *x as u64).sum();
                let l = b.len();
                if l > 0 {
                    b[l - 1] = s as u8;
                    b.as_mut_slice()[0] = 1;
                }
            },
            _ => {},
        }
        for (b, align) in &live {
            assert!(b.is_empty() || b.as_ptr() as usize % align == 0);
        }
    }
    steps as u64
}

fn main() {
    if std::env::args().nth(1).is_some_and(|a| a == "none") {
        println!("START none");
        return;
    }
    // without a seed every Miri seed gives another one
    let seed = std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or_else(|| {
        let mut h = std::hash::RandomState::new().build_hasher();
        h.write_u8(1);
        h.finish()
    });
    let mut r = Rng(seed);
    println!("START {seed}");
    let mut ops = 0;
    for _ in 0..2 {
        ops += lru(&mut r, 120);
    }
    ops += lru_threads(&mut r, 15);
    ops += buffers(&mut r, 40);
    println!("DONE {seed} {ops}");
}

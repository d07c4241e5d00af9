//! P11: the extendible hash table, its directory and the index over it, against multimaps.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::{INVALID_PAGE_ID, PageId};
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::container::disk_extendable_hash_table::DiskExtendableHashTable;
use ferrite::container::hash_function::HashFunction;
use ferrite::storage::index::extendable_hash_table_index::ExtendableHashTableIndex;
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::page::Page;
use ferrite::storage::page::page_types::extendable_hash_table_bucket_page::ExtendableHTableBucketPage;
use ferrite::storage::page::page_types::extendable_hash_table_directory_page::ExtendableHTableDirectoryPage;
use ferrite::storage::page::page_types::extendable_hash_table_header_page::ExtendableHTableHeaderPage;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::json;

use crate::btree::{Kind, key, type_of};
use crate::check;
use crate::ctx::{Ctx, Res};
use crate::pool::Pool;
use crate::rng::Rng;

const KINDS: [Kind; 5] = [Kind::Int, Kind::Big, Kind::Text, Kind::Decimal, Kind::Small];

type Model = BTreeMap<i64, Vec<(u64, u32)>>;
fn rid(r: (u64, u32)) -> RID {
    RID::new(r.0, r.1)
}
fn sorted(v: Vec<RID>) -> Vec<(u64, u32)> {
    let mut v: Vec<_> = v.into_iter().map(|r| (r.get_page_id(), r.get_slot_num())).collect();
    v.sort();
    v
}

struct Table {
    t: DiskExtendableHashTable,
    kind: Kind,
    depth: u32,
    size: usize,
    model: Model,
    hash: Vec<u32>,
    next: u64,
    log: Vec<String>,
}
impl Table {
    fn tell(&self) -> String {
        let n = self.log.len();
        format!("directory depth {} bucket size {} keys {:?}: {}{}", self.depth, self.size, self.kind, if n > 60 { "... " } else { "" }, self.log[n.saturating_sub(60)..].join(" "))
    }
    fn k(&self, i: i64) -> Value {
        key(self.kind, i)
    }
    /// Entries that share a bucket with key `i` once the bucket can be split no further.
    fn crowd(&self, i: i64) -> usize {
        let mask = (1u64 << self.depth) as u32 - 1;
        let h = self.hash[i as usize] & mask;
        self.model.iter().filter(|(k, _)| self.hash[**k as usize] & mask == h).map(|(_, v)| v.len()).sum()
    }
    fn one(&self, i: i64) -> Res {
        let got = sorted(self.t.get_values(&self.k(i)));
        let mut want = self.model.get(&i).cloned().unwrap_or_default();
        want.sort();
        check!(got == want, "key {i} gives {got:?}, not {want:?}, after {}", self.tell());
        let one = self.t.get_value(&self.k(i)).map(|r| (r.get_page_id(), r.get_slot_num()));
        check!(one.map_or(want.is_empty(), |r| want.contains(&r)), "get_value({i}) gives {one:?} of {want:?} after {}", self.tell());
        Ok(())
    }
    fn all(&self, ctx: &Ctx) -> Res {
        for i in 0..self.hash.len() as i64 {
            self.one(i)?;
        }
        ctx.eval(self.hash.len() as u64);
        Ok(())
    }
    fn step(&mut self, ctx: &Ctx, rng: &mut Rng, op: usize, i: i64) -> Res {
        let k = self.k(i);
        match op {
            0 => {
                self.next += 1;
                let r = (self.next, rng.below(5) as u32);
                let room = self.crowd(i) < self.size;
                self.log.push(format!("+{i}"));
                let ok = self.t.insert(k, rid(r));
                check!(ok == room, "inserting key {i}, with {} entries where its hash puts it at full depth: {ok}, after {}", self.crowd(i), self.tell());
                if ok {
                    self.model.entry(i).or_default().push(r);
                } else {
                    ctx.count("inserts refused", 1);
                }
            },
            1 => {
                self.log.push(format!("-{i}"));
                let before = self.model.get(&i).cloned().unwrap_or_default();
                let ok = self.t.remove(&k);
                check!(ok == !before.is_empty(), "remove({i}) says {ok} after {}", self.tell());
                if ok {
                    // one of the entries of the key, whichever
                    let now = sorted(self.t.get_values(&k));
                    check!(now.len() + 1 == before.len() && now.iter().all(|r| before.contains(r)), "remove({i}) left {now:?} of {before:?} after {}", self.tell());
                    self.set(i, now);
                }
            },
            _ => {
                let have = self.model.get(&i).cloned().unwrap_or_default();
                let r = if have.is_empty() || rng.chance(1, 6) { (self.next + 7, 0) } else { *rng.pick(&have) };
                self.log.push(format!("-{i}:{}", r.0));
                let ok = self.t.remove_entry(&k, rid(r));
                check!(ok == have.contains(&r), "removing {r:?} of key {i} says {ok} after {}", self.tell());
                self.set(i, have.into_iter().filter(|x| *x != r).collect());
            },
        }
        self.one(i)
    }
    fn set(&mut self, i: i64, v: Vec<(u64, u32)>) {
        if v.is_empty() {
            self.model.remove(&i);
        } else {
            self.model.insert(i, v);
        }
    }
}

fn table(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let kind = *rng.pick(&KINDS);
    let (header, depth, size) = (rng.below(5) as u32, rng.below(8) as u32, rng.urange(1, 8));
    // as many frames as the table can have pages, and one: pages it keeps beyond its need show
    let frames = (1usize << depth) + 3;
    let p = Pool::new(frames, 2);
    let _in = p.rt.enter();
    let hf = HashFunction::new();
    let top = match rng.below(3) {
        0 => rng.urange(1, 8),
        1 => (size << depth).clamp(2, 300) / 2 + 1,
        _ => (size << depth).clamp(2, 300),
    } as i64;
    let hash = (0..=top).map(|i| hf.get_hash(&key(kind, i)) as u32).collect();
    let t = DiskExtendableHashTable::new("h".into(), p.bpm.clone(), HashFunction::new(), header, depth, size as u32)?;
    let mut c = Table { t, kind, depth, size, model: Model::new(), hash, next: 0, log: vec![] };
    for phase in 0..rng.urange(2, 6) {
        let bias = rng.below(4);
        let n = rng.urange(5, 60 + (size << depth).min(400));
        for _ in 0..n {
            let op = match bias {
                0 => 0,
                1 => *rng.pick(&[0, 0, 0, 1, 2]),
                2 => *rng.pick(&[0, 1, 2]),
                _ => *rng.pick(&[0, 1, 2, 2, 1, 2]),
            };
            let i = if op > 0 && !c.model.is_empty() && rng.chance(4, 5) {
                let at = rng.below(c.model.len());
                *c.model.keys().nth(at).unwrap()
            } else {
                rng.range(0, top)
            };
            c.step(ctx, rng, op, i)?;
            if rng.chance(1, 25) {
                c.all(ctx)?;
            }
        }
        if rng.chance(1, 3) {
            // empty it
            while let Some(i) = c.model.keys().next().copied() {
                let i = if rng.chance(1, 2) { *c.model.keys().nth(rng.below(c.model.len())).unwrap_or(&i) } else { i };
                c.step(ctx, rng, 2, i)?;
            }
            ctx.count("tables emptied", 1);
        }
        c.all(ctx)?;
        let n: usize = c.model.values().map(|v| v.len()).sum();
        ctx.max("most entries in a table", n as u64);
        ctx.seen(&("table", depth, size, n, phase));
    }
    ctx.sample("table", || json!({"seed": seed, "depth": depth, "bucket": size, "entries": c.model.len()}));
    Ok(())
}

/// The directory alone: splits and merges of buckets against a map from hash suffixes.
fn directory(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let max = rng.below(10) as u32;
    let mut d = ExtendableHTableDirectoryPage::new(5);
    d.init(max);
    d.set_bucket_page_id(0, 1000);
    // (depth, low bits) -> page
    let mut m: BTreeMap<(u32, u32), PageId> = BTreeMap::from([((0, 0), 1000)]);
    let mut next = 1001;
    let mut log = vec![];
    for _ in 0..rng.urange(1, 150) {
        let h = rng.next() as u32;
        let slot = d.hash_to_bucket_index(h) as usize;
        let (&(ld, low), &page) = m.iter().find(|((ld, low), _)| h & ((1u64 << ld) as u32).wrapping_sub(1) == *low).unwrap();
        if rng.chance(3, 5) {
            log.push(format!("split {slot} at depth {ld}"));
            let got = d.update_directory_for_split(slot, next);
            check!(got.is_some() == (ld < max), "splitting a bucket of local depth {ld} of at most {max} says {got:?}: {log:?}");
            if let Some(image) = got {
                m.remove(&(ld, low));
                m.insert((ld + 1, low), page);
                m.insert((ld + 1, low | 1 << ld), next);
                check!(image == slot ^ (1 << ld), "the split image of {slot} is {image}: {log:?}");
                next += 1;
            }
        } else {
            log.push(format!("merge {slot} at depth {ld}"));
            let got = d.merge_bucket(slot);
            let buddy = if ld == 0 { None } else { m.get(&(ld, low ^ (1 << (ld - 1)))).copied() };
            match (got, buddy) {
                (None, None) => {},
                (Some(gone), Some(b)) => {
                    check!(gone == page, "merging the bucket of page {page} into that of {b} removes page {gone}: {log:?}");
                    m.remove(&(ld, low));
                    m.remove(&(ld, low ^ (1 << (ld - 1))));
                    m.insert((ld - 1, low & ((1 << (ld - 1)) - 1)), b);
                },
                _ => return Err(format!("merging a bucket of local depth {ld} with buddy {buddy:?} says {got:?}: {log:?}")),
            }
        }
        let g = d.get_global_depth();
        check!(g <= max && m.keys().all(|(ld, _)| *ld <= g), "global depth {g} of at most {max}: {log:?}");
        for i in 0..1u32 << g {
            let (&(ld, _), &page) = m.iter().find(|((ld, low), _)| i & (1u32 << ld).wrapping_sub(1) == *low).unwrap();
            let got = (d.get_bucket_page_id(i as usize), d.get_local_depth(i));
            check!(got == (Some(page), ld), "slot {i} has page and local depth {got:?}, not {page} {ld}: {log:?}");
            check!(d.get_local_depth_mask(i) == (1u32 << ld) - 1, "the local depth mask of slot {i} at depth {ld} is {}: {log:?}", d.get_local_depth_mask(i));
            check!(ld == 0 || d.get_split_image_index(i) == i ^ (1 << (ld - 1)), "the split image of slot {i} at depth {ld} is {}: {log:?}", d.get_split_image_index(i));
        }
        check!(d.get_size() == 1 << g && d.get_global_depth_mask() == (1 << g) - 1 && d.get_max_depth() == max, "size {} at global depth {g}: {log:?}", d.get_size());
        let loose = g > 0 && m.keys().all(|(ld, _)| *ld < g);
        check!(d.can_shrink() == loose, "at global depth {g} with local depths {:?} the directory says it can shrink: {}: {log:?}", m.keys().map(|k| k.0).collect::<Vec<_>>(), d.can_shrink());
        if loose && rng.chance(1, 2) {
            d.decr_global_depth();
            log.push("shrink".into());
            ctx.count("directories shrunk", 1);
            check!(d.get_global_depth() == g - 1, "global depth {} after shrinking from {g}: {log:?}", d.get_global_depth());
        }
        let g = d.get_global_depth();
        for i in 0..1u32 << g {
            check!(m.iter().any(|((ld, low), p)| i & ((1u32 << ld) - 1) == *low && d.get_bucket_page_id(i as usize) == Some(*p)), "slot {i} after {log:?}");
        }
        check!(d.hash_to_bucket_index(h) == h & ((1 << g) - 1), "hash {h} goes to slot {}", d.hash_to_bucket_index(h));
        d.verify_integrity();
        ctx.eval(1);
        ctx.seen(&("dir", max, g, m.len()));
    }
    // the header routes by the top bits
    let g = rng.below(9) as u32;
    let mut hp = ExtendableHTableHeaderPage::new(3);
    hp.init(g);
    for i in 0..1u32 << g {
        hp.set_directory_page_id(i, 70 + i as u64);
    }
    for _ in 0..20 {
        let h = rng.next() as u32;
        let want = (h as u64 >> (32 - g)) as u32;
        check!(hp.hash_to_directory_index(h) == want, "hash {h:#x} at header depth {g} goes to {}", hp.hash_to_directory_index(h));
        check!(hp.get_directory_page_id(want as usize) == Some(70 + want as u64), "directory {want} of the header");
    }
    ctx.eval(20);
    Ok(())
}

/// A bucket page alone.
fn bucket(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let max = rng.urange(1, 12);
    let kind = *rng.pick(&KINDS);
    let mut b = ExtendableHTableBucketPage::new(9);
    b.init(max as u16);
    let mut m: Vec<(i64, u64)> = vec![];
    for n in 0..rng.urange(5, 120) {
        let i = rng.range(0, 6);
        match rng.below(5) {
            0..=2 => {
                let ok = b.insert(key(kind, i), RID::new(n as u64, 1));
                check!(ok == (m.len() < max), "a bucket of {} of {max} says {ok} to an entry", m.len());
                if ok {
                    m.push((i, n as u64));
                }
            },
            3 => {
                let ok = b.remove(&key(kind, i));
                check!(ok == m.iter().any(|e| e.0 == i), "bucket remove says {ok}");
                let now = b.lookup_all(&key(kind, i));
                let at = m.iter().position(|e| e.0 == i && !now.contains(&RID::new(e.1, 1)));
                check!(at.is_some() == ok, "bucket remove of {i} of {m:?} left {now:?}");
                if let Some(at) = at {
                    m.remove(at);
                }
            },
            _ => {
                let r = m.iter().filter(|e| e.0 == i).map(|e| e.1).next_back().unwrap_or(9999);
                let ok = b.remove_entry(&key(kind, i), RID::new(r, 1));
                check!(ok == (r != 9999), "bucket remove_entry says {ok}");
                m.retain(|e| *e != (i, r));
            },
        }
        check!(b.get_size() as usize == m.len() && b.is_empty() == m.is_empty() && b.is_full() == (m.len() >= max), "a bucket of {m:?} of {max}: size {}, empty {}, full {}", b.get_size(), b.is_empty(), b.is_full());
        for i in 0..7 {
            let mut got: Vec<u64> = b.lookup_all(&key(kind, i)).iter().map(|r| r.get_page_id()).collect();
            let mut want: Vec<u64> = m.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
            got.sort();
            want.sort();
            check!(got == want, "bucket key {i}: {got:?}, not {want:?}");
            let l = b.lookup(&key(kind, i)).map(|r| r.get_page_id());
            check!(l.map_or(want.is_empty(), |r| want.contains(&r)), "bucket lookup {i}: {l:?} of {want:?}");
        }
        let mut got: Vec<u64> = b.get_all_entries().iter().map(|e| e.1.get_page_id()).collect();
        let mut want: Vec<u64> = m.iter().map(|e| e.1).collect();
        got.sort();
        want.sort();
        check!(got == want, "bucket entries {got:?}, not {want:?}");
        ctx.eval(1);
    }
    Ok(())
}

struct Ix {
    schema: Schema,
    at: usize,
    kind: Kind,
}
impl Ix {
    fn row(&self, i: i64) -> Tuple {
        let vals: Vec<Value> = (0..self.schema.get_column_count() as usize)
            .map(|c| if c == self.at { key(self.kind, i) } else { Value::new_with_type(Val::Null, TypeId::Integer) })
            .collect();
        Tuple::new(&vals, &self.schema, RID::new(0, 0))
    }
}
fn index(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let p = Pool::new(24, 2);
    let _in = p.rt.enter();
    let kind = *rng.pick(&KINDS);
    let ncols = rng.urange(1, 4);
    let at = rng.below(ncols);
    let cols = (0..ncols).map(|c| Column::new(&format!("c{c}"), if c == at { type_of(kind) } else { TypeId::Integer })).collect();
    let schema = Schema::new(cols);
    let info = Arc::new(IndexInfo::new(schema.clone(), "h".into(), 1, "t".into(), 8, false, IndexType::BPlusTreeIndex, vec![at]));
    let ix = ExtendableHashTableIndex::try_new(info, p.bpm.clone(), HashFunction::new())?;
    let d = Ix { schema, at, kind };
    let ix = RwLock::new(ix);
    let threads = rng.urange(1, 3);
    let steady: BTreeSet<i64> = (0..3).map(|_| rng.range(0, 30)).collect();
    let txn = Transaction::new(1, IsolationLevel::ReadCommitted);
    for i in &steady {
        check!(ix.write().insert_entry(&d.row(*i), RID::new(77, *i as u32), &txn), "the index refuses its first entries");
    }
    let seeds: Vec<Rng> = (0..threads).map(|_| rng.fork()).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(me, mut rng)| {
                let (d, ix, rt, steady) = (&d, &ix, p.rt.clone(), &steady);
                s.spawn(move || -> Res {
                    let _in = rt.enter();
                    let txn = Transaction::new(10 + me as u64, IsolationLevel::ReadCommitted);
                    let mine = |r: &RID| r.get_page_id() == 100 + me as u64;
                    let mut m: BTreeMap<i64, BTreeSet<u32>> = BTreeMap::new();
                    for n in 0..rng.urange(20, 120) as u32 {
                        let i = rng.range(0, 30);
                        let e = m.entry(i).or_default();
                        if rng.chance(1, 2) {
                            if ix.write().insert_entry(&d.row(i), RID::new(100 + me as u64, n), &txn) {
                                e.insert(n);
                            }
                        } else if let Some(r) = e.iter().nth(rng.below(e.len().max(1))).copied() {
                            check!(ix.read().delete_entry(&d.row(i), RID::new(100 + me as u64, r), &txn), "the index denies holding an entry of key {i}");
                            e.remove(&r);
                        } else {
                            check!(!ix.read().delete_entry(&d.row(i), RID::new(100 + me as u64, n), &txn), "the index deletes an entry of key {i} it does not hold");
                        }
                        let i = rng.range(0, 30);
                        let want: BTreeSet<u32> = m.get(&i).cloned().unwrap_or_default();
                        let it = rng.chance(1, 3);
                        let got: Vec<RID> = if it {
                            let iter = ix.read().create_point_iterator(&d.row(i));
                            iter.take(200).collect()
                        } else {
                            ix.read().scan_key(&d.row(i), &txn)?.into_iter().map(|(k, r)| {
                                assert!(k == key(d.kind, i), "scan_key({i}) gives key {k}");
                                r
                            }).collect()
                        };
                        let own: BTreeSet<u32> = got.iter().filter(|r| mine(r)).map(|r| r.get_slot_num()).collect();
                        check!(own == want && got.iter().filter(|r| mine(r)).count() == want.len(), "key {i} gives {got:?} where this thread has {want:?} (iterator {it})");
                        check!(got.iter().any(|r| r.get_page_id() == 77) == steady.contains(&i), "key {i} gives {got:?}; held all along: {}", steady.contains(&i));
                        ctx.eval(1);
                    }
                    for (i, e) in m {
                        for r in e {
                            check!(ix.read().delete_entry(&d.row(i), RID::new(100 + me as u64, r), &txn), "the index lost entry {r} of key {i}");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for h in hs {
            h.join().map_err(|e| format!("a thread panicked: {:?}", e.downcast_ref::<String>()))??;
        }
        Ok::<_, String>(())
    })?;
    for i in 0..=30 {
        let got = ix.read().scan_key(&d.row(i), &txn)?;
        check!(got.len() == steady.contains(&i) as usize, "key {i} has {got:?} in the end");
    }
    ctx.seen(&("index", kind as u8, at, threads, seed % 4));
    Ok(())
}

/// A table larger than its pool.
fn evicted() -> Res {
    let p = Pool::new(6, 2);
    let _in = p.rt.enter();
    let mut t = DiskExtendableHashTable::new("h".into(), p.bpm.clone(), HashFunction::new(), 0, 5, 2)?;
    let mut held = vec![];
    for i in 0..40i64 {
        if t.insert(key(Kind::Big, i + 1), RID::new(i as u64, 0)) {
            held.push(i);
        }
    }
    for i in held {
        let got = t.get_value(&key(Kind::Big, i + 1));
        check!(got == Some(RID::new(i as u64, 0)), "key {i} gives {got:?} from a table larger than its pool");
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    let _ = INVALID_PAGE_ID;
    ctx.rule("a state is a distinct (directory depth, bucket size, entries held, phase) of a table or (limit, depth, buckets) of a directory, compared with the model in full");
    ctx.assume("the pool holds all pages of a table; keys are NULL or of the index's one column type; no (key, row) pair is inserted twice");
    ctx.probe("hash_table_larger_than_pool", evicted);
    ctx.explore("table", 6, 6.0, 100, 10_000_000, table);
    ctx.explore("directory", 2, 2.0, 100, 10_000_000, directory);
    ctx.explore("bucket", 1, 1.0, 100, 10_000_000, bucket);
    ctx.explore("index", 3, 3.0, 30, 10_000_000, index);
}

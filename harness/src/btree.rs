//! P09: the in-memory B+tree and its iterator against a sorted multimap.
use std::collections::BTreeSet;
use std::sync::Arc;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::storage::index::b_plus_tree::BPlusTree;
use ferrite::storage::index::index_iterator_mem::IndexIterator;
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

/// Keys are numbered; the number says where the key sorts.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Int,
    Big,
    Text,
    Decimal,
    Small,
}
pub fn key(k: Kind, i: i64) -> Value {
    // the lowest key is NULL
    if i <= 0 {
        return Value::new_with_type(Val::Null, type_of(k));
    }
    match k {
        Kind::Int => Value::new(i as i32 - 50),
        Kind::Big => Value::new((i - 50) * 40_000_000_000),
        Kind::Text => Value::new(format!("{}{}", "k".repeat((i / 40) as usize), (b'A' + (i % 40) as u8) as char)),
        Kind::Decimal => Value::new(i as f64 / 4.0 - 7.0),
        Kind::Small => Value::new((i - 50) as i16),
    }
}
pub fn type_of(k: Kind) -> TypeId {
    match k {
        Kind::Int => TypeId::Integer,
        Kind::Big => TypeId::BigInt,
        Kind::Text => TypeId::VarChar,
        Kind::Decimal => TypeId::Decimal,
        Kind::Small => TypeId::SmallInt,
    }
}
type Entry = (String, RID);
fn shown(v: &[(Value, RID)]) -> Vec<Entry> {
    v.iter().map(|(k, r)| (crate::execs::cell(k), *r)).collect()
}

struct Case {
    kind: Kind,
    order: usize,
    tree: Arc<RwLock<BPlusTree>>,
    schema: Schema,
    at: usize,
    txn: Transaction,
    model: BTreeSet<(i64, u64, u32)>,
    log: Vec<String>,
}
impl Case {
    fn row(&self, i: i64) -> Tuple {
        let vals: Vec<Value> = (0..self.schema.get_column_count() as usize)
            .map(|c| if c == self.at { key(self.kind, i) } else { Value::new_with_type(Val::Null, TypeId::Integer) })
            .collect();
        Tuple::new(&vals, &self.schema, RID::new(0, 0))
    }
    fn tell(&self) -> String {
        let n = self.log.len();
        format!("order {} keys {:?}: {}{}", self.order, self.kind, if n > 60 { "... " } else { "" }, self.log[n.saturating_sub(60)..].join(" "))
    }
    fn wanted(&self, lo: i64, hi: i64, include: bool) -> Vec<Entry> {
        self.model
            .iter()
            .filter(|(k, _, _)| *k >= lo && (*k < hi || (include && *k == hi)))
            .map(|(k, p, s)| (crate::execs::cell(&key(self.kind, *k)), RID::new(*p, *s)))
            .collect()
    }
    /// Ascending keys; entries of one key in any order.
    fn same(&self, what: &str, got: &[(Value, RID)], want: Vec<Entry>) -> Res {
        for w in got.windows(2) {
            check!(w[0].0.partial_cmp(&w[1].0).is_some_and(|o| o.is_le()), "{what}: key {} comes before {} after {}", w[0].0, w[1].0, self.tell());
        }
        let (mut a, mut b) = (shown(got), want);
        a.sort_by(|x, y| format!("{x:?}").cmp(&format!("{y:?}")));
        b.sort_by(|x, y| format!("{x:?}").cmp(&format!("{y:?}")));
        if a != b {
            let missing: Vec<_> = b.iter().filter(|e| !a.contains(e)).take(5).collect();
            let extra: Vec<_> = a.iter().filter(|e| !b.contains(e)).take(5).collect();
            return Err(format!("{what} gives {} entries, not {}; missing {missing:?}, extra {extra:?} after {}", a.len(), b.len(), self.tell()));
        }
        Ok(())
    }
    fn rids(&self, what: &str, got: Vec<RID>, want: Vec<Entry>) -> Res {
        // keys of the RIDs are unique here only together with the model: compare as bags, and by key order
        let mut a: Vec<String> = got.iter().map(|r| format!("{r:?}")).collect();
        let mut b: Vec<String> = want.iter().map(|e| format!("{:?}", e.1)).collect();
        a.sort();
        b.sort();
        check!(a == b, "{what} gives {} entries, not {} after {}", a.len(), b.len(), self.tell());
        Ok(())
    }
    fn verify(&self, ctx: &Ctx, rng: &mut Rng, top: i64) -> Res {
        let t = self.tree.read();
        self.same("scan_full", &t.scan_full()?, self.wanted(i64::MIN, i64::MAX, true))?;
        let lo = rng.range(-2, top + 2).clamp(0, top + 2);
        let hi = rng.range(lo - 1, top + 3).max(0);
        let include = rng.chance(1, 2);
        let got = t.scan_range(&self.row(lo), &self.row(hi), include)?;
        self.same(&format!("scan_range({lo},{hi},{include})"), &got, self.wanted(lo, hi, include))?;
        let k = rng.range(0, top);
        let got = t.scan_key(&self.row(k), &self.txn)?;
        self.same(&format!("scan_key({k})"), &got, self.wanted(k, k, true))?;
        ctx.eval(3);
        drop(t);
        // the iterator, bounded by its own count so that an endless one shows
        let cap = self.model.len() + 10;
        let mut it = IndexIterator::new(self.tree.clone(), Some(Arc::new(self.row(lo))), Some(Arc::new(self.row(hi))));
        let got: Vec<RID> = it.by_ref().take(cap).collect();
        self.rids(&format!("iterator {lo}..={hi}"), got, self.wanted(lo, hi, true))?;
        check!(it.next().is_none(), "an exhausted iterator gives a row after {}", self.tell());
        it.reset();
        let got: Vec<RID> = it.by_ref().take(cap).collect();
        self.rids(&format!("iterator {lo}..={hi} after reset"), got, self.wanted(lo, hi, true))?;
        let mut it = IndexIterator::new(self.tree.clone(), None, None);
        let got: Vec<RID> = it.by_ref().take(cap).collect();
        self.rids("iterator over all", got, self.wanted(i64::MIN, i64::MAX, true))?;
        let (lo, hi) = (rng.range(0, top), rng.range(0, top));
        let (mut it, l, h) = if rng.chance(1, 2) {
            (IndexIterator::new(self.tree.clone(), Some(Arc::new(self.row(lo))), None), lo, i64::MAX)
        } else {
            (IndexIterator::new(self.tree.clone(), None, Some(Arc::new(self.row(hi)))), i64::MIN, hi)
        };
        // both ends meet in the middle, each entry is given once
        let mut got = vec![];
        while got.len() < cap {
            let r = if rng.chance(1, 2) { it.next() } else { it.next_back() };
            match r {
                Some(r) => got.push(r),
                None => break,
            }
        }
        self.rids(&format!("iterator over {l}..={h} from both ends"), got, self.wanted(l, h, true))?;
        ctx.eval(4);
        // seek into a range
        let lo = rng.range(0, top);
        let end = rng.chance(2, 3).then(|| rng.range(lo, top + 1));
        let hi = end.unwrap_or(i64::MAX);
        let from = rng.chance(1, 2).then(|| Arc::new(self.row(0)));
        let mut it = IndexIterator::new(self.tree.clone(), from, end.map(|h| Arc::new(self.row(h))));
        let used = rng.below(4);
        for _ in 0..used {
            it.next();
        }
        if rng.chance(1, 4) {
            // a reset iterator starts over, however far it was, and from both ends
            it.reset();
            let mut got: Vec<RID> = it.next_back().into_iter().collect();
            got.extend(it.by_ref().take(cap));
            self.rids(&format!("iterator reset after {used} steps"), got, self.wanted(i64::MIN, hi, true))?;
        }
        let mut got: Vec<RID> = it.try_seek(&self.row(lo))?.into_iter().collect();
        got.extend(it.by_ref().take(cap));
        self.rids(&format!("seek({lo}) after {used} steps"), got, self.wanted(lo, hi, true))
    }
}

fn history(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let kind = *rng.pick(&[Kind::Int, Kind::Int, Kind::Big, Kind::Text, Kind::Decimal, Kind::Small]);
    let order = *rng.pick(&[3, 4, 4, 4, 5, 6, 8, 16]);
    let width = 1 + rng.below(3);
    let at = rng.below(width);
    let cols: Vec<Column> = (0..width).map(|c| Column::new(&format!("c{c}"), if c == at { type_of(kind) } else { TypeId::Integer })).collect();
    let info = IndexInfo::new(Schema::new(vec![cols[at].clone()]), "i".into(), 0, "t".into(), 8, false, IndexType::BPlusTreeIndex, vec![at]);
    let mut c = Case {
        kind,
        order,
        tree: Arc::new(RwLock::new(BPlusTree::new(order, Arc::new(info)))),
        schema: Schema::new(cols),
        at,
        txn: Transaction::new(1, IsolationLevel::ReadCommitted),
        model: BTreeSet::new(),
        log: vec![],
    };
    // few keys give many duplicates
    let top = *rng.pick(&[3, 12, 40, 100]);
    let rids = *rng.pick(&[1usize, 2, 3, 60]);
    let mut size = 0usize;
    let (mut ups, mut downs) = (0u64, 0u64);
    for phase in 0..3 + rng.below(4) {
        let p_insert = *rng.pick(&[95, 70, 50, 20, 5]);
        let pattern = rng.below(3);
        let steps = 10 + rng.below(90);
        for s in 0..steps {
            let k = match pattern {
                0 => (s as i64) % (top + 1),
                1 => top - (s as i64) % (top + 1),
                _ => rng.range(0, top),
            };
            if rng.below(100) < p_insert {
                let (p, sl) = (rng.below(2) as u64, rng.below(rids) as u32);
                let want = c.model.insert((k, p, sl));
                c.log.push(format!("+{k}/{p}.{sl}"));
                let row = c.row(k);
                let got = c.tree.write().insert_entry(&row, RID::new(p, sl), &c.txn);
                check!(got == want, "insert says {got}, but the entry was {} after {}", if want { "new" } else { "there" }, c.tell());
                ups += want as u64;
            } else {
                // mostly an entry that is there
                let e = if rng.chance(4, 5) && !c.model.is_empty() {
                    *c.model.iter().nth(rng.below(c.model.len())).unwrap()
                } else {
                    (k, rng.below(2) as u64, rng.below(rids) as u32)
                };
                let want = c.model.remove(&e);
                c.log.push(format!("-{}/{}.{}", e.0, e.1, e.2));
                let got = c.tree.read().delete_entry(&c.row(e.0), RID::new(e.1, e.2), &c.txn);
                check!(got == want, "delete says {got}, but the entry was {} after {}", if want { "there" } else { "absent" }, c.tell());
                downs += want as u64;
            }
            size = size.max(c.model.len());
            if rng.chance(1, 6) {
                c.verify(ctx, rng, top)?;
                ctx.seen(&(order, c.model.len(), top, phase));
            }
        }
        c.verify(ctx, rng, top)?;
    }
    ctx.count("inserted", ups);
    ctx.count("deleted", downs);
    ctx.max("largest", size as u64);
    ctx.sample("history", || json!(c.log.iter().take(30).collect::<Vec<_>>()));
    Ok(())
}

/// Writers and scans at once: what is there all along comes once, what ended before a scan began or
/// begins after it never, and the rest at most once; keys never go back.
pub fn concurrent(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let order = *rng.pick(&[4, 5, 8]);
    let info = IndexInfo::new(Schema::new(vec![Column::new("k", TypeId::Integer)]), "i".into(), 0, "t".into(), 8, false, IndexType::BPlusTreeIndex, vec![0]);
    let schema = Schema::new(vec![Column::new("k", TypeId::Integer)]);
    let tree = Arc::new(RwLock::new(BPlusTree::new(order, Arc::new(info))));
    let row = |k: i64| Tuple::new(&[key(Kind::Int, k)], &schema, RID::new(0, 0));
    let txn = Transaction::new(1, IsolationLevel::ReadCommitted);
    let top = 60i64;
    // page 9: there all along. page t: of writer t, slot counts its turns on that key
    for k in (1..top).step_by(3) {
        check!(tree.write().insert_entry(&row(k), RID::new(9, k as u32), &txn), "a new entry is refused");
    }
    let clock = std::sync::atomic::AtomicU64::new(1);
    let tick = || clock.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    // (key, writer, turn) -> [insert called, insert returned, delete called, delete returned]
    type Life = std::collections::BTreeMap<(i64, u64, u32), [u64; 4]>;
    let lives: parking_lot::Mutex<Life> = Default::default();
    let seeds: Vec<u64> = (0..3).map(|_| rng.next()).collect();
    let scans: Vec<(u64, u64, i64, i64, Vec<RID>)> = std::thread::scope(|s| {
        let writers: Vec<_> = (0..3u64)
            .map(|w| {
                let (lives, tree, row, txn, tick) = (&lives, &tree, &row, &txn, &tick);
                let mut r = Rng::new(seeds[w as usize]);
                s.spawn(move || -> Res {
                    let mut turns = vec![0u32; top as usize];
                    let mut held = vec![false; top as usize];
                    for _ in 0..150 {
                        let k = r.range(1, top - 1);
                        let i = k as usize;
                        if held[i] {
                            let id = (k, w, turns[i]);
                            lives.lock().get_mut(&id).unwrap()[2] = tick();
                            check!(tree.write().delete_entry(&row(k), RID::new(w, turns[i] * 100 + k as u32), txn), "entry {id:?} cannot be deleted");
                            lives.lock().get_mut(&id).unwrap()[3] = tick();
                            held[i] = false;
                        } else {
                            turns[i] += 1;
                            let id = (k, w, turns[i]);
                            lives.lock().insert(id, [tick(), u64::MAX, u64::MAX, u64::MAX]);
                            check!(tree.write().insert_entry(&row(k), RID::new(w, turns[i] * 100 + k as u32), txn), "new entry {id:?} is refused");
                            lives.lock().get_mut(&id).unwrap()[1] = tick();
                            held[i] = true;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let readers: Vec<_> = (0..2)
            .map(|i| {
                let (tree, row, tick) = (&tree, &row, &tick);
                let mut r = Rng::new(seeds[2] ^ (77 + i));
                s.spawn(move || {
                    let mut out = vec![];
                    for _ in 0..40 {
                        let (a, b) = (r.range(1, top), r.range(1, top));
                        let (lo, hi) = (a.min(b), a.max(b));
                        let began = tick();
                        let it = IndexIterator::new(tree.clone(), Some(Arc::new(row(lo))), Some(Arc::new(row(hi))));
                        let got: Vec<RID> = it.take(1000).collect();
                        out.push((began, tick(), lo, hi, got));
                    }
                    out
                })
            })
            .collect();
        let mut scans = vec![];
        for r in readers {
            scans.extend(r.join().map_err(|_| "a reader panicked".to_string())?);
        }
        for w in writers {
            w.join().map_err(|_| "a writer panicked".to_string())??;
        }
        Ok::<_, String>(scans)
    })?;
    let lives = lives.into_inner();
    for (began, ended, lo, hi, got) in &scans {
        let key_of = |r: &RID| if r.get_page_id() == 9 { r.get_slot_num() as i64 } else { (r.get_slot_num() % 100) as i64 };
        for w in got.windows(2) {
            check!(key_of(&w[0]) <= key_of(&w[1]), "a scan of {lo}..={hi} goes from key {} back to {}", key_of(&w[0]), key_of(&w[1]));
        }
        let set: std::collections::HashSet<(u64, u32)> = got.iter().map(|r| (r.get_page_id(), r.get_slot_num())).collect();
        check!(set.len() == got.len(), "a scan of {lo}..={hi} gives an entry twice: {got:?}");
        for r in got {
            let k = key_of(r);
            check!(k >= *lo && k <= *hi, "a scan of {lo}..={hi} gives key {k}");
            if r.get_page_id() != 9 {
                let l = lives.get(&(k, r.get_page_id(), r.get_slot_num() / 100)).ok_or_else(|| format!("a scan gives {r:?}, which was never inserted"))?;
                check!(l[0] < *ended && l[3] > *began, "a scan during {began}..{ended} gives {r:?}, in the tree during {l:?} only");
            }
        }
        for k in (1..top).step_by(3).filter(|k| k >= lo && k <= hi) {
            check!(set.contains(&(9, k as u32)), "a scan of {lo}..={hi} misses key {k}, which was there all along");
        }
        for ((k, w, t), l) in &lives {
            if k >= lo && k <= hi && l[1] < *began && l[2] > *ended {
                check!(set.contains(&(*w, t * 100 + *k as u32)), "a scan of {lo}..={hi} during {began}..{ended} misses key {k} of writer {w}, there during {l:?}");
                ctx.count("concurrent entries required", 1);
            }
        }
        ctx.eval(1);
    }
    // and what is left is what was not deleted
    let left = tree.read().scan_full()?;
    let want = lives.values().filter(|l| l[3] == u64::MAX).count() + (1..top).step_by(3).count();
    check!(left.len() == want, "{} entries are left, not {want}", left.len());
    ctx.seen(&("concurrent", order, want));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (order, entries held, key space, phase) at which all scans were compared with the model");
    ctx.assume("keys are NULL (the lowest) or of the index's one column type; writers are serialised by the lock around the tree, as its callers do");
    ctx.explore("history", 8, 6.0, 300, 10_000_000, history);
    ctx.explore("concurrent", 3, 3.0, 30, 10_000_000, concurrent);
}

//! P10: the B+tree whose nodes are pages of the buffer pool, against a sorted map.
use std::collections::BTreeMap;
use std::sync::Arc;

use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::storage::index::b_plus_tree_index::BPlusTreeIndex;
use ferrite::storage::index::types::comparators::{I32Comparator, i32_comparator};
use ferrite::storage::index::{IndexInfo, IndexType};
use parking_lot::RwLock;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

type Tree = BPlusTreeIndex<i32, RID, I32Comparator>;

fn whole(tree: &Tree, m: &BTreeMap<i32, RID>, order: usize, checked: bool) -> Res {
    check!(tree.get_size() == m.len(), "the index counts {} entries, {} are in it", tree.get_size(), m.len());
    check!(tree.is_empty() == m.is_empty(), "is_empty() says {} with {} entries", tree.is_empty(), m.len());
    let keys = tree.in_order_traversal().map_err(|e| format!("in-order traversal: {e}"))?;
    let want: Vec<i32> = m.keys().copied().collect();
    check!(keys == want, "the index holds {keys:?}, expected {want:?}");
    let got = tree.range_scan(&i32::MIN, &i32::MAX).map_err(|e| format!("full range: {e}"))?;
    let want: Vec<(i32, RID)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    check!(got == want, "the full range is {got:?}, expected {want:?}");
    if checked {
        let s = tree.validate_tree().map_err(|e| format!("validation: {e}"))?;
        check!(s.get_total_keys() == m.len() && s.is_balanced(), "validation counts {} keys of {} (balanced: {})", s.get_total_keys(), m.len(), s.is_balanced());
        if !m.is_empty() {
            tree.validate_leaf_links().map_err(|e| format!("leaf links: {e}"))?;
        }
        let h = tree.get_height() as usize;
        check!((h == 0) == m.is_empty(), "height {h} with {} entries", m.len());
        // every node but the root is at least a third full
        let least = ((order / 2).max(1)).pow(h.saturating_sub(1) as u32);
        check!(m.is_empty() || h <= 1 || m.len() + 1 >= least, "height {h} for {} entries of order {order}", m.len());
    }
    Ok(())
}

fn model(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let rt = crate::util::runtime_n(2);
    let dir = crate::util::Scratch::new("paged");
    let bpm = rt.block_on(async {
        let disk = AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default()).await.expect("disk manager");
        Arc::new(BufferPoolManager::new(2000, Arc::new(disk), Arc::new(RwLock::new(LRUKReplacer::new(2000, 2)))).expect("pool"))
    });
    let _g = rt.enter();
    let order = *rng.pick(&[3usize, 4, 4, 5, 6, 7, 8, 13, 32]);
    let info = IndexInfo::new(Schema::new(vec![]), "i".into(), 1, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![0]);
    let mut tree = Tree::new(i32_comparator, info, bpm.clone());
    tree.init_with_order(order as u32).map_err(|e| e.to_string())?;
    let span = *rng.pick(&[10i32, 40, 150, 600]);
    let shape = rng.below(4);
    let mut m: BTreeMap<i32, RID> = BTreeMap::new();
    let mut log: Vec<String> = vec![format!("order {order} span {span}")];
    let run = (|| -> Res {
        let steps = rng.range(20, 700);
        let mut next = if rng.chance(1, 2) { 0 } else { span };
        let mut growing = true;
        for step in 0..steps {
            if rng.chance(1, 60) {
                growing = !growing;
            }
            let k = match shape {
                0 => {
                    next += 1;
                    next % (2 * span)
                }
                1 => {
                    next -= 1;
                    next
                }
                _ => rng.below(span as usize) as i32 - span / 3,
            };
            let what = rng.below(100);
            if what < if growing { 60 } else { 20 } {
                let v = RID::new(rng.below(1000) as u64, step as u32);
                log.push(format!("insert {k}"));
                let r = if rng.chance(1, 2) { tree.insert(k, v) } else { tree.insert_with_latch_crabbing(k, v) };
                r.map_err(|e| format!("insert {k}: {e}"))?;
                m.insert(k, v);
                ctx.count("inserts", 1);
            } else if what < 85 {
                let k = if !m.is_empty() && rng.chance(4, 5) {
                    match shape {
                        0 => *m.keys().next().unwrap(),
                        1 => *m.keys().next_back().unwrap(),
                        _ => *m.keys().nth(rng.below(m.len())).unwrap(),
                    }
                } else {
                    k
                };
                log.push(format!("remove {k}"));
                let r = if rng.chance(1, 2) { tree.remove(&k) } else { tree.remove_with_latch_crabbing(&k) };
                let r = r.map_err(|e| format!("remove {k}: {e}"))?;
                let had = m.remove(&k).is_some();
                check!(r == had, "remove {k} answered {r}, the entry was there: {had}");
                ctx.count("removes", 1);
            } else if what < 93 {
                let r = tree.search(&k).map_err(|e| format!("search {k}: {e}"))?;
                check!(r == m.get(&k).copied(), "search {k} gave {r:?}, expected {:?}", m.get(&k));
                ctx.count("searches", 1);
            } else {
                let b = k + rng.below(span as usize) as i32 - span / 8;
                let r = tree.range_scan(&k, &b).map_err(|e| format!("range {k}..={b}: {e}"))?;
                let want: Vec<(i32, RID)> = if k > b { vec![] } else { m.range(k..=b).map(|(k, v)| (*k, *v)).collect() };
                check!(r == want, "range {k}..={b} gave {r:?}, expected {want:?}");
                ctx.count("ranges", 1);
            }
            ctx.eval(1);
            ctx.max("height", tree.get_height() as u64);
            ctx.seen(&(order, tree.get_height(), m.len(), growing));
            if m.len() < 40 || rng.chance(1, 12) {
                whole(&tree, &m, order, true)?;
            }
        }
        // what is left goes in a random order
        let mut left: Vec<i32> = m.keys().copied().collect();
        rng.shuffle(&mut left);
        for k in left {
            log.push(format!("remove {k}"));
            check!(tree.remove(&k).map_err(|e| format!("remove {k}: {e}"))?, "remove {k} found nothing");
            m.remove(&k);
            if rng.chance(1, 5) {
                whole(&tree, &m, order, true)?;
            }
        }
        whole(&tree, &m, order, true)
    })();
    run.map_err(|e| format!("{e}\nseed {seed}, after {} steps: {}", log.len(), log[log.len().saturating_sub(200)..].join("; ")))
}

/// A tree with more nodes than its pool has frames.
fn beyond_the_pool(_: &Ctx) -> Res {
    let rt = crate::util::runtime_n(2);
    let dir = crate::util::Scratch::new("paged");
    let bpm = rt.block_on(async {
        let disk = AsyncDiskManager::new(dir.file("t.db"), dir.file("t.log"), DiskManagerConfig::default()).await.expect("disk manager");
        Arc::new(BufferPoolManager::new(20, Arc::new(disk), Arc::new(RwLock::new(LRUKReplacer::new(20, 2)))).expect("pool"))
    });
    let _g = rt.enter();
    let info = IndexInfo::new(Schema::new(vec![]), "i".into(), 1, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![0]);
    let mut tree = Tree::new(i32_comparator, info, bpm);
    tree.init_with_order(4).map_err(|e| e.to_string())?;
    for k in 0..200 {
        tree.insert(k, RID::new(1, k as u32)).map_err(|e| format!("insert {k}: {e}"))?;
    }
    for k in 0..200 {
        let r = tree.search(&k).map_err(|e| format!("search {k}: {e}"))?;
        check!(r == Some(RID::new(1, k as u32)), "search {k} gave {r:?}");
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("single-threaded histories of insert, remove (plain and latch-crabbing), search and range scan over orders 3 to 32, checked against a sorted map with full traversal and structure validation");
    ctx.assume("the pool keeps every node resident: these pages cannot be loaded back from disk");
    let c = ctx.clone();
    ctx.probe("paged_tree_larger_than_pool", move || beyond_the_pool(&c));
    ctx.explore("model", 8, 8.0, 60, 10_000_000, model);
}

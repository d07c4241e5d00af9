//! P07: the slotted table page against a list of slots.
use ferrite::common::config::{DB_PAGE_SIZE, INVALID_PAGE_ID};
use ferrite::common::rid::RID;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{Page, PageTrait, PageType};
use ferrite::storage::table::tuple::TupleMeta;
use ferrite::types_db::value::Value;
use serde_json::json;
use std::sync::Arc;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;

type Image = [u8; DB_PAGE_SIZE as usize];

struct Model {
    /// no deleted tuple was inserted, so the page's count of deleted tuples is due
    counted: bool,
    id: u64,
    slots: Vec<(TupleMeta, Vec<String>)>,
    next: u64,
    prev: u64,
}

fn meta(rng: &mut Rng) -> TupleMeta {
    let big = |r: &mut Rng| r.next() >> r.below(64);
    let mut m = TupleMeta::new_with_delete(big(rng), rng.chance(1, 6));
    if rng.chance(1, 2) {
        m.set_commit_timestamp(big(rng));
    }
    if rng.chance(1, 2) {
        let _ = m.set_undo_log_idx(rng.below(1 << 20));
    }
    m
}

fn compare(p: &TablePage, m: &Model, what: &str) -> Res {
    check!(p.get_num_tuples() as usize == m.slots.len(), "{what}: {} tuples reported, {} stored", p.get_num_tuples(), m.slots.len());
    check!(p.get_page_id() == m.id, "{what}: page id {}", p.get_page_id());
    check!(p.get_page_type() == PageType::Table, "{what}: page type changed");
    check!(p.get_next_page_id() == m.next, "{what}: next page {} instead of {}", p.get_next_page_id(), m.next);
    check!(p.get_prev_page_id() == m.prev, "{what}: previous page {} instead of {}", p.get_prev_page_id(), m.prev);
    let gone = m.slots.iter().filter(|s| s.0.is_deleted()).count();
    check!(!m.counted || p.get_num_deleted_tuples() as usize == gone, "{what}: counts {} deleted tuples, {gone} are", p.get_num_deleted_tuples());
    for (i, (meta, vals)) in m.slots.iter().enumerate() {
        let rid = RID::new(m.id, i as u32);
        let (gm, gt) = p.get_tuple(&rid, true).map_err(|e| format!("{what}: slot {i} unreadable: {e}"))?;
        check!(gm == *meta, "{what}: slot {i} metadata {gm:?} instead of {meta:?}");
        check!(gt.get_rid() == rid, "{what}: slot {i} carries {:?}", gt.get_rid());
        let g = gens::keys(&gt.get_values());
        check!(g == *vals, "{what}: slot {i} holds {g:?} instead of {vals:?}");
        check!(p.get_tuple_meta(&rid).as_ref() == Ok(meta), "{what}: slot {i} get_tuple_meta {:?}", p.get_tuple_meta(&rid));
        check!(p.get_tuple(&rid, false).is_ok() != meta.is_deleted(), "{what}: slot {i} deleted={} but a plain read says {:?}", meta.is_deleted(), p.get_tuple(&rid, false).map(|x| x.0));
    }
    Ok(())
}

fn reload(p: &TablePage, m: &Model) -> Res {
    let image: Image = *p.get_data();
    check!(image[..] == p.serialize()[..], "the page image handed to the buffer pool is not the page's current content");
    let q = TablePage::deserialize(&image).map_err(|e| format!("own image does not load: {e}"))?;
    compare(&q, m, "deserialized copy")?;
    // the way the buffer pool brings a page back
    let mut r = TablePage::new(m.id);
    r.set_data(0, &image).map_err(|e| format!("own image does not load into a frame: {e:?}"))?;
    compare(&r, m, "page loaded into a frame")
}

pub fn sequence(ctx: &Ctx, rng: &mut Rng) -> Res {
    let (schema, types) = gens::schema(rng, 5);
    let id = rng.next() >> (8 + rng.below(50));
    let mut p = TablePage::new(id);
    p.init();
    let mut m = Model { counted: rng.chance(1, 2), id, slots: vec![], next: INVALID_PAGE_ID, prev: INVALID_PAGE_ID };
    let maxlen = *rng.pick(&[4, 12, 40, 200, 900, 4000]);
    let mut trace: Vec<String> = vec![];
    let mut updates = 0u64;
    let n = rng.range(10, 150);
    for step in 0..n {
        let vals: Vec<Value> = gens::values(rng, &types, maxlen);
        let mut mt = meta(rng);
        let slot = rng.below(m.slots.len() + 2);
        let rid = RID::new(id, slot as u32);
        let what = rng.below(13);
        if what < 4 && m.counted {
            mt.set_deleted(false);
        }
        match what {
            0..=3 => {
                let want = RID::new(id, m.slots.len() as u32);
                let t = gens::tuple(&vals, &schema, want);
                let fits = p.has_space_for(&mt, &t);
                let free = p.get_free_space();
                let got = p.insert_tuple(&mt, &t);
                trace.push(format!("insert {} values={} -> {got:?}", m.slots.len(), vals.len()));
                check!(fits == got.is_some(), "has_space_for said {fits}, insert_tuple {got:?}; {trace:?}");
                ctx.count(if fits { "inserts" } else { "inserts_refused" }, 1);
                if let Some(r) = got {
                    check!(r == want, "insert returned {r:?} instead of {want:?}");
                    m.slots.push((mt, gens::keys(&vals)));
                } else {
                    let len = t.get_length().unwrap_or(0);
                    // a page without relocated tuples must take what fits beside worst-case metadata
                    check!(updates > 0 || len > 3500 || free < len + 40, "a {len}-byte tuple is refused with {free} bytes free; {trace:?}");
                }
            },
            4 if !m.slots.is_empty() => {
                // wrong slot announced in the tuple
                let t = gens::tuple(&vals, &schema, RID::new(id, m.slots.len() as u32 + 1));
                check!(p.insert_tuple(&mt, &t).is_none(), "a tuple carrying a foreign slot was inserted");
            },
            5..=7 => {
                let t = gens::tuple(&vals, &schema, rid);
                let r = p.update_tuple(mt, &t, rid);
                trace.push(format!("update {slot} -> {r:?}"));
                updates += 1;
                if slot >= m.slots.len() {
                    check!(r.is_err(), "slot {slot} of {} updated", m.slots.len());
                } else if r.is_ok() {
                    ctx.count("updates", 1);
                    m.slots[slot] = (mt, gens::keys(&vals));
                } else {
                    ctx.count("updates_refused", 1);
                }
            },
            8 | 9 => {
                let r = p.update_tuple_meta(mt, &rid);
                trace.push(format!("update_meta {slot} -> {r:?}"));
                check!(r.is_ok() == (slot < m.slots.len()), "update_tuple_meta of slot {slot} of {}: {r:?}", m.slots.len());
                if r.is_ok() {
                    ctx.count("meta_updates", 1);
                    m.slots[slot].0 = mt;
                }
            },
            12 => {
                // the in-place update of its own size takes tuples of exactly that size
                let t = gens::tuple(&vals, &schema, rid);
                // Safety: the page belongs to this thread alone
                let r = unsafe { p.update_tuple_in_place_unsafe(mt, &t, rid) };
                trace.push(format!("update in place {slot} -> {r:?}"));
                updates += 1;
                if r.is_ok() {
                    check!(slot < m.slots.len(), "slot {slot} of {} updated in place", m.slots.len());
                    ctx.count("in_place", 1);
                    m.slots[slot] = (mt, gens::keys(&vals));
                }
            },
            10 => {
                let x = rng.next() >> rng.below(60);
                if rng.chance(1, 2) {
                    p.set_next_page_id(x);
                    m.next = x;
                } else {
                    p.set_prev_page_id(x);
                    m.prev = x;
                }
            },
            _ => {
                check!(p.get_tuple(&RID::new(id + 1, 0), true).is_err(), "a RID of another page was served");
                check!(p.get_tuple(&RID::new(id, m.slots.len() as u32), true).is_err(), "a slot past the end was served");
            },
        }
        if step % 7 == 0 || step + 1 == n {
            reload(&p, &m).map_err(|e| format!("{e}; {trace:?}"))?;
            ctx.count("reloads", 1);
            if rng.chance(1, 8) {
                let image: Image = *p.get_data();
                p = TablePage::deserialize(&image).map_err(|e| e.to_string())?;
                trace.push("reload".into());
            }
        }
        compare(&p, &m, "page").map_err(|e| format!("{e}; {trace:?}"))?;
        ctx.seen(&(m.slots.len(), p.get_free_space(), m.slots.iter().filter(|s| s.0.is_deleted()).count()));
    }
    ctx.max("max_slots", m.slots.len() as u64);
    ctx.sample("page", || json!({"slots": m.slots.len(), "ops": trace.iter().take(12).collect::<Vec<_>>()}));
    Ok(())
}

/// A shrunk version can always grow back to what it was: an aborted update must be undoable.
fn restore(ctx: &Ctx, rng: &mut Rng) -> Res {
    let (schema, types) = gens::schema(rng, 3);
    let mut p = TablePage::new(7);
    p.init();
    let mut m = Model { counted: false, id: 7, slots: vec![], next: INVALID_PAGE_ID, prev: INVALID_PAGE_ID };
    let maxlen = *rng.pick(&[20, 60, 200]);
    loop {
        let rid = RID::new(7, m.slots.len() as u32);
        let v = gens::values(rng, &types, maxlen);
        let mt = TupleMeta::new(1);
        if p.insert_tuple(&mt, &gens::tuple(&v, &schema, rid)).is_none() {
            break;
        }
        m.slots.push((mt, gens::keys(&v)));
        if m.slots.len() > 200 {
            break;
        }
    }
    for _ in 0..20 {
        if m.slots.is_empty() {
            break;
        }
        let s = rng.below(m.slots.len());
        let rid = RID::new(7, s as u32);
        let (om, ot) = p.get_tuple(&rid, true)?;
        let v = gens::values(rng, &types, maxlen);
        if p.update_tuple(meta(rng), &gens::tuple(&v, &schema, rid), rid).is_ok() {
            p.update_tuple(om, &ot, rid)
                .map_err(|e| format!("the previous version of slot {s} does not fit back after an update: {e:?}"))?;
            ctx.count("restores", 1);
        }
        compare(&p, &m, "after restoring")?;
    }
    // every version can be stamped, however full the page is
    for s in 0..m.slots.len() {
        let mut mt = TupleMeta::new(u64::MAX - 1);
        mt.set_commit_timestamp(u64::MAX - 1);
        let _ = mt.set_undo_log_idx(usize::MAX - 1);
        p.update_tuple_meta(mt, &RID::new(7, s as u32))?;
        m.slots[s].0 = mt;
    }
    compare(&p, &m, "after stamping a full page")?;
    reload(&p, &m)
}

/// Damaged images are rejected or read as something, but never bring the process down.
pub fn damaged(ctx: &Ctx, rng: &mut Rng) -> Res {
    let (schema, types) = gens::schema(rng, 3);
    let mut p = TablePage::new(3);
    p.init();
    for i in 0..rng.below(20) {
        let v = gens::values(rng, &types, 30);
        p.insert_tuple(&meta(rng), &gens::tuple(&v, &schema, RID::new(3, i as u32)));
    }
    let mut image: Image = *p.get_data();
    for _ in 0..1 + rng.below(6) {
        let at = if rng.chance(3, 4) { rng.below(400) } else { rng.below(image.len()) };
        image[at] = rng.next() as u8;
    }
    match TablePage::deserialize(&image) {
        Ok(q) => {
            ctx.count("damaged_accepted", 1);
            for s in 0..q.get_num_tuples().min(300) {
                let _ = q.get_tuple(&RID::new(q.get_page_id(), s as u32), true);
            }
        },
        Err(_) => ctx.count("damaged_rejected", 1),
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("random insert/update/metadata/link sequences with tuples of 1-5 columns of every scalar type and sizes up to the page, whole page content compared with a slot list after every step, image and both load paths compared regularly; shrink-and-restore and stamping on full pages; damaged images. Non-trivial = distinct (slots, free bytes, deleted slots)");
    ctx.explore("sequence", 6, 8.0, 60, u64::MAX, |c, r, _| sequence(c, r));
    ctx.explore("restore", 6, 3.0, 30, u64::MAX, |c, r, _| restore(c, r));
    ctx.explore("damaged", 4, 2.0, 100, u64::MAX, |c, r, _| damaged(c, r));
}

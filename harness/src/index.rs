//! P22: reading a table through an index. Index scans, joins and statements driven by them against
//! a scan of the table in the same transaction, while others write and indexes come into being.
use std::sync::Arc;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction::{IsolationLevel, TransactionState};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_index_plan::CreateIndexPlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::Mutex;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::execs::{Row, Table, Ty, World, bag, expr, line, sound, val};
use crate::exprs::{Ex, Op, build, eval, small, truth};
use crate::rng::Rng;

const KEYS: [Ty; 7] = [Ty::Integer, Ty::Integer, Ty::BigInt, Ty::VarChar, Ty::Decimal, Ty::SmallInt, Ty::Boolean];
const LEVELS: [IsolationLevel; 4] = [IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::ReadUncommitted];

#[derive(Clone)]
struct Idx {
    oid: u64,
    name: String,
    table: usize,
    attrs: Vec<usize>,
}
struct Open {
    tx: Arc<TransactionContext>,
    no: usize,
    wrote: bool,
}

/// Conditions of the shapes an index scan reads bounds from, right ones and misleading ones.
fn cond(rng: &mut Rng, d: usize, types: &[Ty], key: usize) -> Ex {
    let bx = |e| Box::new(e);
    if d > 0 && rng.chance(2, 3) {
        return match rng.below(5) {
            0 => Ex::Not(bx(cond(rng, d - 1, types, key)), rng.chance(1, 5)),
            1 | 2 => Ex::Logic(true, bx(cond(rng, d - 1, types, key)), bx(cond(rng, d - 1, types, key)), rng.chance(1, 5)),
            _ => Ex::Logic(false, bx(cond(rng, d - 1, types, key)), bx(cond(rng, d - 1, types, key)), rng.chance(1, 5)),
        };
    }
    let c = if rng.chance(3, 4) { key } else { rng.below(types.len()) };
    let t = types[c];
    let number = |t: Ty| !matches!(t, Ty::VarChar | Ty::Boolean);
    let ct = if number(t) && rng.chance(1, 4) { *rng.pick(&[Ty::BigInt, Ty::Decimal, Ty::Integer, Ty::TinyInt]) } else { t };
    let op = *rng.pick(&[Op::Eq, Op::Eq, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Ne]);
    let k = match rng.below(12) {
        // another column, or an expression of the row, on the right
        0 => {
            let other: Vec<usize> = (0..types.len()).filter(|i| types[*i] == t).collect();
            let o = *rng.pick(&other);
            Ex::Col(o, types[o])
        },
        _ => Ex::Const(small(rng, ct)),
    };
    let col = Ex::Col(c, t);
    match rng.below(10) {
        0 => Ex::Cmp(op, bx(k), bx(col), false),
        1 if t == Ty::Integer => Ex::Cmp(op, bx(Ex::Arith('-', bx(Ex::Const(Value::new(1i32))), bx(col), false)), bx(k), false),
        2 => Ex::IsNull(bx(col), rng.chance(1, 2)),
        _ => Ex::Cmp(op, bx(col), bx(k), rng.chance(1, 10)),
    }
}
fn holds(es: &[Ex], row: &[Value]) -> bool {
    es.iter().all(|e| truth(&eval(e, row).r.expect("sound")) == Some(true))
}
fn seq(t: &Table) -> PlanNode {
    PlanNode::SeqScan(SeqScanPlanNode::new(t.schema.clone(), t.oid, t.name.clone()))
}
fn scan(t: &Table, x: &Idx, es: &[Ex]) -> PlanNode {
    let n = t.types.len();
    PlanNode::IndexScan(IndexScanNode::new(t.schema.clone(), t.name.clone(), t.oid, x.name.clone(), x.oid, es.iter().map(|e| build(e, n)).collect()))
}
fn conds(rng: &mut Rng, types: &[Ty], x: &Idx, rows: &[Row]) -> Vec<Ex> {
    let n = *rng.pick(&[0, 1, 1, 1, 2, 2, 3]);
    let d = rng.below(4);
    (0..n).map(|_| cond(rng, d, types, x.attrs[0])).filter(|e| sound(e, rows)).collect()
}
fn differ(what: &str, got: &[Row], want: &[Row]) -> Res {
    let (g, w) = (bag(got), bag(want));
    if g != w {
        let pick = |a: &std::collections::BTreeMap<String, usize>, b: &std::collections::BTreeMap<String, usize>| {
            a.iter().filter(|(k, n)| b.get(*k).copied().unwrap_or(0) < **n).map(|(k, _)| format!("({k})")).take(4).collect::<Vec<_>>()
        };
        return Err(format!("{what}: {} rows instead of {}; missing {:?}, too many {:?}", got.len(), want.len(), pick(&w, &g), pick(&g, &w)));
    }
    Ok(())
}

struct Case {
    w: World,
    idx: Vec<Idx>,
    open: Vec<Open>,
    log: Vec<String>,
    next: usize,
}
impl Case {
    fn tell(&self) -> String {
        let n = self.log.len();
        self.log[n.saturating_sub(25)..].join("; ")
    }
    fn make_index(&mut self, rng: &mut Rng) -> Res {
        let i = rng.below(self.w.tables.len());
        let t = &self.w.tables[i];
        let c: Vec<usize> = (0..t.types.len()).filter(|c| t.types[*c] != Ty::Boolean || rng.chance(1, 3)).collect();
        if c.is_empty() {
            return Ok(());
        }
        let mut attrs = vec![*rng.pick(&c)];
        if rng.chance(1, 6) && t.types.len() > 1 {
            attrs.push((attrs[0] + 1) % t.types.len());
        }
        let name = format!("i{}", self.next);
        self.next += 1;
        let key = Schema::new(attrs.iter().map(|a| t.schema.get_column(*a).unwrap().clone()).collect());
        let _g = self.w.db.rt.enter();
        if rng.chance(1, 2) {
            let tx = self.w.db.begin(IsolationLevel::ReadCommitted);
            let p = PlanNode::CreateIndex(CreateIndexPlanNode::new(key, t.name.clone(), name.clone(), attrs.clone(), false));
            self.w.run(&p, &tx)?;
            check!(self.w.db.commit(tx), "commit of CREATE INDEX refused");
        } else {
            let r = self.w.db.catalog.write().create_index(&name, &t.name, key, attrs.clone(), 8, false, IndexType::BPlusTreeIndex);
            check!(r.is_some(), "index {name} not created");
        }
        let cat = self.w.db.catalog.read();
        let oid = cat.get_table_indexes(&t.name).iter().find(|x| x.get_index_name() == &name).map(|x| x.get_index_oid());
        drop(cat);
        let oid = oid.ok_or_else(|| format!("index {name} is not in the catalog"))?;
        self.log.push(format!("create index {name} on {}{attrs:?}", t.name));
        self.idx.push(Idx { oid, name, table: i, attrs });
        Ok(())
    }
    /// One transaction's view of a table through an index and without.
    fn compare(&self, ctx: &Ctx, rng: &mut Rng, tx: &Arc<TransactionContext>, no: usize) -> Res {
        let Some(x) = (!self.idx.is_empty()).then(|| rng.pick(&self.idx)) else { return Ok(()) };
        let t = &self.w.tables[x.table];
        let all = self.w.run(&seq(t), tx).map_err(|e| format!("{e} scanning {} after {}", t.name, self.tell()))?;
        let es = conds(rng, &t.types, x, &all);
        let want: Vec<Row> = all.iter().filter(|r| holds(&es, r)).cloned().collect();
        let what = format!("T{no} scanning {} by {:?} with {es:?}", t.name, x.attrs);
        let got = self.w.run(&scan(t, x, &es), tx).map_err(|e| format!("{what}: {e} after {}", self.tell()))?;
        differ(&what, &got, &want).map_err(|e| format!("{e} after {}", self.tell()))?;
        ctx.eval(1);
        ctx.count("rows_by_index", got.len() as u64);
        ctx.seen(&(format!("{:?}", es.iter().map(shape).collect::<Vec<_>>()), want.len().min(4), all.len().min(8)));
        if rng.chance(1, 4) {
            self.join(ctx, rng, tx, no)?;
        }
        Ok(())
    }
    fn join(&self, ctx: &Ctx, rng: &mut Rng, tx: &Arc<TransactionContext>, no: usize) -> Res {
        let (l, r) = (rng.pick(&self.w.tables), rng.pick(&self.w.tables));
        let (nl, nr) = (l.types.len(), r.types.len());
        let eqs: Vec<(usize, usize)> = (0..nl).flat_map(|i| (0..nr).map(move |j| (i, j))).filter(|(i, j)| l.types[*i] == r.types[*j]).collect();
        if eqs.is_empty() {
            return Ok(());
        }
        let (lr, rr) = (self.w.run(&seq(l), tx)?, self.w.run(&seq(r), tx)?);
        if lr.len() * rr.len() > 20_000 {
            return Ok(());
        }
        let ks: Vec<(usize, usize)> = (0..1 + rng.below(2)).map(|_| *rng.pick(&eqs)).collect();
        let pred = ks
            .iter()
            .map(|(i, j)| Ex::Cmp(Op::Eq, Box::new(Ex::Col(*i, l.types[*i])), Box::new(Ex::Col(nl + j, r.types[*j])), false))
            .reduce(|a, b| Ex::Logic(true, Box::new(a), Box::new(b), false))
            .unwrap();
        let want: Vec<Row> = lr
            .iter()
            .flat_map(|a| rr.iter().map(move |b| a.iter().chain(b).cloned().collect::<Row>()))
            .filter(|p| holds(std::slice::from_ref(&pred), p))
            .collect();
        let key = |c: usize, t: &Table, cut: usize| build(&Ex::Col(c, t.types[c]), cut);
        let p = PlanNode::NestedIndexJoin(NestedIndexJoinNode::new(
            l.schema.clone(),
            r.schema.clone(),
            build(&pred, nl),
            JoinOperator::Inner(JoinConstraint::None),
            ks.iter().map(|(i, _)| key(*i, l, nl)).collect(),
            ks.iter().map(|(_, j)| key(*j, r, nr)).collect(),
            vec![seq(l), seq(r)],
        ));
        let what = format!("T{no} joining {} and {} on {ks:?}", l.name, r.name);
        let got = self.w.run(&p, tx).map_err(|e| format!("{what}: {e} after {}", self.tell()))?;
        differ(&what, &got, &want).map_err(|e| format!("{e} after {}", self.tell()))?;
        ctx.eval(1);
        ctx.count("rows_by_index_join", got.len() as u64);
        Ok(())
    }
    fn write(&mut self, ctx: &Ctx, rng: &mut Rng, k: usize) -> Res {
        let tx = self.open[k].tx.clone();
        let no = self.open[k].no;
        let i = rng.below(self.w.tables.len());
        let t = &self.w.tables[i];
        let n = t.types.len();
        let before = self.w.run(&seq(t), &tx)?;
        let x = self.idx.iter().filter(|x| x.table == i).nth(rng.below(3)).cloned();
        let own = Idx { oid: 0, name: String::new(), table: i, attrs: vec![rng.below(n)] };
        let pick = |rng: &mut Rng| -> (PlanNode, Vec<Ex>) {
            let es = conds(rng, &t.types, x.as_ref().unwrap_or(&own), &before);
            match &x {
                // the statement finds its rows by the index
                Some(x) if rng.chance(2, 3) => (scan(t, x, &es), es),
                _ => {
                    let e = es.iter().cloned().reduce(|a, b| Ex::Logic(true, Box::new(a), Box::new(b), false)).unwrap_or(Ex::Const(Value::new(true)));
                    (PlanNode::Filter(FilterNode::new_where(t.schema.clone(), t.oid, t.name.clone(), build(&e, n), vec![seq(t)])), es)
                },
            }
        };
        let mut after = before.clone();
        let (plan, said) = match rng.below(7) {
            0..=1 if before.len() < 300 => {
                let m = *rng.pick(&[1, 1, 2, 6, 110]);
                let rows: Vec<Row> = (0..m).map(|_| t.types.iter().map(|t| small(rng, *t)).collect()).collect();
                after.extend(rows.clone());
                (PlanNode::Insert(InsertNode::new(t.schema.clone(), t.oid, t.name.clone(), rows, vec![])), format!("inserts {m} into {}", t.name))
            },
            2 if before.len() < 300 => {
                // rows of a query over the table itself
                let (child, es) = pick(rng);
                let rows: Vec<Row> = before.iter().filter(|r| holds(&es, r)).cloned().collect();
                let said = format!("inserts {} rows of {} where {es:?}", rows.len(), t.name);
                after.extend(rows);
                (PlanNode::Insert(InsertNode::new(t.schema.clone(), t.oid, t.name.clone(), vec![], vec![child])), said)
            },
            3 => {
                let (child, es) = pick(rng);
                after.retain(|r| !holds(&es, r));
                (PlanNode::Delete(DeleteNode::new(t.schema.clone(), t.name.clone(), t.oid, vec![child])), format!("deletes from {} where {es:?}", t.name))
            },
            _ => {
                let (child, es) = pick(rng);
                let c = x.as_ref().map_or(own.attrs[0], |x| if rng.chance(2, 3) { x.attrs[0] } else { rng.below(n) });
                let e = match t.types[c] {
                    // keys move up along the scan
                    Ty::Integer if rng.chance(1, 2) => {
                        let up = Ex::Arith('+', Box::new(Ex::Col(c, Ty::Integer)), Box::new(Ex::Const(Value::new(3i32))), false);
                        if sound(&up, &before) { up } else { Ex::Const(small(rng, Ty::Integer)) }
                    },
                    ty => expr(rng, ty, 1, &t.types, &before),
                };
                for r in after.iter_mut().filter(|r| holds(&es, r)) {
                    r[c] = val(&e, r);
                }
                let real = Arc::new(Expression::Assignment(AssignmentExpression::new(c, t.schema.get_column(c).unwrap().clone(), build(&e, n))));
                (PlanNode::Update(UpdateNode::new(t.schema.clone(), t.name.clone(), t.oid, vec![real], vec![child])), format!("updates {} set {c}={e:?} where {es:?}", t.name))
            },
        };
        self.log.push(format!("T{no} {said}"));
        match self.w.run(&plan, &tx) {
            Ok(_) => {
                self.open[k].wrote = true;
                let got = self.w.run(&seq(&self.w.tables[i]), &tx)?;
                differ(&format!("T{no} {said}"), &got, &after).map_err(|e| format!("{e} after {}", self.tell()))?;
                ctx.count("statements", 1);
            },
            // another transaction's change is in the way
            Err(_) => {
                self.log.push(format!("T{no} refused, aborts"));
                ctx.count("statements_refused", 1);
                let o = self.open.remove(k);
                self.w.db.abort(o.tx);
            },
        }
        Ok(())
    }
}
fn shape(e: &Ex) -> String {
    match e {
        Ex::Cmp(op, l, r, _) => format!("{op:?}{}{}", shape(l), shape(r)),
        Ex::Logic(a, l, r, _) => format!("{}({}{})", if *a { '&' } else { '|' }, shape(l), shape(r)),
        Ex::Not(e, _) => format!("!{}", shape(e)),
        Ex::Col(..) => "c".into(),
        Ex::Const(v) => if v.is_null() { "n".into() } else { "k".into() },
        _ => "x".into(),
    }
}

fn history(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = World::new(rng)?;
    let mut c = Case { w, idx: vec![], open: vec![], log: vec![], next: 0 };
    if rng.chance(2, 3) {
        c.make_index(rng)?;
    }
    let steps = 30 + rng.below(40);
    for _ in 0..steps {
        match rng.below(20) {
            0 if c.idx.len() < 4 => c.make_index(rng)?,
            1..=3 if c.open.len() < 4 => {
                let tx = c.w.db.begin(*rng.pick(&LEVELS));
                c.next += 1;
                c.log.push(format!("T{} begins", c.next));
                c.open.push(Open { tx, no: c.next, wrote: false });
            },
            4..=8 if !c.open.is_empty() => {
                let k = rng.below(c.open.len());
                c.write(ctx, rng, k)?;
            },
            9 | 10 if !c.open.is_empty() => {
                let k = rng.below(c.open.len());
                let o = c.open.remove(k);
                if rng.chance(1, 3) {
                    c.log.push(format!("T{} aborts", o.no));
                    c.w.db.abort(o.tx);
                } else {
                    c.log.push(format!("T{} commits", o.no));
                    let wrote = o.wrote;
                    let ok = c.w.db.commit(o.tx);
                    check!(ok || wrote, "T{} did not write but cannot commit after {}", o.no, c.tell());
                }
            },
            _ => {
                if c.open.is_empty() || rng.chance(1, 4) {
                    let tx = c.w.db.begin(IsolationLevel::ReadCommitted);
                    c.compare(ctx, rng, &tx, 0)?;
                    c.w.db.commit(tx);
                } else {
                    let o = rng.pick(&c.open);
                    c.compare(ctx, rng, &o.tx, o.no)?;
                }
            },
        }
    }
    ctx.count("indexes", c.idx.len() as u64);
    ctx.sample("history", || json!(c.log.iter().take(14).map(|l| l.chars().take(140).collect::<String>()).collect::<Vec<_>>()));
    Ok(())
}

/// Snapshots beside concurrent writers: what a transaction sees by the index is what it sees by a scan.
fn threads(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let types = vec![*rng.pick(&KEYS[..6]), Ty::Integer];
    let schema = Schema::new(vec![Column::new("a", types[0]), Column::new("b", Ty::Integer)]);
    let mut w = World::new(rng)?;
    w.tables.clear();
    let rows: Vec<Row> = (0..40).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
    w.add("shared", schema.clone(), types.clone(), rows)?;
    let oid = {
        let _g = w.db.rt.enter();
        let key = Schema::new(vec![schema.get_column(0).unwrap().clone()]);
        let r = w.db.catalog.write().create_index("early", "shared", key, vec![0], 8, false, IndexType::BPlusTreeIndex);
        r.ok_or("no index")?.0.get_index_oid()
    };
    let late: Mutex<Option<u64>> = Mutex::new(None);
    let early = Idx { oid, name: "early".into(), table: 0, attrs: vec![0] };
    let seeds: Vec<u64> = (0..6).map(|_| rng.next()).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail = |e: String| {
        errs.lock().push(e);
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
    };
    let stopped = || stop.load(std::sync::atomic::Ordering::SeqCst);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for i in 0..3usize {
            let (w, types, fail, stopped) = (&w, &types, &fail, &stopped);
            let mut r = Rng::new(seeds[i]);
            hs.push(s.spawn(move || {
                let t = &w.tables[0];
                for _ in 0..25 {
                    if stopped() {
                        return;
                    }
                    let tx = w.db.begin(*r.pick(&LEVELS[..3]));
                    let mut ok = true;
                    for _ in 0..1 + r.below(3) {
                        let row: Row = types.iter().map(|t| small(&mut r, *t)).collect();
                        let e = Ex::Cmp(Op::Eq, Box::new(Ex::Col(1, Ty::Integer)), Box::new(Ex::Const(Value::new(r.range(-6, 6) as i32))), false);
                        let f = || PlanNode::Filter(FilterNode::new_where(t.schema.clone(), t.oid, t.name.clone(), build(&e, 2), vec![seq(t)]));
                        let p = match r.below(4) {
                            0 => PlanNode::Insert(InsertNode::new(t.schema.clone(), t.oid, t.name.clone(), vec![row], vec![])),
                            1 => PlanNode::Delete(DeleteNode::new(t.schema.clone(), t.name.clone(), t.oid, vec![f()])),
                            _ => {
                                let a = Arc::new(Expression::Assignment(AssignmentExpression::new(0, t.schema.get_column(0).unwrap().clone(), build(&Ex::Const(row[0].clone()), 2))));
                                PlanNode::Update(UpdateNode::new(t.schema.clone(), t.name.clone(), t.oid, vec![a], vec![f()]))
                            },
                        };
                        if w.run(&p, &tx).is_err() {
                            ok = false;
                            break;
                        }
                    }
                    if ok && r.chance(3, 4) {
                        w.db.commit(tx);
                    } else {
                        w.db.abort(tx);
                    }
                }
                let _ = fail;
            }));
        }
        for i in 3..5usize {
            let (w, types, fail, stopped, early, late) = (&w, &types, &fail, &stopped, &early, &late);
            let mut r = Rng::new(seeds[i]);
            s.spawn(move || {
                let t = &w.tables[0];
                for _ in 0..20 {
                    if stopped() {
                        return;
                    }
                    let tx = w.db.begin(if r.chance(1, 2) { IsolationLevel::RepeatableRead } else { IsolationLevel::Serializable });
                    for _ in 0..3 {
                        let x = match *late.lock() {
                            Some(oid) if r.chance(1, 2) => Idx { oid, name: "late".into(), table: 0, attrs: vec![0] },
                            _ => early.clone(),
                        };
                        let res = (|| {
                            let all = w.run(&seq(t), &tx)?;
                            let es = conds(&mut r, types, &x, &all);
                            let got = w.run(&scan(t, &x, &es), &tx)?;
                            let want: Vec<Row> = all.iter().filter(|r| holds(&es, r)).cloned().collect();
                            ctx.eval(1);
                            ctx.count("snapshot_rows_by_index", got.len() as u64);
                            differ(&format!("a snapshot beside writers, index {} with {es:?}", x.name), &got, &want)
                        })();
                        // a scan of the table that fails tells nothing about the index
                        if let Err(e) = res {
                            fail(e);
                            return;
                        }
                    }
                    if tx.get_transaction().get_state() == TransactionState::Running {
                        w.db.commit(tx);
                    }
                }
            });
        }
        // an index comes into being meanwhile
        std::thread::sleep(std::time::Duration::from_millis(seeds[5] % 30));
        let _g = w.db.rt.enter();
        let key = Schema::new(vec![schema.get_column(0).unwrap().clone()]);
        if let Some((info, _)) = w.db.catalog.write().create_index("late", "shared", key, vec![0], 8, false, IndexType::BPlusTreeIndex) {
            *late.lock() = Some(info.get_index_oid());
        }
        for h in hs {
            if h.join().is_err() {
                fail("a writer panicked".into());
            }
        }
    });
    let errs = errs.into_inner();
    check!(errs.is_empty(), "{}", errs[0]);
    // afterwards both indexes give the whole table
    let t = &w.tables[0];
    let tx = w.db.begin(IsolationLevel::ReadCommitted);
    let all = w.run(&seq(t), &tx)?;
    for (name, oid) in [("early", Some(oid)), ("late", *late.lock())] {
        let Some(oid) = oid else { return Err("index not created".into()) };
        let x = Idx { oid, name: name.into(), table: 0, attrs: vec![0] };
        differ(&format!("after all, index {name}"), &w.run(&scan(t, &x, &[]), &tx)?, &all)?;
    }
    ctx.seen(&("threads", all.len(), line(all.first().unwrap_or(&vec![]))));
    let _ = TypeId::Integer;
    Ok(())
}

/// A condition that fails on a row it meets ends the scan with the error.
fn failing(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let mut w = World::new(rng)?;
    w.tables.clear();
    let n = 2 + rng.below(10) as i32;
    let zero = rng.below(n as usize) as i32;
    let schema = Schema::new(vec![Column::new("a", Ty::Integer), Column::new("b", Ty::Integer)]);
    let rows: Vec<Row> = (0..n).map(|i| vec![Value::new(i), Value::new((i - zero) * 2)]).collect();
    w.add("t", schema.clone(), vec![Ty::Integer; 2], rows)?;
    let _g = w.db.rt.enter();
    let r = w.db.catalog.write().create_index("x", "t", Schema::new(vec![schema.get_column(0).unwrap().clone()]), vec![0], 8, false, IndexType::BPlusTreeIndex);
    let x = Idx { oid: r.ok_or("no index")?.0.get_index_oid(), name: "x".into(), table: 0, attrs: vec![0] };
    let int = |i: i32| Box::new(Ex::Const(Value::new(i)));
    let b = Box::new(Ex::Col(1, Ty::Integer));
    let bad = Ex::Cmp(Op::Ge, Box::new(Ex::Arith('/', int(8), b, false)), int(i32::MIN), false);
    let lo = rng.range(0, n as i64 - 1) as i32;
    let es = vec![Ex::Cmp(Op::Ge, Box::new(Ex::Col(0, Ty::Integer)), int(lo), false), bad];
    let tx = w.db.begin(IsolationLevel::ReadCommitted);
    let got = w.run(&scan(&w.tables[0], &x, &es), &tx);
    check!(got.is_err() == (lo <= zero), "scanning {n} rows from {lo}, with an error at {zero}, gives {:?}", got.map(|r| r.len()));
    ctx.eval(1);
    ctx.seen(&("failing", n, zero, lo));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (shape of the conditions, rows found up to 4, table size up to 8), a distinct end of a threaded run, or a distinct place of a failing condition");
    ctx.assume("what a transaction should see is what a sequential scan shows it at the same moment (that this is right is P04 and P08)");
    ctx.assume("indexes are on one column, or on several of which the first counts; unique indexes and joins other than inner are not claimed");
    ctx.explore("history", 8, 8.0, 40, 10_000_000, history);
    ctx.explore("threads", 2, 5.0, 6, 10_000_000, threads);
    ctx.explore("failing", 4, 0.5, 20, 10_000_000, failing);
}

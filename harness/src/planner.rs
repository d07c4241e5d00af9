//! P26: planning. Random logical plans are converted to physical plans, with and without the
//! optimizer, and run; the rows must be those the logical operators specify.
use std::sync::Arc;
use std::sync::mpsc;
use std::time::Duration;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode};
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection};
use ferrite::sql::optimizer::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId as Ty;
use ferrite::types_db::value::Value;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::execs::{Extra, MAX_ROWS, Q, Row, TYPES, World, expr, judge, keys_of, kinds, line, matches, pick_expr, slice, sorted_groups, val};
use crate::exprs::{Ex, build, eval, small, truth};
use crate::rng::Rng;
use crate::values::int_of;

type L = Box<LogicalPlan>;

fn descending(es: &[Arc<Expression>]) -> Vec<OrderBySpec> {
    es.iter().map(|e| OrderBySpec::new(e.clone(), OrderDirection::Desc)).collect()
}
/// The logical plan that asks for what the physical plan does.
fn logical(rng: &mut Rng, p: &PlanNode) -> Option<L> {
    let kids = p.get_children().iter().map(|c| logical(rng, c)).collect::<Option<Vec<_>>>()?;
    let kid = |i: usize| Some(kids[i].clone());
    let mut on = |e: &Arc<Expression>| if rng.chance(1, 2) && plain_equality(e) { flip(rng, e) } else { e.clone() };
    let s = p.get_output_schema().clone();
    Some(match p {
        PlanNode::SeqScan(n) => LogicalPlan::table_scan(n.get_table_name().to_string(), s, n.get_table_oid()),
        PlanNode::Values(n) => LogicalPlan::values(
            n.get_rows().iter().map(|r| r.get_expressions().iter().map(|e| Arc::new(e.clone())).collect()).collect(),
            s,
        ),
        PlanNode::Filter(n) => LogicalPlan::filter(s, n.get_table_name().clone(), n.get_table_oid(), n.get_filter_expression().get_predicate(), kid(0)?),
        PlanNode::Projection(n) => LogicalPlan::project(n.get_expressions().clone(), s, kid(0)?),
        PlanNode::Sort(n) => LogicalPlan::sort(n.get_order_bys().clone(), s, kid(0)?),
        PlanNode::Limit(n) => LogicalPlan::limit(n.get_limit(), s, kid(0)?),
        PlanNode::Offset(n) => LogicalPlan::offset(n.get_offset(), s, kid(0)?),
        PlanNode::Distinct(_) => LogicalPlan::distinct(s, kid(0)?),
        PlanNode::TopN(n) => LogicalPlan::top_n(n.get_k(), descending(n.get_sort_order_by()), s, kid(0)?),
        PlanNode::TopNPerGroup(n) => {
            LogicalPlan::top_n_per_group(n.get_n(), descending(n.get_sort_expressions()), n.get_group_expressions().clone(), s, kid(0)?)
        },
        PlanNode::Aggregation(n) => LogicalPlan::aggregate(n.get_group_bys().to_vec(), n.get_aggregates().to_vec(), s, kid(0)?),
        PlanNode::NestedLoopJoin(n) => LogicalPlan::nested_loop_join(
            n.get_left_schema().clone(),
            n.get_right_schema().clone(),
            on(n.get_predicate()),
            n.get_join_type().clone(),
            kid(0)?,
            kid(1)?,
        ),
        PlanNode::HashJoin(n) => LogicalPlan::hash_join(
            n.get_left_schema().clone(),
            n.get_right_schema().clone(),
            on(n.get_predicate()),
            n.get_join_type().clone(),
            kid(0)?,
            kid(1)?,
        ),
        PlanNode::NestedIndexJoin(n) => LogicalPlan::nested_index_join(
            n.get_left_schema().clone(),
            n.get_right_schema().clone(),
            on(n.get_predicate()),
            n.get_join_type().clone(),
            kid(0)?,
            kid(1)?,
        ),
        _ => return None,
    })
}
/// Some of the equalities with their operands exchanged.
fn flip(rng: &mut Rng, e: &Arc<Expression>) -> Arc<Expression> {
    match e.as_ref() {
        Expression::Comparison(c) if rng.chance(1, 2) => {
            let (l, r) = (c.get_left().clone(), c.get_right().clone());
            Arc::new(Expression::Comparison(ComparisonExpression::new(r.clone(), l.clone(), ComparisonType::Equal, vec![r, l])))
        },
        Expression::Logic(c) => {
            let (l, r) = (flip(rng, c.get_left()), flip(rng, c.get_right()));
            Arc::new(Expression::Logic(LogicExpression::new(l.clone(), r.clone(), LogicType::And, vec![l, r])))
        },
        _ => e.clone(),
    }
}
fn plain_equality(e: &Expression) -> bool {
    match e {
        Expression::Comparison(c) => {
            c.get_comp_type() == ComparisonType::Equal
                && matches!((c.get_left().as_ref(), c.get_right().as_ref()), (Expression::ColumnRef(a), Expression::ColumnRef(b)) if (a.get_tuple_index(), b.get_tuple_index()) == (0, 1))
        },
        Expression::Logic(l) => l.get_logic_type() == LogicType::And && l.get_children().iter().all(|c| plain_equality(c)),
        _ => false,
    }
}
/// The planner joins on equalities of columns, and refuses the rest.
fn joins_supported(p: &PlanNode) -> bool {
    let here = match p {
        PlanNode::NestedLoopJoin(n) => plain_equality(n.get_predicate()),
        PlanNode::HashJoin(n) => plain_equality(n.get_predicate()),
        PlanNode::NestedIndexJoin(n) => plain_equality(n.get_predicate()),
        _ => true,
    };
    here && p.get_children().iter().all(joins_supported)
}
fn has_join(p: &PlanNode) -> bool {
    matches!(p, PlanNode::NestedLoopJoin(_)) || p.get_children().iter().any(has_join)
}
fn has_top(p: &PlanNode) -> bool {
    matches!(p, PlanNode::TopN(n) if n.get_k() == 0) || p.get_children().iter().any(has_top)
}
/// A world with indexes and constraints.
fn world(ctx: &Ctx, rng: &mut Rng) -> Result<World, String> {
    let mut w = World::new(rng)?;
    for i in 0..1 + rng.below(2) {
        let nr = rng.below(20);
        let n = 1 + rng.below(3);
        let mut types = vec![Ty::Integer];
        types.extend((0..n).map(|_| *rng.pick(&TYPES)));
        let mut cols: Vec<Column> = types.iter().enumerate().map(|(j, t)| Column::new(&format!("p{i}c{j}"), *t)).collect();
        // a column with distinct values, under a constraint, not always the first one
        let at = rng.below(cols.len());
        types[at] = Ty::Integer;
        let name = format!("p{i}c{at}");
        cols[at] = if rng.chance(1, 2) {
            Column::from_sql_info(&name, Ty::Integer, None, None, None, true, true, true, None, None, None)
        } else {
            Column::from_sql_info(&name, Ty::Integer, None, None, None, false, false, true, None, None, None)
        };
        let mut ids: Vec<i32> = (-10..30).collect();
        rng.shuffle(&mut ids);
        let rows: Vec<Row> = (0..nr)
            .map(|k| types.iter().enumerate().map(|(j, t)| if j == at { Value::new(ids[k]) } else { small(rng, *t) }).collect())
            .collect();
        w.add(&format!("p{i}"), Schema::new(cols), types, rows)?;
    }
    let _g = w.db.rt.enter();
    for i in 0..w.tables.len() {
        while rng.chance(1, 3) {
            let t = &w.tables[i];
            let mut at: Vec<usize> = (0..t.types.len()).collect();
            rng.shuffle(&mut at);
            at.truncate(1 + rng.below(2));
            let key = Schema::new(at.iter().map(|c| t.schema.get_column(*c).unwrap().clone()).collect());
            let size = key.get_inlined_storage_size() as usize;
            w.db.catalog.write().create_index(&w.name(), &t.name, key, at, size, false, IndexType::BPlusTreeIndex).ok_or("create_index failed")?;
            ctx.count("indexes", 1);
        }
    }
    drop(_g);
    Ok(w)
}
fn options(rng: &mut Rng) -> (Arc<CheckOptions>, String) {
    let mut o = CheckOptions::new();
    let mut s = String::new();
    if rng.chance(1, 2) {
        o.add_check(CheckOption::EnablePushdownCheck);
        s += "pushdown ";
    }
    if rng.chance(1, 2) {
        o.add_check(CheckOption::EnableTopnCheck);
        s += "topn ";
    }
    if rng.chance(1, 3) {
        o.add_check(CheckOption::EnableNljCheck);
        s += "nlj";
    }
    (Arc::new(o), s)
}
fn show(rows: &[Row]) -> Vec<String> {
    rows.iter().take(25).map(|r| line(r)).collect()
}
fn scan_of(w: &World, i: usize) -> L {
    let t = &w.tables[i];
    LogicalPlan::table_scan(t.name.clone(), t.schema.clone(), t.oid)
}
/// Runs a logical plan as it is and optimized; `ok` judges the rows.
fn both(ctx: &Ctx, rng: &mut Rng, w: &World, l: &L, shape: &str, supported: bool, may_refuse: (bool, bool), ok: &dyn Fn(&[Row]) -> Res) -> Res {
    for optimized in [false, true] {
        let (opts, name) = options(rng);
        let how = if optimized { format!("optimized with [{name}]") } else { "as written".into() };
        let plan = if optimized {
            let _g = w.db.rt.enter();
            match Optimizer::new(w.db.catalog.clone()).optimize(l.clone(), opts.clone()) {
                Ok(p) => p,
                Err(e) => {
                    let (nlj, top) = may_refuse;
                    let known = nlj && opts.has_check(&CheckOption::EnableNljCheck) || top;
                    check!(known, "the optimizer refuses {shape} with [{name}]: {e}");
                    ctx.count("refused_by_optimizer", 1);
                    continue;
                },
            }
        } else {
            l.clone()
        };
        let text = || format!("{how}: {shape}\nlogical plan\n{}\nas run\n{}", l.explain(0), plan.explain(0));
        let phys = match plan.to_physical_plan() {
            Ok(p) => p,
            Err(e) => {
                check!(!supported, "conversion fails: {e}, {}", text());
                ctx.count("refused_by_planner", 1);
                continue;
            },
        };
        let tx = w.db.begin(IsolationLevel::ReadCommitted);
        let got = w.run(&phys, &tx);
        w.db.commit(tx);
        let got = got.map_err(|e| format!("{e} from {}", text()))?;
        ok(&got).map_err(|e| format!("{e}; got {:?}, {}", show(&got), text()))?;
        ctx.eval(1);
        ctx.count(if optimized { "optimized_plans_run" } else { "plain_plans_run" }, 1);
        ctx.count("rows", got.len() as u64);
        if optimized {
            let changed = format!("{}", l.explain(0)) != format!("{}", plan.explain(0));
            if changed {
                ctx.count("plans_the_optimizer_changed", 1);
            }
            if !got.is_empty() {
                ctx.seen(&(shape.to_string(), name.clone(), got.len().min(3), changed));
            }
        }
    }
    Ok(())
}

fn query(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = world(ctx, rng)?;
    for _ in 0..25 {
        let d = 1 + rng.below(5);
        let (mut q, mut x) = w.root(rng, d);
        while rng.chance(1, 3) && q.cut.is_none() && matches!(x, Extra::No) && q.len() <= MAX_ROWS {
            // chains the rewrite rules look for
            (q, x) = match rng.below(4) {
                0 => (w.filter(rng, q), x),
                1 => (w.project(rng, q, None), x),
                2 => {
                    let all = rng.chance(1, 2);
                    (w.sort(rng, q, all), x)
                },
                _ => (always(q), x),
            };
        }
        let Some(l) = logical(rng, &q.plan) else { continue };
        let supported = joins_supported(&q.plan);
        let refuse = (has_join(&q.plan) && !supported, has_top(&q.plan));
        both(ctx, rng, &w, &l, &q.shape, supported, refuse, &|got| {
            judge(&q, &x, got).map_err(|e| format!("{e}; wanted {:?}", show(&q.rows())))
        })?;
        for k in kinds(&q.shape) {
            ctx.count(&format!("op_{}", k.split(' ').next().unwrap()), 1);
        }
        if d >= 3 {
            ctx.sample("plan", || json!({"plan": q.shape, "rows": q.len()}));
        }
    }
    Ok(())
}
fn always(mut q: Q) -> Q {
    use ferrite::sql::execution::plans::filter_plan::FilterNode;
    q.shape = format!("Always({})", q.shape);
    let n = q.types.len();
    q.plan = PlanNode::Filter(FilterNode::new_where(q.schema(), 0, "t".into(), build(&Ex::Const(Value::new(true)), n), vec![q.plan]));
    q
}

/// ORDER BY ... LIMIT in its three spellings, with any directions.
fn ordered(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = world(ctx, rng)?;
    for _ in 0..20 {
        let d = rng.below(3);
        let q = w.gen_q(rng, d);
        if !joins_supported(&q.plan) {
            continue;
        }
        let Some(kid) = logical(rng, &q.plan) else { continue };
        let (n, rows, s) = (q.types.len(), q.rows(), q.schema());
        let mut keys: Vec<Ex> = (0..1 + rng.below(2)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
        if rng.chance(1, 2) {
            keys.extend((0..n).map(|i| Ex::Col(i, q.types[i])));
        }
        let desc: Vec<bool> = keys.iter().map(|_| rng.chance(1, 2)).collect();
        let specs: Vec<OrderBySpec> = keys
            .iter()
            .zip(&desc)
            .map(|(e, d)| OrderBySpec::new(build(e, n), if *d { OrderDirection::Desc } else { OrderDirection::Asc }))
            .collect();
        let k = rng.below(rows.len() + 2);
        let kind = rng.below(4);
        if kind == 3 {
            // the first k of each group
            let by: Vec<Ex> = (0..1 + rng.below(2)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
            let l = LogicalPlan::top_n_per_group(k, specs, by.iter().map(|e| build(e, n)).collect(), s, kid);
            let mut parts: std::collections::BTreeMap<String, Vec<Row>> = Default::default();
            for r in rows {
                parts.entry(line(&keys_of(&by, &r))).or_default().push(r);
            }
            both(ctx, rng, &w, &l, &format!("TopNPerGroup{desc:?}({})", q.shape), true, (false, has_top(&q.plan)), &|got| {
                let mut have: std::collections::BTreeMap<String, Vec<Row>> = Default::default();
                for r in got {
                    have.entry(line(&keys_of(&by, r))).or_default().push(r.clone());
                }
                for g in have.keys() {
                    check!(parts.contains_key(g), "rows of a group ({g}) that does not exist");
                }
                for (g, rows) in &parts {
                    matches(&sorted_groups(rows.clone(), &keys, &desc), Some((0, k)), have.get(g).map_or(&[], |v| v)).map_err(|e| format!("group ({g}): {e}"))?;
                }
                Ok(())
            })?;
            continue;
        }
        // a limit below the sort keeps any k rows, which only their number tells unless it keeps all
        let (l, groups, cut) = match kind {
            0 => {
                let (g, c) = slice(sorted_groups(rows, &keys, &desc), 0, k);
                (LogicalPlan::top_n(k, specs, s, kid), g, c)
            },
            1 => {
                let (g, c) = slice(sorted_groups(rows, &keys, &desc), 0, k);
                (LogicalPlan::limit(k, s.clone(), LogicalPlan::sort(specs, s, kid)), g, c)
            },
            _ => {
                let (mut below, cut) = slice(q.groups.clone(), 0, k);
                if cut.is_some() {
                    below = q.groups.clone();
                }
                let k = if cut.is_some() { rows.len() + rng.below(3) } else { k };
                let below: Vec<Row> = below.into_iter().flatten().collect();
                (LogicalPlan::sort(specs, s.clone(), LogicalPlan::limit(k, s, kid)), sorted_groups(below, &keys, &desc), None)
            },
        };
        let shape = format!("{}{desc:?}({})", ["TopN", "Limit(Sort", "Sort(Limit"][kind], q.shape);
        let top = kind == 0 && k == 0 || has_top(&q.plan);
        both(ctx, rng, &w, &l, &shape, true, (false, top), &|got| {
            matches(&groups, cut, got).map_err(|e| format!("{e}; wanted {cut:?} of {:?}", groups.iter().map(|g| show(g)).collect::<Vec<_>>()))
        })?;
        ctx.count(&format!("ordered_{kind}"), 1);
    }
    Ok(())
}

/// Statements through the planner against a model of the table.
fn dml(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let mut w = world(ctx, rng)?;
    // without constraints: statements here give any values
    w.tables.retain(|t| t.name.starts_with('t'));
    let mut log: Vec<String> = vec![];
    for _ in 0..12 {
        let i = rng.below(w.tables.len());
        let (types, sch, oid, name) = {
            let t = &w.tables[i];
            (t.types.clone(), t.schema.clone(), t.oid, t.name.clone())
        };
        let n = types.len();
        let before = w.tables[i].rows.clone();
        let scan = || LogicalPlan::table_scan(name.clone(), sch.clone(), oid);
        let (l, hits) = match rng.below(4) {
            0 => {
                let k = 1 + rng.below(4);
                let rows: Vec<Row> = (0..k).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
                let es = rows.iter().map(|r| r.iter().map(|v| build(&Ex::Const(v.clone()), 0)).collect()).collect();
                w.tables[i].rows.extend(rows);
                log.push(format!("insert {k} into {name}"));
                (LogicalPlan::insert(name.clone(), sch.clone(), oid, LogicalPlan::values(es, sch.clone())), None)
            },
            1 => {
                let pred = expr(rng, Ty::Boolean, 2, &types, &before);
                w.tables[i].rows.retain(|r| truth(&eval(&pred, r).r.unwrap()) != Some(true));
                let hits = before.len() - w.tables[i].rows.len();
                log.push(format!("delete from {name} {hits} rows where {pred:?}"));
                let f = LogicalPlan::filter(sch.clone(), name.clone(), oid, build(&pred, n), scan());
                (LogicalPlan::delete(name.clone(), sch.clone(), oid, f), Some(hits))
            },
            _ => {
                let pred = expr(rng, Ty::Boolean, 2, &types, &before);
                let c = rng.below(n);
                let e = expr(rng, types[c], 2, &types, &before);
                let mut hits = 0;
                for r in w.tables[i].rows.iter_mut() {
                    if truth(&eval(&pred, r).r.unwrap()) == Some(true) {
                        hits += 1;
                        r[c] = val(&e, &r.clone());
                    }
                }
                log.push(format!("update {name} {hits} rows set {c} = {e:?} where {pred:?}"));
                let set = Arc::new(Expression::Assignment(AssignmentExpression::new(c, sch.get_column(c).unwrap().clone(), build(&e, n))));
                let f = LogicalPlan::filter(sch.clone(), name.clone(), oid, build(&pred, n), scan());
                (LogicalPlan::update(name.clone(), sch.clone(), oid, vec![set], f), Some(hits))
            },
        };
        let mut plan = l.clone();
        let (opts, opt) = options(rng);
        let tell = || format!("[{opt}] {}", log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; "));
        if rng.chance(3, 4) {
            let _g = w.db.rt.enter();
            plan = Optimizer::new(w.db.catalog.clone()).optimize(plan, opts).map_err(|e| format!("optimizer: {e}: {}", tell()))?;
        }
        let phys = plan.to_physical_plan().map_err(|e| format!("conversion: {e}: {}", tell()))?;
        let tx = w.db.begin(IsolationLevel::ReadCommitted);
        match w.run(&phys, &tx) {
            Err(e) => return Err(format!("{e} after {}", tell())),
            Ok(got) => {
                if let Some(hits) = hits {
                    let told = got.first().map_or(0, |r| int_of(&r[0]).unwrap_or(-1));
                    check!(told == hits as i128, "the statement reports {told} rows but concerns {hits}: {}", tell());
                }
            },
        }
        check!(w.db.commit(tx), "commit refused after {}", tell());
        // the table, read by the plain scan and by the one the optimizer prefers
        let q = w.scan(i);
        both(ctx, rng, &w, &scan(), "Scan", true, (false, false), &|got| matches(&q.groups, None, got).map_err(|e| format!("{e} in {} after {}; wanted {:?}", name, tell(), show(&q.rows()))))?;
        ctx.count("statements", 1);
        ctx.eval(1);
    }
    Ok(())
}

/// CREATE statements through the planner: what they define is what later plans see.
fn ddl(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let mut w = World::new(rng)?;
    for i in 0..6 {
        let opts = options(rng).0;
        let go = |w: &World, l: L| -> Result<Vec<Row>, String> {
            let _g = w.db.rt.enter();
            let l = Optimizer::new(w.db.catalog.clone()).optimize(l, opts.clone()).map_err(|e| format!("optimizer: {e}"))?;
            let p = l.to_physical_plan()?;
            drop(_g);
            let tx = w.db.begin(IsolationLevel::ReadCommitted);
            let r = w.run(&p, &tx);
            check!(w.db.commit(tx), "commit refused");
            r
        };
        if rng.chance(1, 2) {
            let types: Vec<Ty> = (0..1 + rng.below(4)).map(|_| *rng.pick(&TYPES)).collect();
            let sch = Schema::new(types.iter().enumerate().map(|(j, t)| Column::new(&format!("n{i}c{j}"), *t)).collect());
            let name = format!("n{i}");
            let ine = rng.chance(1, 2);
            go(&w, LogicalPlan::create_table(sch.clone(), name.clone(), ine)).map_err(|e| format!("create table {name}: {e}"))?;
            let found = w.db.catalog.read().get_table(&name).map(|t| (t.get_table_oidt(), t.get_table_schema()));
            let Some((oid, seen)) = found else { return Err(format!("table {name} is not there after its CREATE TABLE")) };
            let shape = |s: &Schema| s.get_columns().iter().map(|c| (c.get_name().to_string(), c.get_type())).collect::<Vec<_>>();
            check!(shape(&seen) == shape(&sch), "table {name} has columns {:?} instead of {:?}", shape(&seen), shape(&sch));
            let rows: Vec<Row> = (0..rng.below(12)).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
            let es = rows.iter().map(|r| r.iter().map(|v| build(&Ex::Const(v.clone()), 0)).collect()).collect();
            go(&w, LogicalPlan::insert(name.clone(), sch.clone(), oid, LogicalPlan::values(es, sch.clone()))).map_err(|e| format!("insert into {name}: {e}"))?;
            // a table that is there stays as it is
            let _ = go(&w, LogicalPlan::create_table(sch.clone(), name.clone(), true));
            w.tables.push(crate::execs::Table { name, oid, schema: sch, types, rows });
            ctx.count("tables_created", 1);
        } else {
            let k = rng.below(w.tables.len());
            let t = &w.tables[k];
            let mut at: Vec<usize> = (0..t.types.len()).collect();
            rng.shuffle(&mut at);
            at.truncate(1 + rng.below(2));
            let key = Schema::new(at.iter().map(|c| t.schema.get_column(*c).unwrap().clone()).collect());
            let name = format!("i{i}");
            go(&w, LogicalPlan::create_index(key, t.name.clone(), name.clone(), at.clone(), rng.chance(1, 2))).map_err(|e| format!("create index {name}: {e}"))?;
            let c = w.db.catalog.read();
            let Some(info) = c.get_table_indexes(&t.name).into_iter().find(|x| x.get_index_name() == &name).cloned() else {
                return Err(format!("index {name} is not there after its CREATE INDEX"));
            };
            check!(info.get_key_attrs() == &at, "index {name} is over columns {:?} instead of {at:?}", info.get_key_attrs());
            ctx.count("indexes_created", 1);
        }
        for k in 0..w.tables.len() {
            let t = &w.tables[k];
            let l = LogicalPlan::table_scan(t.name.clone(), t.schema.clone(), t.oid);
            let q = w.scan(k);
            both(ctx, rng, &w, &l, "Scan", true, (false, false), &|got| matches(&q.groups, None, got).map_err(|e| format!("{e} in {}; wanted {:?}", t.name, show(&q.rows()))))?;
        }
    }
    Ok(())
}

/// What cannot be planned is an error, wherever it stands in the plan, and conversion ends.
fn refusals(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = World::new(rng)?;
    for _ in 0..6 {
        let d = rng.below(3);
        let (l, r) = (w.gen_q(rng, d), w.leaf(rng));
        let (Some(ll), Some(rl)) = (logical(rng, &l.plan), logical(rng, &r.plan)) else { continue };
        let bad = build(&Ex::Const(Value::new(rng.chance(1, 2))), 1);
        let mut p = LogicalPlan::nested_loop_join(l.schema(), r.schema(), bad, JoinOperator::Inner(JoinConstraint::None), ll, rl);
        let s = p.get_schema().ok_or("no schema")?;
        let depth = rng.below(4);
        for _ in 0..depth {
            p = match rng.below(3) {
                0 => LogicalPlan::limit(3, s.clone(), p),
                1 => LogicalPlan::distinct(s.clone(), p),
                _ => LogicalPlan::offset(1, s.clone(), p),
            };
        }
        let text = p.explain(0);
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(p.to_physical_plan().map(|_| ()));
        });
        match rx.recv_timeout(Duration::from_secs(10)) {
            Ok(_) => {},
            Err(_) => return Err(format!("the conversion of a plan that cannot be planned does not end:\n{text}")),
        }
        ctx.eval(1);
        ctx.count("refusals", 1);
        ctx.seen(&("refused", depth, l.shape.clone()));
    }
    // a scan of a table the catalog does not know
    let t = &w.tables[0];
    let p = LogicalPlan::limit(1, t.schema.clone(), LogicalPlan::table_scan("nowhere".into(), t.schema.clone(), 999_999));
    let mut o = CheckOptions::new();
    o.add_check(CheckOption::EnablePushdownCheck);
    let _g = w.db.rt.enter();
    check!(Optimizer::new(w.db.catalog.clone()).optimize(p, Arc::new(o)).is_err(), "a scan of an unknown table passes the optimizer");
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (plan shape, optimizer options, number of rows up to 3, whether the optimizer changed the plan) that gave rows, or a distinct place of a join that cannot be planned");
    ctx.assume("the planner joins on conjunctions of equalities of a left and a right column; other join predicates may be refused with an error");
    ctx.assume("expressions have one defined value on every row they meet; rows with equal sort keys may come in any order");
    ctx.explore("query", 8, 6.0, 60, 10_000_000, query);
    ctx.explore("ordered", 8, 3.0, 40, 10_000_000, ordered);
    ctx.explore("dml", 8, 3.0, 40, 10_000_000, dml);
    ctx.explore("ddl", 8, 1.5, 20, 10_000_000, ddl);
    ctx.explore("refusals", 4, 1.0, 10, 10_000_000, refusals);
    ctx.probe("join_column_named_d_id", || {
        let mut rng = Rng::new(7);
        let mut w = World::new(&mut rng)?;
        w.tables.clear();
        let row = |a: i32, b: i32| vec![Value::new(a), Value::new(b)];
        let cols = |a: &str, b: &str| Schema::new(vec![Column::new(a, Ty::Integer), Column::new(b, Ty::Integer)]);
        w.add("e", cols("e.a", "e.d"), vec![Ty::Integer; 2], vec![row(1, 10), row(2, 20)])?;
        w.add("d", cols("d.x", "d.id"), vec![Ty::Integer; 2], vec![row(5, 10), row(6, 20)])?;
        let l = scan_of(&w, 0);
        let r = scan_of(&w, 1);
        let (a, b) = (w.tables[0].schema.clone(), w.tables[1].schema.clone());
        let col = |t: usize, i: usize, s: &Schema, at: usize| {
            Arc::new(Expression::ColumnRef(ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression::new(t, i, s.get_column(at).unwrap().clone(), vec![])))
        };
        let (x, y) = (col(0, 1, &a, 1), col(1, 3, &b, 1));
        let on = Arc::new(Expression::Comparison(ComparisonExpression::new(x.clone(), y.clone(), ComparisonType::Equal, vec![x, y])));
        let p = LogicalPlan::nested_loop_join(a, b, on, JoinOperator::Inner(JoinConstraint::None), l, r).to_physical_plan()?;
        let tx = w.db.begin(IsolationLevel::ReadCommitted);
        let got = w.run(&p, &tx);
        w.db.commit(tx);
        let n = got?.len();
        check!(n == 2, "joining on a column named d.id that is not the first of its table gives {n} rows instead of 2");
        Ok(())
    });
}

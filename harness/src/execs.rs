//! P21: operators. Random trees of plan nodes over real tables, run by the real executors, against
//! the rows a reference computes with bag semantics; and statements against a model of the table.
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering as AO};

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode};
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::distinct_plan::DistinctNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::hash_join_plan::HashJoinNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use ferrite::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::projection_plan::ProjectionNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
use ferrite::sql::execution::plans::topn_plan::TopNNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::plans::window_plan::{WindowFunction, WindowFunctionType, WindowNode};
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::exprs::{Ex, Op, Out, R, ambiguous, build, eval, f64_of, of_value, order, small, tree, truth, ty};
use crate::rng::Rng;
use crate::sqlkit::Db;
use crate::values::{int_of, mk_int};

pub type Ty = TypeId;
pub type Row = Vec<Value>;
pub const TYPES: [Ty; 9] = [Ty::Integer, Ty::Integer, Ty::BigInt, Ty::Decimal, Ty::VarChar, Ty::Boolean, Ty::SmallInt, Ty::VarChar, Ty::TinyInt];
pub const MAX_ROWS: usize = 500;

pub struct Table {
    pub name: String,
    pub oid: u64,
    pub schema: Schema,
    pub types: Vec<Ty>,
    pub rows: Vec<Row>,
}

/// A plan and the rows it must give: groups of rows that come out in this order, rows of one group
/// in any order. Of all those rows only [skip, skip+take) are given.
#[derive(Clone)]
pub struct Q {
    pub plan: PlanNode,
    pub types: Vec<Ty>,
    pub groups: Vec<Vec<Row>>,
    pub cut: Option<(usize, usize)>,
    pub shape: String,
}
impl Q {
    pub fn schema(&self) -> Schema {
        self.plan.get_output_schema().clone()
    }
    pub fn rows(&self) -> Vec<Row> {
        self.groups.iter().flatten().cloned().collect()
    }
    pub fn len(&self) -> usize {
        self.groups.iter().map(Vec::len).sum()
    }
}
pub enum Extra {
    No,
    /// group and sort expressions, n
    PerGroup(Vec<Ex>, Vec<Ex>, usize),
    /// partition and order expressions of a row number in the last column
    Numbered(Vec<Ex>, Vec<Ex>),
}

pub fn cell(v: &Value) -> String {
    match v.get_val() {
        Val::Null => "N".into(),
        Val::Boolean(b) => format!("B{b}"),
        Val::VarLen(s) | Val::ConstLen(s) => format!("T{s:?}"),
        Val::Decimal(f) => format!("D{}", if *f == 0.0 { 0.0 } else { *f }),
        Val::Float(f) => format!("F{}", if *f == 0.0 { 0.0 } else { *f }),
        x => format!("{x:?}"),
    }
}
pub fn line(r: &[Value]) -> String {
    r.iter().map(cell).collect::<Vec<_>>().join("|")
}
pub fn bag(rows: &[Row]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for r in rows {
        *m.entry(line(r)).or_insert(0) += 1;
    }
    m
}
fn value(r: &R, t: Ty) -> Value {
    match r {
        R::Null => Value::new_with_type(Val::Null, t),
        R::B(b) => Value::new(*b),
        R::N(v) => v.clone(),
        R::T(s) => Value::new(s.clone()),
    }
}
/// The value of a well-defined expression.
pub fn val(e: &Ex, row: &[Value]) -> Value {
    value(&eval(e, row).r.expect("sound"), ty(e))
}
fn sound_on(e: &Ex, row: &[Value]) -> bool {
    let Out { r, err_ok } = eval(e, row);
    let Ok(r) = r else { return false };
    if err_ok || ambiguous(e, row) {
        return false;
    }
    match r {
        R::Null => true,
        R::N(v) => {
            v.get_type_id() == ty(e)
                && match v.get_val() {
                    Val::Decimal(f) => f.is_finite(),
                    Val::Float(f) => f.is_finite(),
                    _ => true,
                }
        },
        R::B(_) => ty(e) == Ty::Boolean,
        R::T(_) => ty(e) == Ty::VarChar || ty(e) == Ty::Char,
    }
}
pub fn sound(e: &Ex, rows: &[Row]) -> bool {
    rows.iter().all(|r| sound_on(e, r))
}
/// An expression of type `t` with one defined value on each row.
pub fn expr(rng: &mut Rng, t: Ty, d: usize, types: &[Ty], rows: &[Row]) -> Ex {
    for _ in 0..12 {
        let e = tree(rng, t, d, types);
        if ty(&e) == t && sound(&e, rows) {
            return e;
        }
    }
    match types.iter().position(|x| *x == t) {
        Some(i) => Ex::Col(i, t),
        None => Ex::Const(small(rng, t)),
    }
}
pub fn pick_expr(rng: &mut Rng, d: usize, types: &[Ty], rows: &[Row]) -> Ex {
    if rng.chance(1, 2) {
        let i = rng.below(types.len());
        return Ex::Col(i, types[i]);
    }
    let t = *rng.pick(&TYPES);
    expr(rng, t, d, types, rows)
}
/// Keys that have a NULL lowest.
pub fn cmp_cell(a: &Value, b: &Value) -> Ordering {
    match (a.is_null(), b.is_null()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => order(&of_value(a), &of_value(b)).expect("comparable keys"),
    }
}
fn cmp_keys(a: &[Value], b: &[Value], desc: &[bool]) -> Ordering {
    for i in 0..a.len() {
        let o = cmp_cell(&a[i], &b[i]);
        if o != Ordering::Equal {
            return if desc[i] { o.reverse() } else { o };
        }
    }
    Ordering::Equal
}
pub fn keys_of(es: &[Ex], row: &[Value]) -> Vec<Value> {
    es.iter().map(|e| val(e, row)).collect()
}
pub fn sorted_groups(rows: Vec<Row>, keys: &[Ex], desc: &[bool]) -> Vec<Vec<Row>> {
    let mut v: Vec<(Vec<Value>, Row)> = rows.into_iter().map(|r| (keys_of(keys, &r), r)).collect();
    v.sort_by(|a, b| cmp_keys(&a.0, &b.0, desc));
    let mut out: Vec<Vec<Row>> = vec![];
    let mut last: Option<Vec<Value>> = None;
    for (k, r) in v {
        if last.as_ref().is_some_and(|l| cmp_keys(l, &k, desc) == Ordering::Equal) {
            out.last_mut().unwrap().push(r);
        } else {
            out.push(vec![r]);
        }
        last = Some(k);
    }
    out
}
/// Applies a cut exactly where it is deterministic, and otherwise leaves it to the final check.
pub fn slice(groups: Vec<Vec<Row>>, skip: usize, take: usize) -> (Vec<Vec<Row>>, Option<(usize, usize)>) {
    let end = skip.saturating_add(take);
    let mut out = vec![];
    let mut at = 0;
    let mut exact = true;
    for g in &groups {
        let (lo, hi) = (at.max(skip), (at + g.len()).min(end));
        at += g.len();
        if lo >= hi {
            continue;
        }
        if hi - lo < g.len() && bag(g).len() > 1 {
            exact = false;
        }
        out.push(g[..hi - lo].to_vec());
    }
    if exact { (out, None) } else { (groups, Some((skip, take))) }
}
/// The observed rows are the demanded ones, in a permitted order.
pub fn matches(groups: &[Vec<Row>], cut: Option<(usize, usize)>, got: &[Row]) -> Res {
    let total: usize = groups.iter().map(Vec::len).sum();
    let (skip, take) = cut.unwrap_or((0, total));
    let skip = skip.min(total);
    let want = take.min(total - skip);
    check!(got.len() == want, "{} rows instead of {want}", got.len());
    let mut at = 0;
    let mut g0 = 0;
    for g in groups {
        let (lo, hi) = (g0.max(skip), (g0 + g.len()).min(skip + want));
        g0 += g.len();
        if lo >= hi {
            continue;
        }
        let part = &got[at..at + (hi - lo)];
        let have = bag(g);
        for (k, n) in bag(part) {
            let m = have.get(&k).copied().unwrap_or(0);
            check!(n <= m, "row ({k}) appears {n} times among rows {at}.. where it belongs {m} times");
        }
        at += hi - lo;
    }
    Ok(())
}

pub struct World {
    pub db: Db,
    pub tables: Vec<Table>,
    pub fresh: AtomicUsize,
    pub max_rows: usize,
    pub max_pairs: usize,
}
impl World {
    /// One long table and a short one, and plans over them.
    pub fn large(rng: &mut Rng) -> Result<World, String> {
        let db = Db::new(64, IsolationLevel::ReadCommitted);
        let mut w = World { db, tables: vec![], fresh: AtomicUsize::new(0), max_rows: 6000, max_pairs: 60_000 };
        for (i, nr) in [600 + rng.below(2000), 1 + rng.below(20)].into_iter().enumerate() {
            let mut types: Vec<Ty> = (0..1 + rng.below(2)).map(|_| *rng.pick(&TYPES)).collect();
            types.insert(rng.below(types.len() + 1), Ty::Integer);
            let schema = Schema::new(types.iter().enumerate().map(|(j, t)| Column::new(&format!("t{i}c{j}"), *t)).collect());
            let keys = *rng.pick(&[2, 40, 700, 100_000]);
            let rows = (0..nr)
                .map(|_| types.iter().map(|t| if *t == Ty::Integer { mk_int(*t, rng.below(keys) as i128).unwrap() } else { small(rng, *t) }).collect())
                .collect();
            w.add(&format!("t{i}"), schema, types, rows)?;
        }
        Ok(w)
    }
    pub fn new(rng: &mut Rng) -> Result<World, String> {
        let db = Db::new(64, IsolationLevel::ReadCommitted);
        let mut w = World { db, tables: vec![], fresh: AtomicUsize::new(0), max_rows: MAX_ROWS, max_pairs: 4 * MAX_ROWS };
        let n = 2 + rng.below(2);
        for i in 0..n {
            let nc = 1 + rng.below(4);
            let types: Vec<Ty> = (0..nc).map(|_| *rng.pick(&TYPES)).collect();
            let schema = Schema::new(types.iter().enumerate().map(|(j, t)| Column::new(&format!("t{i}c{j}"), *t)).collect());
            let nr = match rng.below(10) {
                0 => 0,
                1 => 1,
                2 => 120 + rng.below(60),
                _ => 2 + rng.below(14),
            };
            let rows: Vec<Row> = (0..nr).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
            w.add(&format!("t{i}"), schema, types, rows)?;
        }
        Ok(w)
    }
    pub fn add(&mut self, name: &str, schema: Schema, types: Vec<Ty>, rows: Vec<Row>) -> Res {
        let _g = self.db.rt.enter();
        let info = self.db.catalog.write().create_table(name.into(), schema.clone()).ok_or("create_table failed")?;
        let oid = info.get_table_oidt();
        let t = Table { name: name.into(), oid, schema, types, rows };
        if !t.rows.is_empty() {
            let tx = self.db.begin(IsolationLevel::ReadCommitted);
            let p = PlanNode::Insert(InsertNode::new(t.schema.clone(), oid, t.name.clone(), t.rows.clone(), vec![]));
            self.run(&p, &tx).map_err(|e| format!("insert: {e}"))?;
            check!(self.db.commit(tx), "commit of an insert failed");
        }
        self.tables.push(t);
        Ok(())
    }
    /// All rows of the plan.
    pub fn run(&self, p: &PlanNode, tx: &Arc<TransactionContext>) -> Result<Vec<Row>, String> {
        let _g = self.db.rt.enter();
        let ec = Arc::new(RwLock::new(ExecutionContext::new(self.db.bpm.clone(), self.db.catalog.clone(), tx.clone())));
        let mut ex = p.create_executor(ec)?;
        ex.init();
        let width = p.get_output_schema().get_column_count() as usize;
        let mut out = vec![];
        while let Some((t, _)) = ex.next().map_err(|e| format!("error: {e}"))? {
            let vals = t.get_values().to_vec();
            if !matches!(p, PlanNode::Insert(_) | PlanNode::Update(_) | PlanNode::Delete(_)) && vals.len() != width {
                return Err(format!("a row of {} values under a schema of {width} columns", vals.len()));
            }
            out.push(vals);
            if out.len() > 4 * MAX_ROWS * MAX_ROWS {
                return Err("endless result".into());
            }
        }
        if let Some((t, _)) = ex.next().map_err(|e| format!("error after the end: {e}"))? {
            return Err(format!("a row after the end: {}", line(&t.get_values())));
        }
        Ok(out)
    }
    pub fn name(&self) -> String {
        format!("k{}", self.fresh.fetch_add(1, AO::Relaxed))
    }
    pub fn cols(&self, ts: &[Ty]) -> Schema {
        Schema::new(ts.iter().map(|t| Column::new(&self.name(), *t)).collect())
    }
    pub fn scan(&self, i: usize) -> Q {
        let t = &self.tables[i];
        Q {
            plan: PlanNode::SeqScan(SeqScanPlanNode::new(t.schema.clone(), t.oid, t.name.clone())),
            types: t.types.clone(),
            groups: vec![t.rows.clone()],
            cut: None,
            shape: "Scan".into(),
        }
    }
    pub fn leaf(&self, rng: &mut Rng) -> Q {
        if rng.chance(1, 6) {
            let types: Vec<Ty> = (0..1 + rng.below(3)).map(|_| *rng.pick(&TYPES)).collect();
            let rows: Vec<Row> = (0..rng.below(6)).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
            let es = rows.iter().map(|r| r.iter().map(|v| build(&Ex::Const(v.clone()), 0)).collect()).collect();
            return Q {
                plan: PlanNode::Values(ValuesNode::new(self.cols(&types), es, vec![])),
                types,
                groups: vec![rows],
                cut: None,
                shape: "Values".into(),
            };
        }
        self.scan(rng.below(self.tables.len()))
    }
    fn bag(&self, plan: PlanNode, types: Vec<Ty>, rows: Vec<Row>, shape: String) -> Q {
        Q { plan, types, groups: vec![rows], cut: None, shape }
    }
    /// A plan whose rows are fully determined up to their order.
    pub fn gen_q(&self, rng: &mut Rng, d: usize) -> Q {
        for _ in 0..20 {
            let (q, x) = self.root(rng, d);
            if q.cut.is_none() && matches!(x, Extra::No) && q.len() <= self.max_rows {
                return q;
            }
        }
        self.leaf(rng)
    }
    pub fn project(&self, rng: &mut Rng, q: Q, fixed: Option<Vec<Ex>>) -> Q {
        let rows = q.rows();
        let es: Vec<Ex> = fixed.unwrap_or_else(|| (0..1 + rng.below(4)).map(|_| pick_expr(rng, 2, &q.types, &rows)).collect());
        let types: Vec<Ty> = es.iter().map(ty).collect();
        let n = q.types.len();
        let real = es.iter().map(|e| build(e, n)).collect();
        Q {
            plan: PlanNode::Projection(ProjectionNode::new(self.cols(&types), real, vec![]).with_children(vec![q.plan])),
            types,
            groups: q.groups.iter().map(|g| g.iter().map(|r| keys_of(&es, r)).collect()).collect(),
            cut: q.cut,
            shape: format!("Project({})", q.shape),
        }
    }
    pub fn filter(&self, rng: &mut Rng, q: Q) -> Q {
        let rows = q.rows();
        let e = expr(rng, Ty::Boolean, 3, &q.types, &rows);
        let n = q.types.len();
        let keep = |r: &Row| truth(&eval(&e, r).r.expect("sound")) == Some(true);
        Q {
            groups: q.groups.iter().map(|g| g.iter().filter(|r| keep(r)).cloned().collect()).collect(),
            types: q.types.clone(),
            cut: None,
            shape: format!("Filter({})", q.shape),
            plan: PlanNode::Filter(FilterNode::new_where(q.schema(), 0, "t".into(), build(&e, n), vec![q.plan])),
        }
    }
    pub fn sort(&self, rng: &mut Rng, q: Q, all: bool) -> Q {
        let rows = q.rows();
        let n = q.types.len();
        let mut keys: Vec<Ex> = (0..1 + rng.below(3)).map(|_| pick_expr(rng, 2, &q.types, &rows)).collect();
        if all {
            keys.extend((0..n).map(|i| Ex::Col(i, q.types[i])));
        }
        let desc: Vec<bool> = keys.iter().map(|_| rng.chance(1, 2)).collect();
        let specs = keys
            .iter()
            .zip(&desc)
            .map(|(e, d)| OrderBySpec::new(build(e, n), if *d { OrderDirection::Desc } else { OrderDirection::Asc }))
            .collect();
        Q {
            groups: sorted_groups(rows, &keys, &desc),
            types: q.types.clone(),
            cut: None,
            shape: format!("Sort({})", q.shape),
            plan: PlanNode::Sort(SortNode::new(q.schema(), specs, vec![q.plan])),
        }
    }
    fn join(&self, rng: &mut Rng, l: Q, r: Q) -> Q {
        let (lr, rr) = (l.rows(), r.rows());
        let (nl, nr) = (l.types.len(), r.types.len());
        let types: Vec<Ty> = l.types.iter().chain(&r.types).copied().collect();
        let pairs: Vec<Row> = lr.iter().flat_map(|a| rr.iter().map(move |b| a.iter().chain(b).cloned().collect())).collect();
        let pad = |ts: &[Ty]| ts.iter().map(|t| Value::new_with_type(Val::Null, *t)).collect::<Row>();
        let shape = |k: &str| format!("{k}({},{})", l.shape, r.shape);
        let none = JoinConstraint::None;
        // columns of one type on both sides
        let eqs: Vec<(usize, usize)> = (0..nl).flat_map(|i| (0..nr).map(move |j| (i, j))).filter(|(i, j)| l.types[*i] == r.types[*j]).collect();
        let equality = |ks: &[(usize, usize)]| {
            ks.iter()
                .map(|(i, j)| Ex::Cmp(Op::Eq, Box::new(Ex::Col(*i, l.types[*i])), Box::new(Ex::Col(nl + j, r.types[*j])), false))
                .reduce(|a, b| Ex::Logic(true, Box::new(a), Box::new(b), false))
                .unwrap()
        };
        if !eqs.is_empty() && rng.chance(1, 2) {
            let ks: Vec<(usize, usize)> = (0..1 + rng.below(2)).map(|_| *rng.pick(&eqs)).collect();
            let pred = equality(&ks);
            let rows: Vec<Row> = pairs.iter().filter(|p| truth(&eval(&pred, p).r.unwrap()) == Some(true)).cloned().collect();
            let lk: Vec<Arc<Expression>> = ks.iter().map(|(i, _)| build(&Ex::Col(*i, l.types[*i]), nl)).collect();
            let rk: Vec<Arc<Expression>> = ks.iter().map(|(_, j)| build(&Ex::Col(*j, r.types[*j]), nr)).collect();
            let (ls, rs, p) = (l.schema(), r.schema(), build(&pred, nl));
            let on = JoinOperator::Inner(none);
            if r.shape == "Scan" && rng.chance(1, 2) {
                let sh = shape("IndexJoin");
                return self.bag(PlanNode::NestedIndexJoin(NestedIndexJoinNode::new(ls, rs, p, on, lk, rk, vec![l.plan, r.plan])), types, rows, sh);
            }
            let sh = shape("HashJoin");
            return self.bag(PlanNode::HashJoin(HashJoinNode::new(ls, rs, p, on, lk, rk, vec![l.plan, r.plan])), types, rows, sh);
        }
        let pred = if !eqs.is_empty() && rng.chance(1, 2) {
            let k = *rng.pick(&eqs);
            equality(&[k])
        } else {
            expr(rng, Ty::Boolean, 2, &types, &pairs)
        };
        let kind = rng.below(5);
        let hit = |a: &Row, b: &Row| {
            let p: Row = a.iter().chain(b).cloned().collect();
            (kind == 4 || truth(&eval(&pred, &p).r.expect("sound")) == Some(true)).then_some(p)
        };
        let mut rows: Vec<Row> = vec![];
        for a in &lr {
            let m: Vec<Row> = rr.iter().filter_map(|b| hit(a, b)).collect();
            if m.is_empty() && (kind == 1 || kind == 3) {
                rows.push(a.iter().cloned().chain(pad(&r.types)).collect());
            }
            rows.extend(m);
        }
        if kind == 2 || kind == 3 {
            for b in &rr {
                if !lr.iter().any(|a| hit(a, b).is_some()) {
                    rows.push(pad(&l.types).into_iter().chain(b.iter().cloned()).collect());
                }
            }
        }
        let (op, sh) = match kind {
            0 => (if rng.chance(1, 2) { JoinOperator::Inner(none) } else { JoinOperator::Join(none) }, "Inner"),
            1 => (if rng.chance(1, 2) { JoinOperator::LeftOuter(none) } else { JoinOperator::Left(none) }, "Left"),
            2 => (if rng.chance(1, 2) { JoinOperator::RightOuter(none) } else { JoinOperator::Right(none) }, "Right"),
            3 => (JoinOperator::FullOuter(none), "Full"),
            _ => (JoinOperator::CrossJoin(none), "Cross"),
        };
        let p = if kind == 4 { build(&Ex::Const(Value::new(true)), nl) } else { build(&pred, nl) };
        let sh = shape(sh);
        self.bag(PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(l.schema(), r.schema(), p, op, vec![], vec![], vec![l.plan, r.plan])), types, rows, sh)
    }
    fn aggregate(&self, rng: &mut Rng, q: Q) -> Q {
        let rows = q.rows();
        let n = q.types.len();
        let mut by: Vec<usize> = (0..n).filter(|_| rng.chance(1, 2)).collect();
        by.truncate(3);
        rng.shuffle(&mut by);
        let mut groups: BTreeMap<String, (Row, Vec<Row>)> = BTreeMap::new();
        for r in &rows {
            let k: Row = by.iter().map(|i| r[*i].clone()).collect();
            groups.entry(line(&k)).or_insert((k, vec![])).1.push(r.clone());
        }
        if by.is_empty() && rows.is_empty() {
            groups.insert(String::new(), (vec![], vec![]));
        }
        let mut out: Vec<Row> = groups.values().map(|g| g.0.clone()).collect();
        let mut types: Vec<Ty> = by.iter().map(|i| q.types[*i]).collect();
        let mut aggs = vec![];
        let want = 1 + rng.below(4);
        let mut tries = 0;
        let mut shape = String::new();
        while aggs.len() < want && tries < 30 {
            tries += 1;
            let e = pick_expr(rng, 1, &q.types, &rows);
            let kind = rng.pick(&[
                AggregationType::CountStar,
                AggregationType::Count,
                AggregationType::Sum,
                AggregationType::Sum,
                AggregationType::Min,
                AggregationType::Max,
                AggregationType::Avg,
            ]).clone();
            let t = ty(&e);
            let vals: Option<Vec<Value>> = groups
                .values()
                .map(|(_, g)| {
                    let vs: Vec<Value> = g.iter().map(|r| val(&e, r)).filter(|v| !v.is_null()).collect();
                    aggregate_of(&kind, t, g.len(), &vs)
                })
                .collect();
            let Some(vals) = vals else { continue };
            // SUM of no rows at all is not specified
            if kind == AggregationType::Sum && by.is_empty() && rows.is_empty() {
                continue;
            }
            let rt = match kind {
                AggregationType::Count | AggregationType::CountStar => Ty::BigInt,
                AggregationType::Avg => Ty::Decimal,
                _ => t,
            };
            for (o, v) in out.iter_mut().zip(vals) {
                o.push(v);
            }
            types.push(rt);
            let kids = if kind == AggregationType::CountStar { vec![] } else { vec![build(&e, n)] };
            shape += &format!("{kind:?} ");
            aggs.push(Arc::new(Expression::Aggregate(
                AggregateExpression::new(kind, kids, Column::new("a", rt), "agg".into()).with_alias(self.name()),
            )));
        }
        if aggs.is_empty() {
            return q;
        }
        let sch = q.schema();
        let by: Vec<Arc<Expression>> = by
            .iter()
            .map(|i| {
                Arc::new(Expression::ColumnRef(ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression::new(
                    0,
                    *i,
                    sch.get_column(*i).unwrap().clone(),
                    vec![],
                )))
            })
            .collect();
        let sh = format!("Agg[{}{}]({})", by.len(), shape, q.shape);
        self.bag(PlanNode::Aggregation(AggregationPlanNode::new(vec![q.plan], by, aggs)), types, out, sh)
    }
    pub fn root(&self, rng: &mut Rng, d: usize) -> (Q, Extra) {
        if d == 0 {
            return (self.leaf(rng), Extra::No);
        }
        let op = rng.below(22);
        let q = self.gen_q(rng, d - 1);
        let n = q.types.len();
        let q = match op {
            0..=2 => self.filter(rng, q),
            3..=5 => self.project(rng, q, None),
            6 | 7 => {
                let all = rng.chance(1, 3);
                self.sort(rng, q, all)
            },
            8..=12 => {
                let r = if rng.chance(1, 2) { self.leaf(rng) } else { self.gen_q(rng, d - 1) };
                if q.len() * r.len() > self.max_pairs {
                    return (q, Extra::No);
                }
                self.join(rng, q, r)
            },
            13..=15 => self.aggregate(rng, q),
            16 => {
                let mut seen = BTreeSet::new();
                let rows = q.rows().into_iter().filter(|r| seen.insert(line(r))).collect();
                let sh = format!("Distinct({})", q.shape);
                self.bag(PlanNode::Distinct(DistinctNode::new(q.schema()).with_children(vec![q.plan])), q.types, rows, sh)
            },
            17 | 18 => {
                let q = if rng.chance(3, 4) {
                    let all = rng.chance(1, 2);
                    self.sort(rng, q, all)
                } else {
                    q
                };
                let k = if rng.chance(1, 8) { *rng.pick(&[0, usize::MAX, 1000]) } else { rng.below(q.len() + 2) };
                let is_limit = rng.chance(1, 2);
                let (skip, take) = if is_limit { (0, k) } else { (k, usize::MAX) };
                let (groups, cut) = slice(q.groups.clone(), skip, take);
                let sh = format!("{}({})", if is_limit { "Limit" } else { "Offset" }, q.shape);
                let s = q.schema();
                let plan = if is_limit {
                    PlanNode::Limit(LimitNode::new(k, s, vec![q.plan]))
                } else {
                    PlanNode::Offset(OffsetNode::new(k, s, vec![q.plan]))
                };
                Q { plan, types: q.types, groups, cut, shape: sh }
            },
            19 => {
                let rows = q.rows();
                let mut keys: Vec<Ex> = (0..1 + rng.below(2)).map(|_| pick_expr(rng, 2, &q.types, &rows)).collect();
                if rng.chance(1, 2) {
                    keys.extend((0..n).map(|i| Ex::Col(i, q.types[i])));
                }
                let k = rng.below(rows.len() + 2);
                let desc = vec![true; keys.len()];
                let (groups, cut) = slice(sorted_groups(rows, &keys, &desc), 0, k);
                let real = keys.iter().map(|e| build(e, n)).collect();
                let sh = format!("TopN({})", q.shape);
                Q { types: q.types.clone(), groups, cut, shape: sh, plan: PlanNode::TopN(TopNNode::new(q.schema(), real, k, vec![q.plan])) }
            },
            20 => {
                let rows = q.rows();
                let by: Vec<Ex> = (0..rng.below(3)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
                let keys: Vec<Ex> = (0..1 + rng.below(2)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
                let k = rng.below(5);
                let (rb, rk) = (by.iter().map(|e| build(e, n)).collect(), keys.iter().map(|e| build(e, n)).collect());
                let sh = format!("TopNPerGroup({})", q.shape);
                let plan = PlanNode::TopNPerGroup(TopNPerGroupNode::new(k, rk, rb, q.schema(), vec![q.plan]));
                return (Q { plan, types: q.types, groups: q.groups, cut: None, shape: sh }, Extra::PerGroup(by, keys, k));
            },
            _ => {
                let rows = q.rows();
                let part: Vec<Ex> = (0..rng.below(3)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
                let keys: Vec<Ex> = (0..rng.below(3)).map(|_| pick_expr(rng, 1, &q.types, &rows)).collect();
                let f = WindowFunction::new(
                    WindowFunctionType::RowNumber,
                    build(&Ex::Const(Value::new(1)), n),
                    part.iter().map(|e| build(e, n)).collect(),
                    keys.iter().map(|e| build(e, n)).collect(),
                );
                let mut cols = q.schema().get_columns().to_vec();
                cols.push(Column::new(&self.name(), Ty::Integer));
                let sh = format!("Window({})", q.shape);
                let mut types = q.types.clone();
                types.push(Ty::Integer);
                let plan = PlanNode::Window(WindowNode::new(Schema::new(cols), vec![f], vec![q.plan]));
                return (Q { plan, types, groups: q.groups, cut: None, shape: sh }, Extra::Numbered(part, keys));
            },
        };
        (q, Extra::No)
    }
}

/// The aggregate of one group; None where this harness does not know one exact answer.
fn aggregate_of(kind: &AggregationType, t: Ty, len: usize, vs: &[Value]) -> Option<Value> {
    let null = |t| Value::new_with_type(Val::Null, t);
    let numeric = matches!(t, Ty::TinyInt | Ty::SmallInt | Ty::Integer | Ty::BigInt | Ty::Decimal);
    // sums that are exact in any order
    let exact = |v: &Value| match v.get_val() {
        Val::Decimal(f) => (f * 64.0).fract() == 0.0 && f.abs() < 1e9,
        _ => int_of(v).is_some(),
    };
    Some(match kind {
        AggregationType::CountStar => Value::new(len as i64),
        AggregationType::Count => Value::new(vs.len() as i64),
        AggregationType::Min | AggregationType::Max => {
            let want = if *kind == AggregationType::Min { Ordering::Less } else { Ordering::Greater };
            vs.iter().cloned().reduce(|a, b| if cmp_cell(&b, &a) == want { b } else { a }).unwrap_or(null(t))
        },
        AggregationType::Sum => {
            if !numeric || !vs.iter().all(exact) {
                return None;
            }
            if vs.is_empty() {
                null(t)
            } else if t == Ty::Decimal {
                Value::new(vs.iter().map(f64_of).sum::<f64>())
            } else {
                // no partial sum may overflow, whatever the order
                mk_int(t, vs.iter().map(|v| int_of(v).unwrap().abs()).sum())?;
                mk_int(t, vs.iter().map(|v| int_of(v).unwrap()).sum())?
            }
        },
        AggregationType::Avg => {
            if !numeric || !vs.iter().all(exact) || vs.iter().any(|v| f64_of(v).abs() > 1e12) {
                return None;
            }
            if vs.is_empty() { null(Ty::Decimal) } else { Value::new(vs.iter().map(f64_of).sum::<f64>() / vs.len() as f64) }
        },
        _ => return None,
    })
}

pub fn judge(q: &Q, x: &Extra, got: &[Row]) -> Res {
    match x {
        Extra::No => matches(&q.groups, q.cut, got),
        Extra::PerGroup(by, keys, n) => {
            let split = |rows: Vec<Row>| {
                let mut m: BTreeMap<String, Vec<Row>> = BTreeMap::new();
                for r in rows {
                    m.entry(line(&keys_of(by, &r))).or_default().push(r);
                }
                m
            };
            let want = split(q.rows());
            let have = split(got.to_vec());
            for k in have.keys() {
                check!(want.contains_key(k), "rows of a group ({k}) that does not exist");
            }
            let desc = vec![true; keys.len()];
            for (k, rows) in want {
                let part = have.get(&k).cloned().unwrap_or_default();
                matches(&sorted_groups(rows, keys, &desc), Some((0, *n)), &part).map_err(|e| format!("group ({k}): {e}"))?;
            }
            Ok(())
        },
        Extra::Numbered(part, keys) => {
            let mut plain = vec![];
            let mut parts: BTreeMap<String, Vec<(i128, Row)>> = BTreeMap::new();
            for r in got {
                let (last, row) = r.split_last().ok_or("empty row")?;
                let i = int_of(last).ok_or_else(|| format!("row number {}", cell(last)))?;
                plain.push(row.to_vec());
                check!(bag(&[row.to_vec()]).keys().all(|k| q.rows().iter().any(|r| line(r) == *k)), "row ({}) is not a row of the input", line(row));
                parts.entry(line(&keys_of(part, row))).or_default().push((i, row.to_vec()));
            }
            check!(bag(&plain) == bag(&q.rows()), "the numbered rows are not the rows of the input");
            let asc = vec![false; keys.len()];
            for (k, mut v) in parts {
                v.sort_by_key(|x| x.0);
                check!(v.iter().enumerate().all(|(i, x)| x.0 == i as i128 + 1), "partition ({k}) is numbered {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>());
                for w in v.windows(2) {
                    check!(
                        cmp_keys(&keys_of(keys, &w[0].1), &keys_of(keys, &w[1].1), &asc) != Ordering::Greater,
                        "partition ({k}): ({}) is numbered before ({})",
                        line(&w[0].1),
                        line(&w[1].1)
                    );
                }
            }
            Ok(())
        },
    }
}
pub fn kinds(shape: &str) -> Vec<String> {
    shape
        .split(['(', ')', ',', '['])
        .map(|s| s.trim().to_string())
        .filter(|s| s.len() > 3 && s.chars().next().unwrap().is_uppercase())
        .collect()
}

fn query(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = World::new(rng)?;
    queries(ctx, rng, &w, 30, 4)
}
fn large(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = World::large(rng)?;
    queries(ctx, rng, &w, 12, 2)
}
fn queries(ctx: &Ctx, rng: &mut Rng, w: &World, n: usize, depth: usize) -> Res {
    for _ in 0..n {
        let d = 1 + rng.below(depth);
        let (q, x) = w.root(rng, d);
        let tx = w.db.begin(*rng.pick(&[IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable]));
        let got = w.run(&q.plan, &tx);
        w.db.commit(tx);
        let text = || format!("{}; plan {}", q.shape, q.plan);
        let got = got.map_err(|e| format!("{e} from {}", text()))?;
        judge(&q, &x, &got).map_err(|e| {
            format!(
                "{e} from {}; wanted {:?}, got {:?}",
                text(),
                q.rows().iter().take(30).map(|r| line(r)).collect::<Vec<_>>(),
                got.iter().take(30).map(|r| line(r)).collect::<Vec<_>>()
            )
        })?;
        ctx.eval(1);
        ctx.count("plans", 1);
        ctx.count("rows", got.len() as u64);
        for k in kinds(&q.shape) {
            ctx.count(&format!("op_{}", k.split(' ').next().unwrap()), 1);
        }
        if !got.is_empty() {
            ctx.seen(&(q.shape.clone(), got.len().min(3)));
        }
        if d >= 3 && got.len() > 2 {
            ctx.sample("plan", || json!({"plan": q.shape, "rows": got.len()}));
        }
    }
    Ok(())
}

/// An expression that has no value on some row makes the whole statement fail.
fn errors(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let w = World::new(rng)?;
    for _ in 0..12 {
        let q = w.gen_q(rng, 2);
        let rows = q.rows();
        let bad = (0..30).find_map(|_| {
            let t = *rng.pick(&[Ty::Integer, Ty::BigInt, Ty::Decimal, Ty::SmallInt]);
            let e = tree(rng, t, 2, &q.types);
            rows.iter().any(|r| eval(&e, r).r.is_err()).then_some(e)
        });
        let Some(e) = bad else { continue };
        let n = q.types.len();
        let b = build(&e, n);
        let s = q.schema();
        let where_ = rng.below(8);
        let from = q.shape.clone();
        let plan = match where_ {
            0 => PlanNode::Sort(SortNode::new(s, vec![OrderBySpec::new(b, OrderDirection::Asc)], vec![q.plan])),
            1 => PlanNode::TopN(TopNNode::new(s, vec![b], 3, vec![q.plan])),
            2 => PlanNode::TopNPerGroup(TopNPerGroupNode::new(3, vec![b], vec![], s, vec![q.plan])),
            3 => {
                let k = if rng.chance(1, 2) { AggregationType::Max } else { AggregationType::Count };
                let a = AggregateExpression::new(k, vec![b], Column::new("a", ty(&e)), "agg".into());
                PlanNode::Aggregation(AggregationPlanNode::new(vec![q.plan], vec![], vec![Arc::new(Expression::Aggregate(a))]))
            },
            _ => {
                let p = PlanNode::Projection(ProjectionNode::new(w.cols(&[ty(&e)]), vec![b], vec![]).with_children(vec![q.plan]));
                let s = p.get_output_schema().clone();
                let k = || build(&Ex::Col(0, ty(&e)), 1);
                match where_ {
                    4 => p,
                    5 => PlanNode::Sort(SortNode::new(s, vec![OrderBySpec::new(k(), OrderDirection::Desc)], vec![p])),
                    6 => PlanNode::Distinct(DistinctNode::new(s).with_children(vec![p])),
                    _ => {
                        let (l, kind) = (w.scan(0), rng.below(2));
                        let on = JoinOperator::Inner(JoinConstraint::None);
                        // the failing side is always read: build side of the hash join, outer side of the loop
                        if kind == 0 {
                            PlanNode::HashJoin(HashJoinNode::new(l.schema(), s, k(), on, vec![k()], vec![k()], vec![l.plan, p]))
                        } else {
                            PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(s, l.schema(), build(&Ex::Const(Value::new(true)), 1), on, vec![], vec![], vec![p, l.plan]))
                        }
                    },
                }
            },
        };
        let tx = w.db.begin(IsolationLevel::ReadCommitted);
        let got = w.run(&plan, &tx);
        w.db.abort(tx);
        ctx.eval(1);
        ctx.count("failing_plans", 1);
        ctx.seen(&("error", where_, from.clone()));
        if let Ok(rows) = got {
            return Err(format!("{} rows and no error although {e:?} has no value on a row of {from}; plan {plan}", rows.len()));
        }
    }
    Ok(())
}

/// Statements in transactions against a model of the table.
fn dml(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let mut w = World::new(rng)?;
    let mut log: Vec<String> = vec![];
    for _ in 0..8 {
        let iso = *rng.pick(&[IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable]);
        let tx = w.db.begin(iso);
        let before: Vec<Vec<Row>> = w.tables.iter().map(|t| t.rows.clone()).collect();
        log.push("begin".into());
        for _ in 0..1 + rng.below(5) {
            let i = rng.below(w.tables.len());
            let (types, sch, oid, name) = {
                let t = &w.tables[i];
                (t.types.clone(), t.schema.clone(), t.oid, t.name.clone())
            };
            let n = types.len();
            let (plan, count) = match rng.below(8) {
                0..=2 => {
                    let k = if w.tables[i].rows.len() > MAX_ROWS { 1 } else { *rng.pick(&[1, 1, 2, 5, 60, 99, 100, 101, 130, 200, 201]) };
                    let rows: Vec<Row> = (0..k).map(|_| types.iter().map(|t| small(rng, *t)).collect()).collect();
                    w.tables[i].rows.extend(rows.clone());
                    log.push(format!("insert {k} into {name}"));
                    (PlanNode::Insert(InsertNode::new(sch, oid, name, rows, vec![])), None)
                },
                3 => {
                    // rows of a query over the tables, the target among them
                    let j = rng.below(w.tables.len());
                    let q = w.scan(j);
                    let q = w.filter(rng, q);
                    let rows = q.rows();
                    let es: Vec<Ex> = types.iter().map(|t| expr(rng, *t, 1, &q.types, &rows)).collect();
                    let q = w.project(rng, q, Some(es));
                    if w.tables[i].rows.len() + q.len() > MAX_ROWS {
                        continue;
                    }
                    log.push(format!("insert into {name} {} rows of {}: {}", q.len(), w.tables[j].name, q.plan));
                    w.tables[i].rows.extend(q.rows());
                    (PlanNode::Insert(InsertNode::new(sch, oid, name, vec![], vec![q.plan])), None)
                },
                4..=6 => {
                    let q = w.scan(i);
                    let rows = q.rows();
                    let all = rng.chance(1, 4);
                    let pred = if all { Ex::Const(Value::new(true)) } else { expr(rng, Ty::Boolean, 2, &types, &rows) };
                    let mut at: Vec<usize> = (0..n).collect();
                    rng.shuffle(&mut at);
                    at.truncate(1 + rng.below(2));
                    let sets: Vec<(usize, Ex)> = at.iter().map(|c| {
                        let e = if types[*c] == Ty::VarChar && rng.chance(1, 2) {
                            // rows that outgrow their place
                            Ex::Const(Value::new("w".repeat(rng.below(200))))
                        } else if matches!(types[*c], Ty::Integer | Ty::BigInt) && rng.chance(1, 3) {
                            // a number of another type takes the type of the column
                            let x = rng.range(-100, 100);
                            Ex::Const(match rng.below(3) {
                                0 => Value::new(x as i8),
                                1 => Value::new(x as i16),
                                _ if types[*c] == Ty::Integer => Value::new(x),
                                _ => Value::new(x as i32),
                            })
                        } else {
                            expr(rng, types[*c], 2, &types, &rows)
                        };
                        (*c, e)
                    }).collect();
                    let mut hits = 0;
                    for r in w.tables[i].rows.iter_mut() {
                        if truth(&eval(&pred, r).r.unwrap()) == Some(true) {
                            hits += 1;
                            let old = r.clone();
                            for (c, e) in &sets {
                                let v = val(e, &old);
                                let ty = sch.get_column(*c).unwrap().get_type();
                                r[*c] = if v.get_type_id() == ty || v.is_null() { v } else { v.cast_to(ty).unwrap() };
                            }
                        }
                    }
                    log.push(format!("update {name} {hits} rows set {sets:?} where {pred:?}"));
                    let real = sets
                        .iter()
                        .map(|(c, e)| Arc::new(Expression::Assignment(AssignmentExpression::new(*c, sch.get_column(*c).unwrap().clone(), build(e, n)))))
                        .collect();
                    let f = PlanNode::Filter(FilterNode::new_where(sch.clone(), oid, name.clone(), build(&pred, n), vec![q.plan]));
                    (PlanNode::Update(UpdateNode::new(sch, name, oid, real, vec![f])), Some(hits))
                },
                _ => {
                    let q = w.scan(i);
                    let rows = q.rows();
                    let pred = expr(rng, Ty::Boolean, 2, &types, &rows);
                    let old = w.tables[i].rows.len();
                    w.tables[i].rows.retain(|r| truth(&eval(&pred, r).r.unwrap()) != Some(true));
                    let hits = old - w.tables[i].rows.len();
                    log.push(format!("delete from {name} {hits} rows where {pred:?}"));
                    let f = PlanNode::Filter(FilterNode::new_where(sch.clone(), oid, name.clone(), build(&pred, n), vec![q.plan]));
                    (PlanNode::Delete(DeleteNode::new(sch, name, oid, vec![f])), Some(hits))
                },
            };
            let kind = log.last().unwrap().split(' ').next().unwrap().to_string();
            let tell = || log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; ");
            let got = w.run(&plan, &tx).map_err(|e| format!("{e} after {}", tell()))?;
            if let Some(hits) = count {
                let told = got.first().map_or(0, |r| int_of(&r[0]).unwrap_or(-1));
                check!(told == hits as i128, "the statement reports {told} rows but concerns {hits}: {}", tell());
            }
            ctx.eval(1);
            ctx.count(&format!("statement_{kind}"), 1);
            ctx.seen(&(kind, count.map(|c| c.min(4)), w.tables[i].rows.len().min(6)));
            let q = w.scan(i);
            let got = w.run(&q.plan, &tx).map_err(|e| format!("{e} after {}", tell()))?;
            matches(&q.groups, None, &got).map_err(|e| format!("{e} in {} after {}", w.tables[i].name, tell()))?;
        }
        if rng.chance(1, 4) {
            w.db.abort(tx);
            for (t, rows) in w.tables.iter_mut().zip(before) {
                t.rows = rows;
            }
            log.push("abort".into());
        } else {
            check!(w.db.commit(tx), "commit refused after {}", log.join("; "));
            log.push("commit".into());
        }
        let tx = w.db.begin(IsolationLevel::ReadCommitted);
        for i in 0..w.tables.len() {
            let q = w.scan(i);
            let got = w.run(&q.plan, &tx)?;
            matches(&q.groups, None, &got).map_err(|e| format!("{e} in {} after {}", w.tables[i].name, log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; ")))?;
        }
        w.db.commit(tx);
    }
    ctx.sample("statements", || json!(log.iter().take(12).map(|l| l.chars().take(160).collect::<String>()).collect::<Vec<_>>()));
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct plan shape that gave rows (operator tree, number of rows up to 3), a distinct place of a failing expression, or a distinct (statement, rows concerned up to 4, table size up to 6)");
    ctx.assume("expressions have one defined value on every row they meet (the errors case wants the opposite)");
    ctx.assume("rows with equal sort keys may come in any order; a LIMIT that cuts among them may keep any of them");
    ctx.assume("SUM over no rows, the order of groups, HAVING, WHERE conditions that fail, and joins by index are not claimed");
    ctx.explore("query", 8, 6.0, 60, 10_000_000, query);
    ctx.explore("large", 8, 3.0, 8, 1_000_000, large);
    ctx.explore("errors", 8, 2.0, 40, 10_000_000, errors);
    ctx.explore("dml", 8, 5.0, 40, 10_000_000, dml);
}
